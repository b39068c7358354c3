#!/bin/bash
# build_interfaces.sh DIR: build /repo/ros_bt_py_interfaces into DIR/install (only if its definitions changed).
D=$1
[ -f "$D/ok" ] && exit 0
. /opt/vp/env.sh
mkdir -p "$D"
clean() { env -u LD_LIBRARY_PATH -u PYTHONPATH AMENT_PREFIX_PATH=/opt/venv "$@"; }
{ clean /usr/bin/cmake -S /repo/ros_bt_py_interfaces -B "$D/obj" -DCMAKE_INSTALL_PREFIX="$D/install" \
    -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=OFF -DPython3_EXECUTABLE=/opt/venv/bin/python3 &&
clean /usr/bin/cmake --build "$D/obj" -j8 && clean /usr/bin/cmake --install "$D/obj"; } > "$D/log" 2>&1 || { tail -30 "$D/log"; exit 1; }
rm -rf "${D:?}/obj"
touch "$D/ok"
