#!/bin/bash
# run.sh <PROPERTY> [--replay FILE | --only N]: run one check against /repo's working tree.
V=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
mod=$(cd "$V/harness" && ls check_${prop}_*.py 2>/dev/null | head -1)
[ -n "$mod" ] || { echo "no check for $prop"; exit 2; }
. /opt/vp/env.sh
export ROS_LOG_DIR=${TMPDIR:-/tmp}/verif-roslog
mkdir -p "$ROS_LOG_DIR"
# Generated message code: reuse the sandbox's build if it was made from these
# very definitions, build our own otherwise.
hash=$(cd /repo/ros_bt_py_interfaces && find . -type f \( -name '*.msg' -o -name '*.srv' -o -name '*.action' -o -name CMakeLists.txt -o -name package.xml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
if [ "$hash" != "$(cat "$V/harness/interfaces.hash")" ] || [ ! -d "$PREFIX/lib/python3.12/site-packages/ros_bt_py_interfaces" ]; then
    bash "$V/harness/build_interfaces.sh" "$V/build/ifc-$hash" || { echo "CHECK-ERROR cannot build the interfaces"; exit 2; }
    NEW="$V/build/ifc-$hash/install"
    export PYTHONPATH="/repo/ros_bt_py:$NEW/lib/python3.12/site-packages"
    export LD_LIBRARY_PATH="$NEW/lib:${LD_LIBRARY_PATH#*:}"
    export AMENT_PREFIX_PATH="$NEW:/opt/venv"
fi
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export PYTHONPATH="$V/harness:$PYTHONPATH"
cd "$V"
exec /opt/venv/bin/python "$V/harness/common.py" "${mod%.py}" "$@"
