"""Stand-ins for the ROS packages that are not installed in this sandbox, and a
simulated middleware with a virtual clock.

ros_bt_py itself is imported unmodified from /repo.  What is replaced here is
only its environment:

* ``rosidl_runtime_py`` and ``example_interfaces`` (not installed): pure-Python
  equivalents with the documented behaviour of the originals.
* ``ros_bt_py.parameters`` (generated by a build step that cannot run here).
* the distribution metadata of ``ros_bt_py`` (the package isn't pip-installed),
  taken from /repo/ros_bt_py/package.xml.
* ``rclpy.action.ActionClient``: simulated, see :class:`FakeActionClient`.
* :class:`FakeROSNode`: an ``rclpy.node.Node`` whose middleware is simulated
  under a virtual clock, so that messages, responses, rejections, delays and
  failures happen exactly when the workload says so.

Single file on purpose: demonstrations carry a copy of it.
"""

import array
import atexit
import collections
import importlib
import os
import re
import shutil
import sys
import tempfile
import threading
import types

import numpy

REPO = os.environ.get("VERIF_REPO", "/repo")

# --------------------------------------------------------------------------
# message definition helper (pure Python equivalent of rosidl generated code)
# --------------------------------------------------------------------------


def _default_for(t):
    m = re.match(r"(.*)\[(\d+)\]$", t)
    if m:
        if m.group(1) in _CODES:
            return numpy.zeros(int(m.group(2)), dtype=_CODES[m.group(1)][1])
        return [_default_for(m.group(1)) for _ in range(int(m.group(2)))]
    if t.startswith("sequence<"):
        inner = t[len("sequence<") : -1].split(",")[0].strip()
        return array.array(_CODES[inner][0]) if inner in _CODES else []
    if t.startswith(("string", "wstring")):
        return ""
    if t == "boolean":
        return False
    if t == "octet":
        return bytes([0])
    if "int" in t and "/" not in t:
        return 0
    if t in ("float", "double"):
        return 0.0
    return get_interface_cls(t)()


# like rosidl: numeric arrays are numpy arrays, numeric sequences array.arrays
_CODES = {
    "int8": ("b", "int8"),
    "uint8": ("B", "uint8"),
    "int16": ("h", "int16"),
    "uint16": ("H", "uint16"),
    "int32": ("i", "int32"),
    "uint32": ("I", "uint32"),
    "int64": ("q", "int64"),
    "uint64": ("Q", "uint64"),
    "float": ("f", "float32"),
    "double": ("d", "float64"),
}


def get_interface_cls(name):
    pkg, *ns, cls = name.split("/")
    ns = ns or ["msg"]
    return getattr(importlib.import_module(".".join([pkg, *ns])), cls)


_INT_RANGE = {
    "int8": (-(2**7), 2**7 - 1),
    "uint8": (0, 2**8 - 1),
    "int16": (-(2**15), 2**15 - 1),
    "uint16": (0, 2**16 - 1),
    "int32": (-(2**31), 2**31 - 1),
    "uint32": (0, 2**32 - 1),
    "int64": (-(2**63), 2**63 - 1),
    "uint64": (0, 2**64 - 1),
}


def _check_field(cls, field, t, value):
    m = re.match(r"(.*)\[(\d+)\]$", t)
    if m or t.startswith("sequence<"):
        if isinstance(value, (str, bytes)) or not hasattr(value, "__len__"):
            raise AssertionError(f"The '{field}' field must be a sequence")
        if m and len(value) != int(m.group(2)):
            raise AssertionError(f"The '{field}' field must have {m.group(2)} elements")
        inner = m.group(1) if m else t[len("sequence<") : -1].split(",")[0].strip()
        for v in value.tolist() if hasattr(value, "tolist") else value:
            _check_field(cls, field, inner, v)
        if not m and t.find(",") != -1 and len(value) > int(t[t.find(",") + 1 : -1]):
            raise AssertionError(f"The '{field}' field must have at most that many elements")
        if inner in _CODES:
            return (
                numpy.array(value, dtype=_CODES[inner][1])
                if m
                else array.array(_CODES[inner][0], value)
            )
        return value
    if t.startswith(("string", "wstring")):
        ok = isinstance(value, str)
        b = re.search(r"<(\d+)>", t)
        ok = ok and (b is None or len(value) <= int(b.group(1)))
    elif t == "boolean":
        ok = isinstance(value, bool)
    elif t == "octet":
        ok = isinstance(value, (bytes, bytearray)) and len(value) == 1
    elif t in _INT_RANGE:
        lo, hi = _INT_RANGE[t]
        ok = isinstance(value, int) and lo <= value <= hi
    elif t in ("float", "double"):
        ok = isinstance(value, float)
    else:
        ok = isinstance(value, get_interface_cls(t))
    if not ok:
        raise AssertionError(f"The '{field}' field must be of type '{t}', got {value!r}")
    return value


def make_message(module, name, fields, constants=None, **extra):
    """Class that looks like the output of rosidl_generator_py."""
    consts = dict(constants or {})
    meta = type(
        "Metaclass_" + name,
        (type,),
        {
            "_TYPE_SUPPORT": None,
            "__prepare__": classmethod(lambda mcs, n, b, **kw: dict(consts)),
            **{k: property(lambda self, v=v: v) for k, v in consts.items()},
        },
    )
    fields = dict(fields)

    def __init__(self, **kwargs):
        bad = set(kwargs) - set(fields)
        if bad:
            raise AssertionError(f"Invalid arguments passed to constructor: {bad}")
        for f, t in fields.items():
            setattr(self, f, kwargs[f] if f in kwargs else _default_for(t))

    def __eq__(self, other):
        if not isinstance(other, self.__class__):
            return False
        for f in fields:
            a, b = getattr(self, f), getattr(other, f)
            if isinstance(a, numpy.ndarray):
                if any(a != b):
                    return False
            elif a != b:
                return False
        return True

    def __repr__(self):
        args = ", ".join(f"{f}={getattr(self, f)!r}" for f in fields)
        return f"{module}.{name}({args})"

    def _prop(f, t):
        def getter(self):
            return getattr(self, "_" + f)

        def setter(self, v):
            object.__setattr__(self, "_" + f, _check_field(name, f, t, v))

        return property(getter, setter)

    ns = {
        **consts,
        "__module__": module,
        "__slots__": ["_" + f for f in fields],
        "_fields_and_field_types": fields,
        "SLOT_TYPES": tuple(fields.values()),
        "get_fields_and_field_types": classmethod(lambda cls: dict(fields)),
        "__init__": __init__,
        "__eq__": __eq__,
        "__hash__": None,
        "__repr__": __repr__,
        **{f: _prop(f, t) for f, t in fields.items()},
        **extra,
    }
    cls = meta(name, (), ns)
    return cls


def _make_service(module, name, req, resp):
    base = module + "._" + re.sub(r"(?<!^)(?=[A-Z])", "_", name).lower()
    rq = make_message(base, name + "_Request", req)
    rs = make_message(base, name + "_Response", resp)
    ev = make_message(base, name + "_Event", {})
    meta = type("Metaclass_" + name, (type,), {"_TYPE_SUPPORT": None})
    return meta(
        name, (), {"Request": rq, "Response": rs, "Event": ev, "__module__": base}
    )


def _make_action(module, name, goal, result, feedback):
    base = module + "._" + re.sub(r"(?<!^)(?=[A-Z])", "_", name).lower()
    ns = {
        "Goal": make_message(base, name + "_Goal", goal),
        "Result": make_message(base, name + "_Result", result),
        "Feedback": make_message(base, name + "_Feedback", feedback),
        "__module__": base,
    }
    meta = type("Metaclass_" + name, (type,), {"_TYPE_SUPPORT": None})
    return meta(name, (), ns)


def _install_example_interfaces():
    try:
        import example_interfaces  # noqa: F401

        return
    except ImportError:
        pass
    pkg = types.ModuleType("example_interfaces")
    pkg.__path__ = []
    m = types.ModuleType("example_interfaces.msg")
    s = types.ModuleType("example_interfaces.srv")
    a = types.ModuleType("example_interfaces.action")
    pkg.msg, pkg.srv, pkg.action = m, s, a
    for mod in (pkg, m, s, a):
        sys.modules[mod.__name__] = mod
    prim = {
        "Bool": "boolean",
        "Byte": "octet",
        "Char": "uint8",
        "Float32": "float",
        "Float64": "double",
        "Int8": "int8",
        "Int16": "int16",
        "Int32": "int32",
        "Int64": "int64",
        "UInt8": "uint8",
        "UInt16": "uint16",
        "UInt32": "uint32",
        "UInt64": "uint64",
        "String": "string",
        "WString": "wstring",
    }
    m.Empty = make_message("example_interfaces.msg._empty", "Empty", {})
    for name, t in prim.items():
        mod = "example_interfaces.msg._" + re.sub(
            r"(?<=[a-z])(?=[A-Z])", "_", name
        ).lower()
        setattr(m, name, make_message(mod, name, {"data": t}))
    m.Int32MultiArray = make_message(
        "example_interfaces.msg._int32_multi_array",
        "Int32MultiArray",
        {"data": "sequence<int32>"},
    )
    # Not in the original package: covers the field kinds it lacks.
    m.VerifMix = make_message(
        "example_interfaces.msg._verif_mix",
        "VerifMix",
        {
            "flag": "boolean",
            "small": "int8",
            "big": "uint64",
            "x": "double",
            "text": "string",
            "short_text": "string<5>",
            "names": "sequence<string>",
            "few": "sequence<int16, 3>",
            "three": "int32[3]",
            "nested": "example_interfaces/String",
            "nested_list": "sequence<example_interfaces/Int32>",
        },
        constants={"FOO": 0, "BAR": 1, "BAZ": 7},
    )
    s.Trigger = _make_service(
        "example_interfaces.srv",
        "Trigger",
        {},
        {"success": "boolean", "message": "string"},
    )
    s.SetBool = _make_service(
        "example_interfaces.srv",
        "SetBool",
        {"data": "boolean"},
        {"success": "boolean", "message": "string"},
    )
    s.AddTwoInts = _make_service(
        "example_interfaces.srv",
        "AddTwoInts",
        {"a": "int64", "b": "int64"},
        {"sum": "int64"},
    )
    # Not in the original package: lists and bounded fields.
    s.VerifLookup = _make_service(
        "example_interfaces.srv",
        "VerifLookup",
        {"keys": "sequence<string>", "depth": "int8", "origin": "example_interfaces/Int32"},
        {"found": "boolean", "values": "sequence<double>", "unit": "string<5>", "where": "example_interfaces/String"},
    )
    a.Fibonacci = _make_action(
        "example_interfaces.action",
        "Fibonacci",
        {"order": "int32"},
        {"sequence": "sequence<int32>"},
        {"sequence": "sequence<int32>"},
    )
    # Not in the original package: result and feedback differ.
    a.Progress = _make_action(
        "example_interfaces.action",
        "Progress",
        {"target": "int32", "label": "string"},
        {"total": "int64", "done": "boolean"},
        {"percent": "double"},
    )
    for mod in (s, a):
        for name in [n for n in vars(mod) if not n.startswith("_")]:
            for part in ("Request", "Response", "Event", "Goal", "Result", "Feedback"):
                if hasattr(vars(mod)[name], part):
                    setattr(mod, f"{name}_{part}", getattr(vars(mod)[name], part))


def _install_rosidl_runtime_py():
    try:
        import rosidl_runtime_py  # noqa: F401

        return
    except ImportError:
        pass
    import yaml
    import numpy

    pkg = types.ModuleType("rosidl_runtime_py")
    pkg.__path__ = []
    util = types.ModuleType("rosidl_runtime_py.utilities")
    pkg.utilities = util
    sys.modules[pkg.__name__] = pkg
    sys.modules[util.__name__] = util

    def is_message(i):
        return hasattr(i, "_fields_and_field_types")

    def is_service(i):
        return hasattr(i, "Request") and hasattr(i, "Response")

    def is_action(i):
        return hasattr(i, "Goal") and hasattr(i, "Result") and hasattr(i, "Feedback")

    def _import(parts):
        return getattr(importlib.import_module(".".join(parts[:-1])), parts[-1])

    def _parts(identifier, min_parts=2):
        parts = identifier.split("/")
        if len(parts) < min_parts:
            raise ValueError(
                f"Invalid name '{identifier}'. Must have at least two parts "
                "separated by '/'"
            )
        if not all(parts):
            raise ValueError(f"Invalid name '{identifier}'. Must not contain empty parts")
        return parts

    def get_interface(identifier):
        return _import(_parts(identifier))

    def _kind(identifier, default_ns, check, what):
        parts = _parts(identifier)
        if len(parts) == 2:
            parts = [parts[0], default_ns, parts[1]]
        i = _import(parts)
        if not check(i):
            raise ValueError(f"Expected the full name of a {what}, got '{identifier}'")
        return i

    util.is_message, util.is_service, util.is_action = is_message, is_service, is_action
    util.get_interface = get_interface
    util.get_message = lambda i: _kind(i, "msg", is_message, "message")
    util.get_service = lambda i: _kind(i, "srv", is_service, "service")
    util.get_action = lambda i: _kind(i, "action", is_action, "action")

    def set_message_fields(msg, values):
        try:
            items = values.items()
        except AttributeError:
            raise TypeError(
                f"Value '{values}' is expected to be a dictionary but is a "
                f"{type(values).__name__}"
            )
        types_ = msg.get_fields_and_field_types()
        for name, fv in items:
            field = getattr(msg, name)
            ft = type(field)
            if ft is array.array:
                value = ft(field.typecode, fv)
            elif ft is numpy.ndarray:
                value = numpy.array(fv, dtype=field.dtype)
            elif type(fv) is ft:
                value = fv
            else:
                try:
                    value = ft(fv)
                except TypeError:
                    value = ft()
                    set_message_fields(value, fv)
            t = types_[name]
            m = re.match(r"sequence<([^,>]+)(?:, *\d+)?>$", t) or re.match(
                r"(.*)\[\d+\]$", t
            )
            if m and "/" in m.group(1):
                cls = util.get_message(m.group(1))
                for n in range(len(value)):
                    sub = cls()
                    set_message_fields(sub, value[n])
                    value[n] = sub
            setattr(msg, name, value)

    def _conv(v):
        if isinstance(v, (list, tuple, array.array, numpy.ndarray)):
            return [_conv(x) for x in v]
        if isinstance(v, (bytes, bytearray)):
            return list(v)
        if isinstance(v, numpy.number):
            return v.item()
        if is_message(type(v)):
            return to_dict(v)
        return v

    def to_dict(msg):
        return {f: _conv(getattr(msg, f)) for f in msg.get_fields_and_field_types()}

    def message_to_yaml(msg, **kw):
        return yaml.dump(
            to_dict(msg),
            allow_unicode=True,
            width=sys.maxsize,
            default_flow_style=False,
            sort_keys=False,
        )

    pkg.set_message_fields = set_message_fields
    pkg.message_to_yaml = message_to_yaml
    pkg.message_to_ordereddict = lambda m, **kw: collections.OrderedDict(to_dict(m))

    table = {
        "msg": {"example_interfaces": ["String", "Int32", "Empty", "VerifMix"],
                "std_msgs": ["String", "Int64"], "ros_bt_py_interfaces": ["NodeIO"]},
        "srv": {"example_interfaces": ["Trigger", "AddTwoInts"]},
        "action": {"example_interfaces": ["Fibonacci"]},
    }
    pkg.get_interface_packages = lambda: {
        "example_interfaces": "", "std_msgs": "", "ros_bt_py_interfaces": ""}

    def _list(kind, pkgs):
        return {
            p: [f"{kind}/{n}" for n in names]
            for p, names in table[kind].items()
            if p in (pkgs or table[kind])
        }

    pkg.get_message_interfaces = lambda p=[]: _list("msg", p)
    pkg.get_service_interfaces = lambda p=[]: _list("srv", p)
    pkg.get_action_interfaces = lambda p=[]: _list("action", p)


_META_DIR = None


def _install_dist_info():
    """importlib.metadata.version('ros_bt_py') as an installed package would answer."""
    global _META_DIR
    from importlib import metadata

    try:
        metadata.version("ros_bt_py")
        return
    except metadata.PackageNotFoundError:
        pass
    with open(os.path.join(REPO, "ros_bt_py", "package.xml")) as f:
        version = re.search(r"<version>\s*([^<\s]+)\s*</version>", f.read()).group(1)
    _META_DIR = tempfile.mkdtemp(prefix="verif-meta-")
    atexit.register(shutil.rmtree, _META_DIR, True)
    d = os.path.join(_META_DIR, f"ros_bt_py-{version}.dist-info")
    os.mkdir(d)
    with open(os.path.join(d, "METADATA"), "w") as f:
        f.write(f"Metadata-Version: 2.1\nName: ros_bt_py\nVersion: {version}\n")
    sys.path.append(_META_DIR)
    importlib.invalidate_caches()


# --------------------------------------------------------------------------
# simulated middleware
# --------------------------------------------------------------------------


class SimClock:
    """Virtual time.  Advances only when the workload says so."""

    def __init__(self):
        from rclpy.clock import ClockType

        self.ns = 1_000_000_000_000
        self.clock_type = ClockType.ROS_TIME

    def now(self):
        from rclpy.time import Time

        return Time(nanoseconds=self.ns, clock_type=self.clock_type)

    def advance(self, seconds):
        self.ns += int(round(seconds * 1e9))


def _sink():
    from rclpy.impl.rcutils_logger import RcutilsLogger

    class Sink(RcutilsLogger):
        """A logger that says nothing."""

        def log(self, *a, **k):
            return False

        def get_child(self, name):
            return self

    return Sink("sim")


class SimFuture:
    """The part of rclpy.task.Future that nodes use; completed by the workload."""

    def __init__(self):
        self._done = False
        self._cancelled = False
        self._result = None
        self._exc = None
        self._cbs = []
        self.cancel_calls = 0

    def done(self):
        return self._done

    def cancelled(self):
        return self._cancelled

    def cancel(self):
        self.cancel_calls += 1
        if not self._done:
            self._cancelled = True
            self._fire()
            return True
        return False

    def result(self):
        if self._exc is not None:
            raise self._exc
        return self._result

    def exception(self):
        return self._exc

    def set_result(self, r):
        if self._done or self._cancelled:
            return
        self._result = r
        self._done = True
        self._fire()

    def set_exception(self, e):
        if self._done or self._cancelled:
            return
        self._exc = e
        self._done = True
        self._fire()

    def add_done_callback(self, cb):
        if self._done or self._cancelled:
            cb(self)
        else:
            self._cbs.append(cb)

    def _fire(self):
        for cb in self._cbs:
            cb(self)
        self._cbs = []


class SimClient:
    def __init__(self, node, srv_type, name):
        self.node, self.srv_type, self.srv_name = node, srv_type, name
        self.service_name = name
        self.alive = True
        self.calls = []  # [(request, future)]

    def call_async(self, request):
        import copy

        if not self.alive:
            raise RuntimeError("call_async on a destroyed client")
        if not isinstance(request, self.srv_type.Request):
            raise TypeError(f"wrong request type {request!r}")
        fut = SimFuture()
        self.calls.append((copy.deepcopy(request), fut))
        self.node.log("service_call", self, copy.deepcopy(request), fut)
        return fut

    def remove_pending_request(self, fut):
        pass

    def service_is_ready(self):
        return self.node.services_ready.get(self.srv_name, False)

    def wait_for_service(self, timeout_sec=None):
        return self.service_is_ready()

    def destroy(self):
        self.node.destroy_client(self)


class SimPublisher:
    def __init__(self, node, msg_type, topic, qos):
        self.node, self.msg_type, self.topic, self.qos_profile = node, msg_type, topic, qos
        self.topic_name = topic
        self.alive = True
        self.published = []

    def publish(self, msg):
        import copy

        if not self.alive:
            raise RuntimeError("publish on a destroyed publisher")
        if not isinstance(msg, self.msg_type):
            raise TypeError(f"wrong message type {msg!r}")
        self.published.append(copy.deepcopy(msg))
        self.node.log("publish", self, copy.deepcopy(msg))


class SimSubscription:
    def __init__(self, node, msg_type, topic, callback, qos):
        self.node, self.msg_type, self.topic = node, msg_type, topic
        self.callback, self.qos_profile = callback, qos
        self.alive = True


class SimTimer:
    def __init__(self, node, period, callback):
        self.node, self.period, self.callback = node, period, callback
        self.cancelled = False

    def cancel(self):
        self.cancelled = True

    def is_canceled(self):
        return self.cancelled

    def reset(self):
        self.cancelled = False

    def destroy(self):
        self.cancelled = True


class SimRate:
    def __init__(self, node, frequency):
        self.node, self.frequency = node, frequency
        self.sleeps = 0
        self.destroyed = False

    def sleep(self):
        self.sleeps += 1
        self.node.on_sleep(self)

    def destroy(self):
        self.destroyed = True


class SimGoalHandle:
    def __init__(self, client, goal, accepted):
        self.client, self.goal, self.accepted = client, goal, accepted
        self.result_future = None
        self.cancel_requests = 0
        self.cancel_futures = []
        self.goal_id = None
        self.status = 2 if accepted else 0

    def get_result_async(self):
        if self.result_future is None:
            self.result_future = SimFuture()
        self.client.node.log("get_result", self.client, self)
        self.client.wants_result.append(self)
        return self.result_future

    def cancel_goal_async(self):
        self.cancel_requests += 1
        f = SimFuture()
        self.cancel_futures.append(f)
        self.client.node.log("goal_cancel", self.client, self)
        return f


class SimActionClient:
    instances = []

    def __init__(self, node, action_type, action_name, **kw):
        self.node, self.action_type, self.action_name = node, action_type, action_name
        self.alive = True
        self.goals = []  # [dict]
        self.wants_result = []
        SimActionClient.instances.append(self)
        node.action_clients.append(self)
        node.log("create_action_client", self)

    def send_goal_async(self, goal, feedback_callback=None, goal_uuid=None):
        import copy

        if not self.alive:
            raise RuntimeError("send_goal_async on a destroyed client")
        if not isinstance(goal, self.action_type.Goal):
            raise TypeError(f"Expected type {self.action_type.Goal}, got {goal!r}")
        f = SimFuture()
        g = {
            "goal": copy.deepcopy(goal),
            "future": f,
            "feedback": feedback_callback,
            "handle": None,
        }
        self.goals.append(g)
        self.node.log("goal_sent", self, g)
        return f

    def server_is_ready(self):
        return self.node.services_ready.get(self.action_name, False)

    def wait_for_server(self, timeout_sec=None):
        return self.server_is_ready()

    def destroy(self):
        self.alive = False
        self.node.log("destroy_action_client", self)


def _make_fake_node_class():
    import rclpy.node

    class FakeROSNode(rclpy.node.Node):
        def __init__(self, name="sim_node"):  # no super().__init__: no middleware
            self.sim_name = name
            self.clock = SimClock()
            self.clients_ = []
            self.publishers_ = []
            self.subscriptions_ = []
            self.timers_ = []
            self.rates_ = []
            self.action_clients = []
            self.services_ready = {}
            self.endpoints = {}
            self.params = {}
            self.events = []
            self.fail_destroy = set()
            self.sleep_hook = None
            self._sink = _sink()
            self.lock_ = threading.RLock()

        def __del__(self):
            pass

        def __repr__(self):
            return f"<FakeROSNode {self.sim_name}>"

        def log(self, *ev):
            self.events.append(ev)

        def on_sleep(self, rate):
            if self.sleep_hook is not None:
                self.sleep_hook(rate)

        # --- API used by ros_bt_py
        def get_name(self):
            return self.sim_name

        def get_namespace(self):
            return "/"

        def get_logger(self):
            return self._sink

        def get_clock(self):
            return self.clock

        def create_client(self, srv_type, srv_name, **kw):
            c = SimClient(self, srv_type, srv_name)
            self.clients_.append(c)
            self.log("create_client", c)
            return c

        def destroy_client(self, client):
            if "client" in self.fail_destroy or not client.alive:
                return False
            client.alive = False
            self.log("destroy_client", client)
            return True

        def create_publisher(self, msg_type, topic, qos_profile=None, **kw):
            p = SimPublisher(self, msg_type, topic, qos_profile)
            self.publishers_.append(p)
            self.log("create_publisher", p)
            return p

        def destroy_publisher(self, pub):
            if "publisher" in self.fail_destroy or not pub.alive:
                return False
            pub.alive = False
            self.log("destroy_publisher", pub)
            return True

        def create_subscription(
            self, msg_type, topic, callback, qos_profile=None, **kw
        ):
            s = SimSubscription(self, msg_type, topic, callback, qos_profile)
            self.subscriptions_.append(s)
            self.log("create_subscription", s)
            return s

        def destroy_subscription(self, sub):
            if "subscription" in self.fail_destroy or not sub.alive:
                return False
            sub.alive = False
            self.log("destroy_subscription", sub)
            return True

        def create_timer(self, timer_period_sec, callback, *a, **kw):
            t = SimTimer(self, timer_period_sec, callback)
            self.timers_.append(t)
            return t

        def destroy_timer(self, t):
            t.cancel()
            return True

        def create_rate(self, frequency, clock=None):
            if frequency <= 0:
                raise ValueError("frequency must be > 0")
            r = SimRate(self, frequency)
            self.rates_.append(r)
            return r

        def destroy_rate(self, r):
            r.destroy()
            return True

        def resolve_topic_name(self, topic, *, only_expand=False):
            return topic if topic.startswith("/") else "/" + topic

        def get_publishers_info_by_topic(self, topic, no_mangle=False):
            return list(self.endpoints.get(topic, []))

        def has_parameter(self, name):
            return name in self.params

        def get_parameter(self, name):
            return types.SimpleNamespace(value=self.params[name])

        # --- workload side
        def deliver(self, topic, msg):
            import copy

            n = 0
            for s in list(self.subscriptions_):
                if s.alive and s.topic == topic:
                    s.callback(copy.deepcopy(msg))
                    n += 1
            return n

        def alive_resources(self):
            return (
                [("client", c.srv_name) for c in self.clients_ if c.alive]
                + [("publisher", p.topic) for p in self.publishers_ if p.alive]
                + [("subscription", s.topic) for s in self.subscriptions_ if s.alive]
                + [("action_client", c.action_name) for c in self.action_clients if c.alive]
            )

    return FakeROSNode


FakeROSNode = None
_installed = False


def install():
    """Make every ros_bt_py module importable.  Idempotent."""
    global FakeROSNode, _installed
    if _installed:
        return
    _installed = True
    _install_example_interfaces()
    _install_rosidl_runtime_py()
    _install_dist_info()
    import rclpy.action
    import rclpy.action.client

    rclpy.action.ActionClient = SimActionClient
    rclpy.action.client.ActionClient = SimActionClient
    if "ros_bt_py.parameters" not in sys.modules:
        p = types.ModuleType("ros_bt_py.parameters")
        p.tree_node_parameters = types.SimpleNamespace(ParamListener=None)
        sys.modules["ros_bt_py.parameters"] = p
    FakeROSNode = _make_fake_node_class()
    # Keep the console quiet: rclpy.logging writes to stderr through rcutils.
    try:
        import rclpy.logging

        for n in ("package_manager",):
            rclpy.logging.set_logger_level(n, rclpy.logging.LoggingSeverity.FATAL)
    except Exception:
        pass
