"""Random, valid instances of every shipped node class."""
import importlib
import json
import pkgutil

import bt
import vtypes as vt
from bt import Node, dt
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py_interfaces.msg import NodeDataLocation, NodeIO, NodeStructure, Wiring

import ros_bt_py.nodes
import ros_bt_py.ros_nodes

for _p in (ros_bt_py.nodes, ros_bt_py.ros_nodes):
    for _m in pkgutil.iter_modules(_p.__path__):
        importlib.import_module(f"{_p.__name__}.{_m.name}")

SHIPPED = {
    c.__name__: c for mod, d in Node.node_classes.items() if mod.startswith("ros_bt_py.") for c in d.values()
}

I63 = (-(2**63), 2**64 - 1)


def _num(t, lo, hi):
    return {"type_identifier": t, "min_value": lo, "max_value": hi}


BOOL = {"type_identifier": 1}
INT = _num(2, *I63)
INT9 = _num(2, 0, 9)
FLOAT = _num(3, *vt.DBL)
STR = {"type_identifier": 4, "max_length": vt.BIG}
STR3 = {"type_identifier": 4, "max_length": 3}


def LIST(e, n=vt.BIG):
    return {"type_identifier": 5, "max_length": n, "strict_length": False, "element_type": e}


def DICT(e, n=vt.BIG):
    return {"type_identifier": 6, "max_length": n, "strict_length": False, "element_type": e}


MSG = {"type_identifier": 12, "ros_msg_type": "example_interfaces/msg/String"}
POOL = [BOOL, INT, INT, INT9, FLOAT, STR, STR, STR3, LIST(INT), LIST(STR), DICT(INT), MSG]
PY = {1: bool, 2: int, 3: float, 4: str, 5: list, 6: dict, 7: bytes, 12: object}


def spec_for(c, types):
    """Specification of container ``c``; ``types`` holds the chosen type inputs."""
    if isinstance(c, (dt.ReferenceListType,)):
        return vt.List(types[c._reference])
    if isinstance(c, (dt.ReferenceDictType,)):
        return vt.Dict(types[c._reference])
    if isinstance(c, dt.ReferenceType):
        return types[c._reference]
    if isinstance(c, dt.PathType):
        return vt.Path()
    for cls, mk in (
        (dt.BoolType, lambda: vt.Bool()),
        (dt.IntType, lambda: vt.Int(c.min_value, c.max_value)),
        (dt.FloatType, lambda: vt.Float(c.min_value, c.max_value)),
        (dt.StringType, lambda: vt.Str(c.max_length, c.valid_values)),
        (dt.RosMessageType, lambda: vt.Msg(c.message_type)),
    ):
        if type(c) is cls:
            return mk()
    if type(c).__name__ in ("RosTopicName", "RosServiceName", "RosActionName"):
        return vt.Name(type(c).__name__)
    if isinstance(c, (dt.ListType, dt.DictType)):
        k = vt.List if isinstance(c, dt.ListType) else vt.Dict
        return k(spec_for(c._element_type, types))
    return None


def ros_types(which):
    import example_interfaces.action as a
    import example_interfaces.msg as m
    import example_interfaces.srv as s
    from ros_bt_py_interfaces.msg import UtilityBounds, Wiring as W

    return {
        "RosTopicType": [m.String, m.Int32, m.VerifMix, W, UtilityBounds],
        "RosComponentType": [m.VerifMix, m.String, s.SetBool.Request],
        "RosServiceType": [s.Trigger, s.SetBool, s.AddTwoInts],
        "RosActionType": [a.Fibonacci, a.Progress],
    }[which]


def small(rng, sp):
    """A value inside the constraints, rather small ones."""
    if isinstance(sp, vt.Int):
        lo, hi = max(sp.l, -9), min(sp.h, 9)
        return rng.randint(lo, hi) if lo <= hi else sp.sample(rng)
    if isinstance(sp, vt.Float):
        lo, hi = max(sp.l, -4.0), min(sp.h, 4.0)
        return rng.randint(int(lo * 4), int(hi * 4)) / 4 if lo <= hi else sp.sample(rng)
    return sp.sample(rng)


def make(rng, cls, name=None, types=None, static=None, values=None, pick=None):
    """NodeStructure of a valid instance; ``types``: key -> type value, ``values``: key -> value,
    ``static``: key -> bool, or one bool for all inputs that allow both."""
    cfg = cls._node_config
    msg = NodeStructure(module=cls.__module__, node_class=cls.__name__, name=name or "", max_children=-1 if cfg.max_children is None else cfg.max_children)
    specs, ios = {}, []
    for key, c in cfg.inputs.items():
        m = c.serialize_type()
        if isinstance(c, dt.GenericType):
            d = (types or {}).get(key)
            if d is None:
                ok = [p for p in POOL if PY[p["type_identifier"]] in c.valid_types and PY[p.get("element_type", p)["type_identifier"]] in c.valid_types]
                d = rng.choice(ok) if ok else None
            specs[key] = vt.spec_of(d)
            ios.append(NodeIO(key=key, type=m, serialized_value=json.dumps(d)))
        elif type(c).__name__ in ("RosTopicType", "RosComponentType", "RosServiceType", "RosActionType"):
            d = (types or {}).get(key) or rng.choice(ros_types(type(c).__name__))
            if not isinstance(d, str):
                t = type(c)(allow_static=True)
                t.set_value(d)
                d = t.serialize_value()
            else:
                d = json.dumps(d)
            t = type(c)()
            t.deserialize_value(d)
            v = t.get_value().unwrap()
            if hasattr(v, "get_fields_and_field_types"):
                specs[key] = vt.Msg(v)
            ios.append(NodeIO(key=key, type=m, serialized_value=d))
    done = {io.key for io in ios}
    for key, c in cfg.inputs.items():
        if key in done:
            continue
        m = c.serialize_type()
        if c.allow_dynamic and c.allow_static:
            s = static.get(key) if isinstance(static, dict) else static
            m.is_static = rng.random() < 0.6 if s is None else s
        sp = spec_for(c, specs)
        v = ""
        if m.is_static and sp is not None:
            x = (values or {}).get(key, None)
            if x is None:
                x = (pick or small)(rng, sp)
            if x is not None:
                t = sp.build()
                t.set_value(x)
                v = t.serialize_value()
        ios.append(NodeIO(key=key, type=m, serialized_value=v))
    order = list(cfg.inputs)
    msg.inputs = sorted(ios, key=lambda io: order.index(io.key))
    return msg


def wiring(s, sk, t, tk):
    return Wiring(
        source=NodeDataLocation(node_id=s if isinstance(s, str) else uuid_to_ros(s), data_key=sk),
        target=NodeDataLocation(node_id=t if isinstance(t, str) else uuid_to_ros(t), data_key=tk),
    )
