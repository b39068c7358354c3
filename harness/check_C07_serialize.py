"""C07: types and values survive serialization (the only way they reach files and the GUI)."""
import json
from decimal import Decimal

import bt
import vtypes as vt
from bt import dt
from common import Violation
from ros_bt_py_interfaces.msg import NodeDataType

PROPERTY = "C07"
LEVEL = "exploration"
RULE = (
    "random type (nested, constrained, reference types over random targets) with a random valid value: the type is sent "
    "through its message and the value through its string, the rebuilt container is compared by probing it with values "
    "at the constraints; also hostile strings and messages, which must be answered with Err; distinct by (type, verdict)"
)
TIERS = {"quick": 10000, "thorough": 200000}
FLOORS = {"types": 4000, "values": 4000, "probes": 20000, "hostile_values": 4000, "hostile_types": 4000, "references": 800}

HOSTILE = ["", " ", "{", "[1", "nul", "null", "NaN", "1e999", "-1", "1", "true", '"a"', '"zz"', "[]", "{}", "[null]", '{"a": null}',
           '{"type_identifier": 2}', '{"type_identifier": 99}', '{"type_identifier": "x", "min_value": "q"}', '[[["a"]]]',
           '"no/such/Interface"', '"a/b"', '"/"', '"std_msgs/msg/Nope"', '"nopkg/msg/X"', '{"data": 1}', '{"data": "x"}',
           '{"no_field": 1}', "\ud800" if False else '"\\ud800"', '{"1": 1, "1": 2}', "123456789012345678901234567890", '{"data": [1, "a"]}',
           '{"type_identifier": 5, "max_length": 1, "strict_length": false, "element_type": {}}', '"' + "z" * 300 + '"']


def case(ctx):
    rng = ctx.rng
    k = rng.random()
    if k < 0.55:
        roundtrip(ctx, rng)
    elif k < 0.75:
        reference(ctx, rng)
    elif k < 0.9:
        hostile_value(ctx, rng)
    else:
        hostile_type(ctx, rng)


def flags_for(sp, rng):
    if getattr(sp, "static_only", False):
        return {"allow_static": True, "is_static": True}
    f = rng.choice([
        {}, {"allow_dynamic": False}, {"allow_static": False}, {"is_static": False}, {"is_static": True},
    ])
    return dict(f)


def flags_of(c):
    return (c.allow_dynamic, c.allow_static, c.is_static)


def probe(ctx, sp, c, what):
    """Does a dynamic twin of c accept what sp says?"""
    rng = ctx.rng
    for _ in range(8):
        v = sp.sample(rng) if rng.random() < 0.4 else sp.near(rng)
        if v is None:
            continue
        want = sp.accept(v)
        if want is None:
            continue
        c.reset_updated()
        r = c.set_value(v)
        ctx.count("probes")
        if r.is_ok() != want:
            raise Violation(f"{what}-constraint/{sp.kind}", f"{sp.key()} rebuilt from its message answers {r} to {v!r}")


def roundtrip(ctx, rng):
    sp = vt.gen(rng)
    f = flags_for(sp, rng)
    c = sp.build(**f)
    m = c.serialize_type()
    ctx.count("types")
    m2 = wire(m)
    r = dt.get_iotype_for_msg(m2)
    if r.is_err():
        raise Violation(f"type-lost/{sp.kind}", f"{sp.key()} {f}: {r}")
    d = r.unwrap()
    if type(d) is not type(c):
        raise Violation(f"type-changed/{sp.kind}", f"{sp.key()} became {type(d).__name__}")
    if flags_of(c) != flags_of(d):
        raise Violation(f"flags/{sp.kind}", f"{sp.key()}: {flags_of(c)} became {flags_of(d)}")
    if not c.is_compatible(d) or not d.is_compatible(c):
        raise Violation(f"not-compatible/{sp.kind}", f"{sp.key()} is not compatible with its own rebuilt version")
    if d.serialize_type() != m:
        raise Violation(f"unstable/{sp.kind}", f"{sp.key()}: {d.serialize_type()} instead of {m}")
    ctx.sig(sp.key(), flags_of(c))
    # value
    v = sp.sample(rng)
    if v is not None:
        assert c.set_value(v).is_ok()
        s = c.serialize_value()
        json.loads(s)
        r = d.deserialize_value(s)
        ctx.count("values")
        if r.is_err():
            raise Violation(f"value-lost/{sp.kind}", f"{sp.key()}: {v!r} serialized as {s!r} answers {r}")
        g = d.get_value()
        if g.is_err() or not vt.same(g.unwrap(), c.get_value().unwrap()):
            raise Violation(f"value-changed/{sp.kind}", f"{sp.key()}: {v!r} serialized as {s!r} became {g}")
        if d.serialize_value() != s:
            raise Violation(f"value-unstable/{sp.kind}", f"{sp.key()}: {s!r} then {d.serialize_value()!r}")
        if not (c == d):
            raise Violation(f"not-equal/{sp.kind}", f"{sp.key()}: {v!r} is not equal after the round trip")
        ctx.sample({"type": repr(sp.key()), "value": s[:200]})
    nested = {"a": {1: True, "b": False}, 2: {3: True}}
    if rng.random() < 0.1:
        n = dt.DictType(element_type=dt.DictType(element_type=dt.BoolType()), is_static=False)
        n.set_value(nested)
        if json.loads(n.serialize_value()) != {"a": {"1": True, "b": False}, "2": {"3": True}}:
            raise Violation("nested-keys", f"{nested} serialized as {n.serialize_value()}")
    # runtime type: same constraints, flags say what it is at run time
    rt = c.get_runtime_type()
    if (rt.allow_dynamic, rt.allow_static) != (not c.is_static, c.is_static):
        raise Violation(f"runtime-flags/{sp.kind}", f"{sp.key()} {f}: runtime type {flags_of(rt)}")
    probe(ctx, sp, d, "rebuilt")
    probe(ctx, sp, rt, "runtime")


def wire(m):
    """The message as it arrives elsewhere."""
    import rosidl_runtime_py
    import yaml

    t = yaml.safe_load(rosidl_runtime_py.message_to_yaml(m))
    out = NodeDataType()
    rosidl_runtime_py.set_message_fields(out, t)
    if out != m:
        raise Violation("message-changed", f"{m} became {out}")
    return out


def reference(ctx, rng):
    ctx.count("references")
    if rng.random() < 0.75:
        gsp = vt.Generic()
        d = gsp.describe(rng)
        target = dt.GenericType(value=d)
        inner = vt.spec_of(d)
    else:
        gsp = vt.RosType(rng.choice(["RosTopicType", "RosComponentType"]))
        cls = gsp.sample(rng)
        target = getattr(dt, gsp.which)(value=cls)
        inner = vt.Msg(cls)
        d = cls
    cls, sp = rng.choice([
        (dt.ReferenceType, inner), (dt.ReferenceListType, vt.List(inner)), (dt.ReferenceDictType, vt.Dict(inner)),
    ])
    c = cls("t", is_static=rng.random() < 0.5)
    if rng.random() < 0.1:
        # without target: no value can be held, nothing breaks
        if c.set_value(sp.sample(rng)).is_ok() or c.has_value() or c.get_value().is_ok() or c.serialize_value() != "":
            raise Violation("reference-without-target", f"{cls.__name__} holds values without a target")
    r = c.set_type_map({"t": target})
    if r.is_err():
        raise Violation("reference-target", f"{cls.__name__} -> {d!r}: {r}")
    c2 = dt.get_iotype_for_msg(wire(c.serialize_type()))
    t2 = dt.get_iotype_for_msg(wire(target.serialize_type()))
    if c2.is_err() or t2.is_err():
        raise Violation("reference-lost", f"{d!r}: {c2} {t2}")
    c2, t2 = c2.unwrap(), t2.unwrap()
    r = t2.deserialize_value(target.serialize_value())
    if r.is_err() or not vt.same(t2.get_value().unwrap(), target.get_value().unwrap()):
        raise Violation("reference-target-value", f"{target.serialize_value()} answers {r}, holds {t2.get_value()}")
    # limits also survive readers of JSON that only know doubles, like browsers
    t2.reset_updated()
    r = t2.deserialize_value(json.dumps(json.loads(target.serialize_value(), parse_int=lambda x: int(Decimal(repr(float(x)))))))
    if r.is_err() or not vt.same(t2.get_value().unwrap(), target.get_value().unwrap()):
        raise Violation("reference-target-precision", f"{target.serialize_value()} becomes {t2.get_value()} where numbers are doubles ({r})")
    ctx.count("doubles")
    c2.set_type_map({"t": t2}).unwrap()
    ctx.sig("ref", cls.__name__, sp.key())
    v = sp.sample(rng)
    if v is not None:
        c.reset_updated()
        r = c.set_value(v)
        if r.is_err():
            raise Violation("reference-refused", f"{cls.__name__} -> {d!r} refuses {v!r}: {r}")
        s = c.serialize_value()
        c2.reset_updated()
        r = c2.deserialize_value(s)
        if r.is_err() or not vt.same(c2.get_value().unwrap(), c.get_value().unwrap()):
            raise Violation("reference-value", f"{cls.__name__} -> {d!r}: {v!r} as {s!r} answers {r}, holds {c2.get_value()}")
        ctx.count("values")
    probe(ctx, sp, c2, "reference")
    # transparent at run time
    rt, want = c.get_runtime_type(), sp.build()
    if type(rt) is not type(want):
        raise Violation("reference-runtime", f"runtime type {type(rt).__name__} for {sp.key()}")
    probe(ctx, sp, rt, "reference-runtime")


def hostile_value(ctx, rng):
    sp = vt.gen(rng)
    for _ in range(6):
        c = sp.build(is_static=True)
        before = c.get_value()
        s = rng.choice(HOSTILE)
        if rng.random() < 0.3:
            v = vt.gen(rng).sample(rng)
            try:
                s = json.dumps(v)
            except TypeError:
                pass
            if rng.random() < 0.4 and s:
                i = rng.randrange(len(s))
                s = s[:i] + rng.choice('"{}[],:0a') + s[i + rng.randint(0, 1):]
        ctx.count("hostile_values")
        try:
            r = c.deserialize_value(s)
        except Exception as e:
            raise Violation(f"deserialize-raises/{sp.kind}", f"{sp.key()}: deserialize_value({s!r}) raised {type(e).__name__}: {e}")
        ctx.sig("hv", sp.key(), s[:40], r.is_ok())
        g = c.get_value()
        if r.is_err():
            if g.is_ok() != before.is_ok() or (g.is_ok() and not vt.same(g.unwrap(), before.unwrap())):
                raise Violation(f"deserialize-partial/{sp.kind}", f"{sp.key()}: {s!r} answered {r} but left {g}")
        elif sp.accept(g.unwrap()) is False and not vt.same(g.unwrap(), before.unwrap()):
            raise Violation(f"deserialize-constraint/{sp.kind}", f"{sp.key()}: {s!r} accepted, holds {g}")


def hostile_type(ctx, rng):
    for _ in range(8):
        m = vt.gen(rng).build().serialize_type()
        for _ in range(rng.randint(1, 3)):
            f = rng.choice(list(m.get_fields_and_field_types()))
            v = getattr(m, f)
            if isinstance(v, bool):
                setattr(m, f, not v)
            elif f in ("min_value", "max_value"):
                setattr(m, f, rng.choice(["", "x", "nan", "1e400", "-5", "5", "0x10", "None"]))
            elif f == "type_identifier":
                setattr(m, f, rng.randint(0, 17))
            elif f in ("value_type_identifier", "iterable_max_length"):
                setattr(m, f, [rng.randint(0, 17) for _ in range(rng.randint(0, 3))])
            elif f == "iterable_strict_length":
                setattr(m, f, [rng.random() < 0.5 for _ in range(rng.randint(0, 3))])
            elif f == "serialized_value_options":
                setattr(m, f, rng.choice([[], ["x"], ["{}"], ['{"type": "int"}'], ['{"type": "nope"}'], ['{"type": "print"}'], ["null"], ['{"type": 3}']]))
            elif f == "ros_msg_type":
                setattr(m, f, rng.choice(["", "x", "a/b/c", "std_msgs/msg/Nope", "nopkg/msg/X", "os/path/join", "/", "example_interfaces/msg/String"]))
            elif f == "ros_interface_kind":
                setattr(m, f, rng.randint(0, 5))
            elif f == "string_max_length":
                setattr(m, f, rng.choice([0, 1, 2**64 - 1]))
        ctx.count("hostile_types")
        try:
            r = dt.get_iotype_for_msg(m)
        except Exception as e:
            raise Violation("type-raises", f"get_iotype_for_msg raised {type(e).__name__}: {e}", repr(m))
        ctx.sig("ht", m.type_identifier, r.is_ok(), type(r.unwrap()).__name__ if r.is_ok() else "")
        if r.is_ok():
            d = r.unwrap()
            if not (d.allow_dynamic or d.allow_static) or (d.is_static and not d.allow_static):
                raise Violation("type-flags", f"accepted impossible flags {flags_of(d)}", repr(m))
            # whatever was accepted can be published again
            try:
                d.serialize_type()
                d.serialize_value()
            except Exception as e:
                raise Violation("type-unpublishable", f"accepted, but serializing it raised {type(e).__name__}: {e}", repr(m))
