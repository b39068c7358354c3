"""C08: only data that fits can be connected; whatever is connected fits at runtime."""
import random
import uuid

import bt
import catalog as cat
import editmodel as em
import vtypes as vt
from bt import FakeROSNode, Leaf, NodeConfig, Ok, dt
from bt import BTNodeState as S
from common import Violation
from ros_bt_py.exceptions import NodeConfigError
from ros_bt_py.node import Node, define_bt_node
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import TreeStructure

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("random pairs of data types (nested, with random constraints; variations of each other and unrelated ones): the "
        "verdict of the type system against the documented rule, reflexivity, transitivity, stability under message round "
        "trips; every value sampled from an accepted source type has to be accepted by the target, in the container, as node "
        "template and by ticking a wired pair of nodes; distinct by (kinds, verdict, route)")
TIERS = {"quick": 1600, "thorough": 80000}
FLOORS = {"pairs": 20000, "compatible": 2500, "values": 10000, "templates": 5000, "wired": 600, "wire_refused": 1000, "ticked": 1000,
          "generic_wired": 300}

FLAGS = [(True, True), (True, False), (False, True)]


def flags_of(rng, sp):
    if getattr(sp, "static_only", False):
        return {}
    d, s = rng.choice(FLAGS)
    f = {"allow_dynamic": d, "allow_static": s}
    if d and s:
        f["is_static"] = rng.random() < 0.5
    return f


def rule(a, fa, b, fb):
    """May b stand where a is expected?"""
    d, s = fa.get("allow_dynamic", True), fa.get("allow_static", True)
    if getattr(a, "static_only", False):
        d, s = False, True
    e, t = fb.get("allow_dynamic", True), fb.get("allow_static", True)
    if getattr(b, "static_only", False):
        e, t = False, True
    return (e or not d) and (t or not s) and a.narrower(b)


def roundtrip(c):
    return dt.get_iotype_for_msg(c.serialize_type()).unwrap()


def case(ctx):
    rng = ctx.rng
    ros = FakeROSNode()
    for _ in range(7):
        a = vt.gen(rng)
        b = vt.variation(a, rng) if rng.random() < 0.8 else vt.gen(rng)
        c = vt.variation(b, rng) if rng.random() < 0.8 else vt.gen(rng)
        if rng.random() < 0.25:
            b = a
        fa, fb, fc = flags_of(rng, a), flags_of(rng, b), flags_of(rng, c)
        if rng.random() < 0.6:
            fb = {} if getattr(b, "static_only", False) else fa
        ca, cb, cc = a.build(**fa), b.build(**fb), c.build(**fc)
        ctx.log("pair", a.key(), fa, b.key(), fb)

        def bad(key, msg):
            raise Violation(f"{key}/{a.kind}", f"{a.key()} {fa} <- {b.key()} {fb}: {msg}")

        for x, fx, y, fy, cx, cy in ((a, fa, b, fb, ca, cb), (b, fb, c, fc, cb, cc), (a, fa, c, fc, ca, cc), (b, fb, a, fa, cb, ca)):
            ctx.count("pairs")
            got, want = cx.is_compatible(cy), rule(x, fx, y, fy)
            if bool(got) != want:
                raise Violation(f"rule/{x.kind}", f"{y.key()} {fy} is {'' if got else 'not '}compatible with {x.key()} {fx}, the constraints say otherwise")
        if not ca.is_compatible(a.build(**fa)):
            bad("reflexive", "a type is not compatible with itself")
        ra, rb = roundtrip(ca), roundtrip(cb)
        ok = rule(a, fa, b, fb)
        ctx.sig(a.kind, b.kind, ok)
        for x, y in ((ra, cb), (ca, rb), (ra, rb)):
            if bool(x.is_compatible(y)) != ok:
                bad("roundtrip", f"verdict changes to {not ok} once a type was sent as message")
        vals = [v for v in (b.sample(rng) for _ in range(5)) if v is not None]
        if ok:
            ctx.count("compatible")
            t = a.build()
            for v in vals:
                ctx.count("values")
                src = b.build()
                src.reset_updated()
                if src.set_value(v).is_err():
                    bad("source", f"own value {v!r} refused")
                t.reset_updated()
                r = t.set_value(src.get_value().unwrap())
                if r.is_err():
                    bad("unsound", f"compatible, but value {v!r} is refused: {r}")
                x, y = t.get_value().unwrap(), src.get_value().unwrap()
                if not (vt.same(x, y) or x == y):
                    bad("changed", f"value {v!r} arrives as {t.get_value()}")
        template(ctx, rng, ros, a, fa, b, fb, ok, bad)
    wired(ctx, rng, ros)
    generic(ctx, rng, ros)


class _L(Leaf):
    def _do_setup(self):
        return Ok(S.IDLE)

    _do_untick = _do_reset = _do_setup

    def _do_shutdown(self):
        return Ok(S.SHUTDOWN)


def node_class(name, tick, inputs, outputs):
    for d in Node.node_classes.values():
        d.pop(name, None)
    cls = type(name, (_L,), {"__module__": "vcompat", "__doc__": "Typed node.", "_do_tick": tick,
                             **{m: _L.__dict__[m] for m in ("_do_setup", "_do_untick", "_do_reset", "_do_shutdown")}})
    return define_bt_node(NodeConfig(inputs=inputs, outputs=outputs, max_children=0))(cls)


def template(ctx, rng, ros, a, fa, b, fb, ok, bad):
    """Inputs given to a node replace those of its class exactly if they fit."""
    cls = node_class("VTemplate", lambda self: Ok(S.SUCCEEDED), {"x": a.build(**fa)}, {})
    ctx.count("templates")
    new = b.build(**fb)
    try:
        n = cls(new_inputs={"x": new}, ros_node=ros, name="t")
    except NodeConfigError:
        n = None
    if (n is not None) != ok:
        bad("template", "input " + ("accepted although it doesn't fit" if n is not None else "refused although it fits"))
    if n is not None and (n.node_config.inputs["x"] is not new or set(n.node_config.inputs) != {"x"}):
        bad("template", "the input is not the one that was given")
    if cls._node_config.inputs["x"].serialize_type() != a.build(**fa).serialize_type():
        bad("template", "the class itself changed")


def manager(ros, msgs):
    m, out = em.new_manager(ros)
    ids = [x.node_id for x in msgs]
    root = cat.make(random.Random(1), cat.SHIPPED["Sequence"], name="root")
    root.node_id = "00000000-0000-4000-8000-000000000001"
    root.child_ids = ids
    r = m.load_tree(srv.LoadTree.Request(tree=TreeStructure(name="t", tick_frequency_hz=10.0, nodes=[root, *msgs])), srv.LoadTree.Response())
    if not r.success:
        raise Violation("load", f"valid tree refused: {r.error_message}", repr(msgs)[:2000])
    return m


def wire(m, w):
    return m.wire_data(srv.WireNodeData.Request(wirings=[cat.wiring(*w)]), srv.WireNodeData.Response())


def wired(ctx, rng, ros):
    """Two nodes with typed data, wired and ticked."""
    a = vt.gen(rng, static_types=False)
    b = vt.variation(a, rng) if rng.random() < 0.8 else vt.gen(rng, static_types=False)
    if rng.random() < 0.3:
        b = a
    feed, seen = [], []

    def src_tick(self):
        r = self.outputs.set_value("out", feed.pop(0))
        return Ok(S.SUCCEEDED) if r.is_ok() else r

    def dst_tick(self):
        seen.append(self.inputs.get_value("in").unwrap())
        return Ok(S.SUCCEEDED)

    vs = node_class("VSource", src_tick, {}, {"out": b.build(is_static=False)})
    both = rng.random() < 0.5
    vd = node_class("VTarget", dst_tick, {"in": a.build(is_static=False) if both else a.build(allow_static=False)}, {})
    static = both and rng.random() < 0.2
    msgs = [cat.make(rng, vs, name="source"), None]
    if static:
        v = a.sample(rng)
        if v is None:
            return
    x = vd(ros_node=ros, name="target", new_inputs={"in": a.build(is_static=True, value=v)} if static else {})
    y = vs(ros_node=ros, name="source")
    msgs = [y.to_structure_msg(), x.to_structure_msg()]
    m = manager(ros, msgs)
    s, t = msgs[0].node_id, msgs[1].node_id
    want = a.narrower(b) and not static
    r = wire(m, (s, "out", t, "in"))
    if r.success != want:
        raise Violation(f"wire/{a.kind}", f"wiring {b.key()} to {'static ' if static else ''}{a.key()} was {'accepted' if r.success else 'refused: ' + r.error_message}")
    if bool(len(m.wirings)) != want:
        raise Violation("wire/record", f"request success={r.success}, wirings: {m.wirings}")
    ctx.sig("wire", a.kind, b.kind, want, static)
    if not want:
        ctx.count("wire_refused")
        return
    ctx.count("wired")
    vals = [v for v in (b.sample(rng) for _ in range(4)) if v is not None]
    if not vals:
        return
    m.data_flow_manager.initialize(m.nodes, m.wirings)
    root = m.find_root().unwrap()
    if root.setup().is_err():
        raise Violation("setup", "setup of two leaves failed")
    for v in vals:
        feed.append(v)
        r = root.tick()
        ctx.count("ticked")
        if r.is_err():
            raise Violation(f"tick/{a.kind}", f"{v!r} of accepted wiring {b.key()} -> {a.key()} breaks the tree: {r.unwrap_err()}")
        if not (vt.same(seen[-1], b.norm(v)) or seen[-1] == b.norm(v)):
            raise Violation(f"delivered/{a.kind}", f"{v!r} of {b.key()} arrived as {seen[-1]!r}")


def generic(ctx, rng, ros):
    """Data types chosen in the tree: references are as transparent as plain types."""
    g = vt.Generic()
    d1 = g.describe(rng)
    d2 = g.describe(rng) if rng.random() < 0.3 else d1
    if d2 is d1 and rng.random() < 0.6:
        d2 = dict(d1)
        for k in d2:
            if k in ("min_value", "max_value", "max_length"):
                d2[k] = rng.choice([d2[k], d2[k] + 1 if d2[k] < 2**62 else d2[k] / 2 if isinstance(d2[k], float) else 3])
        if "min_value" in d2 and d2["min_value"] > d2["max_value"]:
            d2 = d1
    s1, s2 = vt.spec_of(d1), vt.spec_of(d2)
    v = s1.sample(rng)
    if v is None:
        return
    msgs = [cat.make(rng, cat.SHIPPED["Constant"], name="c", types={"constant_type": d1}, values={"constant_value": v}),
            cat.make(rng, cat.SHIPPED["PassthroughNode"], name="p", types={"passthrough_type": d2}, static=False),
            cat.make(rng, cat.SHIPPED["PassthroughNode"], name="q", types={"passthrough_type": d2}, static=False)]
    for x in msgs:
        x.node_id = uuid_to_ros(bt.make_uuid(rng))
    m = manager(ros, msgs)
    c, p, q = (x.node_id for x in msgs)
    want = s2.narrower(s1)
    r = wire(m, (c, "constant", p, "in"))
    if r.success != want:
        raise Violation(f"generic/{s2.kind}", f"wiring a constant {d1} to {d2} was {'accepted' if r.success else 'refused: ' + r.error_message}")
    if not want:
        ctx.count("wire_refused")
        return
    ctx.count("generic_wired")
    if not wire(m, (p, "out", q, "in")).success:
        raise Violation("generic/equal", f"wiring {d2} to itself refused")
    ctx.sig("generic", s1.kind, s2.kind)
    m.data_flow_manager.initialize(m.nodes, m.wirings)
    root = m.find_root().unwrap()
    root.setup()
    r = root.tick()
    if r.is_err() or r.unwrap() != S.SUCCEEDED:
        raise Violation(f"generic-tick/{s2.kind}", f"constant {v!r} of {d1} -> {d2}: {r}")
    got = m.nodes[uuid.UUID(q)].node_config.outputs["out"].get_value()
    if got.is_err() or not vt.same(got.unwrap(), s1.norm(v)):
        raise Violation(f"generic-value/{s2.kind}", f"constant {v!r} arrives as {got}")
