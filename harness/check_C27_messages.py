"""C27: the nodes that take messages apart, put them together and expose their constants lose nothing."""
import copy
import importlib

import bt
import catalog as cat
import rosnode
import vleaf
import vtypes as vt
from bt import BROKEN, FAIL, FakeROSNode, Node, SUCC
from common import Violation
from ros_bt_py.data_flow_manager import DataFlowManager
from ros_bt_py.tree_exec_manager import TreeExecManager
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import TreeStructure
from rosnode import Rig

PROPERTY = "C27"
LEVEL = "exploration"
RULE = "distinct by (what is exercised, message class, which inputs are static, preceding operation, outcome)"
TIERS = {"quick": 4500, "thorough": 150000}
FLOORS = {"classes": 800, "apart": 2500, "together": 2500, "chains": 500, "constants": 500, "switched": 300, "missing": 20, "static": 500, "tick": 8000}

PKGS = ("geometry_msgs std_msgs diagnostic_msgs rcl_interfaces lifecycle_msgs action_msgs builtin_interfaces unique_identifier_msgs "
        "ros_bt_py_interfaces example_interfaces rosgraph_msgs type_description_interfaces service_msgs").split()
MSGS = []
for _p in PKGS:
    _m = importlib.import_module(_p + ".msg")
    MSGS += [(f"{_p}/msg/{n}", getattr(_m, n)) for n in sorted(dir(_m)) if isinstance(getattr(_m, n), type)]


def constants(cls):
    """name -> value, from the class generated for the message definition."""
    for k, v in vars(type(cls)).items():
        if k.endswith("__constants"):
            return dict(v)
    return {k: getattr(cls, k) for k in vars(type(cls)) if k.isupper() and not k.startswith("_")}  # simulated messages


WITH = [(n, c) for n, c in MSGS if constants(c)]
UNIFORM = [(n, c) for n, c in WITH if len({type(v) for v in constants(c).values()}) == 1]


def case(ctx):
    r = ctx.rng.random()
    (apart if r < 0.3 else together if r < 0.62 else chain if r < 0.76 else enum if r < 0.9 else switch)(ctx)


def eq(a, b):
    """Equal as message field values (arrays and lists with equal elements are)."""
    return vt.same(plain(a), plain(b))


def plain(v):
    if hasattr(v, "tolist") and not isinstance(v, (str, bytes)):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "get_fields_and_field_types"):
        return {k: plain(getattr(v, k)) for k in v.get_fields_and_field_types()}
    return v


def history(ctx, rig, new, check):
    """Random lifecycle; ``new()`` feeds data, ``check(op)`` after a successful tick."""
    rng, bad = ctx.rng, rig.bad
    if rig.setup().is_err():
        bad("setup", "setup failed")
    op = "setup"
    for _ in range(rng.randint(1, 6)):
        before = rig.outputs()
        r = rng.random()
        if r < 0.12:
            rig.untick()
            op = "untick"
            if rig.node.state not in ("IDLE", "PAUSED"):
                bad("untick", f"state {rig.node.state} after untick")
            continue
        if r < 0.2:
            rig.reset()
            op = "reset"
            continue
        if r < 0.26:
            rig.shutdown()
            rig.setup()
            op = "shutdown"
            continue
        new()
        missing = [k for k in rig.dyn if k not in rig.cur]
        r = rig.tick()
        if missing:
            ctx.count("missing")
            if r.is_ok() or rig.node.state != BROKEN:
                bad("unset", f"answered {r} without a value on {missing}")
            rig.recover()
            op = "recover"
            continue
        if r.is_err() or r.unwrap() != SUCC:
            bad("tick", f"answered {r}, expected SUCCEEDED")
        check(op)
        ctx.sig(rig.label, rig.label2, op, tuple(k in rig.dyn for k in rig.ci), len(rig.upd), eq(before, rig.outputs()))
        op = "tick"


def apart(ctx):
    rng = ctx.rng
    name, cls = rng.choice(MSGS)
    static = rng.random() < 0.35
    first = rosnode.message(rng, cls)
    rig = Rig(ctx, cat.SHIPPED["MessageToFields"], types={"input_type": name}, static={"in": static}, values={"in": first})
    rig.label2 = name
    ctx.count("classes")
    ctx.count("static", static)
    fields = cls.get_fields_and_field_types()
    if set(rig.co) != set(fields):
        rig.bad("fields", f"outputs {sorted(rig.co)} for the fields {sorted(fields)} of {name}")
    if static and not (type(rig.cur["in"]) is cls and eq(rig.cur["in"], first)):
        rig.bad("static-value", f"value {rig.cur['in']!r} of a node saved with {first!r}")

    def new():
        if "in" in rig.dyn and ("in" not in rig.cur and rng.random() < 0.95 or rng.random() < 0.5):
            rig.set("in", rosnode.message(rng, cls))

    def check(op):
        ctx.count("apart")
        m = rig.cur["in"]
        for f in fields:
            got = rig.co[f].get_value().ok()
            if not eq(got, getattr(m, f)):
                rig.bad("field-lost", f"output {f} is {got!r} for {m!r} ({name}, after {op})")

    history(ctx, rig, new, check)


def with_fields(ctx, cls_node, types, statics):
    """Structure of a node with extra inputs, some of them static."""
    msg = cat.make(ctx.rng, cls_node, types=types)
    msg.node_id = str(bt.make_uuid(ctx.rng))
    r = Node.from_msg(msg, FakeROSNode())
    if r.is_err():
        raise Violation(f"not-built/{cls_node.__name__}", f"{types}: {r}", repr(msg)[:1500])
    node = r.unwrap()
    msg = node.to_structure_msg()
    for io in msg.inputs:
        if io.key in statics and io.key not in types:
            v = statics[io.key]
            io.type.is_static = v is not None
            io.serialized_value = ""
            if v is not None:
                c = node.node_config.inputs[io.key]
                io.serialized_value = serialized(c, v)
    return msg, node


def serialized(c, v):
    t = copy.deepcopy(c)
    t._value = None
    r = t.set_value(v)
    if r.is_err():
        raise Violation("field-rejected/FieldsToMessage", f"{type(c).__name__} doesn't accept {v!r}: {r}")
    return t.serialize_value()


def together(ctx):
    rng = ctx.rng
    name, cls = rng.choice(MSGS)
    fields = cls.get_fields_and_field_types()
    m0 = rosnode.message(rng, cls)
    p = rng.choice([0, 0, 0.3, 1])
    statics = {f: (getattr(m0, f) if rng.random() < p else None) for f in fields}
    msg, _ = with_fields(ctx, cat.SHIPPED["FieldsToMessage"], {"output_type": name}, statics)
    rig = Rig(ctx, cat.SHIPPED["FieldsToMessage"], msg=msg)
    rig.label2 = name
    ctx.count("classes")
    ctx.count("static", any(v is not None for v in statics.values()))
    if set(rig.ci) - {"output_type"} != set(fields):
        rig.bad("fields", f"inputs {sorted(rig.ci)} for the fields {sorted(fields)} of {name}")
    for f, v in statics.items():
        if v is not None and not eq(rig.cur[f], v):
            rig.bad("static-value", f"value {rig.cur[f]!r} of field {f} of a node saved with {v!r}")
    seen = []

    def new():
        for f in rig.dyn:
            if f not in rig.cur and rng.random() < 0.985 or rng.random() < 0.3:
                rig.set(f, rosnode.field(rng, fields[f]))

    def check(op):
        ctx.count("together")
        got = rig.co["out"].get_value().ok()
        if type(got) is not cls:
            rig.bad("message-type", f"out is {got!r}, expected a {name}")
        for f in fields:
            if not eq(getattr(got, f), rig.cur[f]):
                rig.bad("field-lost", f"field {f} of out is {getattr(got, f)!r} instead of {rig.cur[f]!r} ({name}, after {op})")
        for old, was in seen:
            if old is not got and not eq(plain(old), was):
                rig.bad("earlier-message-changed", f"a message handed out earlier changed from {was!r} to {old!r}")
        seen.append((got, plain(got)))

    history(ctx, rig, new, check)


def chain(ctx):
    """Source of messages -> MessageToFields -> FieldsToMessage in one tree."""
    rng = ctx.rng
    name, cls = rng.choice(MSGS)
    fields = cls.get_fields_and_field_types()
    m = rosnode.message(rng, cls)
    ctx.count("classes")
    ros = FakeROSNode()
    a = cat.make(rng, cat.SHIPPED["MessageToFields"], types={"input_type": name}, static={"in": True}, values={"in": m})
    a.node_id = str(bt.make_uuid(rng))
    b, _ = with_fields(ctx, cat.SHIPPED["FieldsToMessage"], {"output_type": name}, {f: None for f in fields})
    root = cat.make(rng, cat.SHIPPED["Sequence"])
    root.node_id = str(bt.make_uuid(rng))
    root.child_ids = [a.node_id, b.node_id]
    for i, x in enumerate((root, a, b)):
        x.name = f"n{i}"
    wirings = [cat.wiring(a.node_id, f, b.node_id, f) for f in fields]
    rng.shuffle(wirings)
    dfm = DataFlowManager()
    mgr = TreeExecManager(ros_node=ros, name="chain", data_flow_manager=dfm)
    r = mgr.load_tree(srv.LoadTree.Request(tree=TreeStructure(name="chain", tick_frequency_hz=10.0, nodes=[root, a, b], data_wirings=wirings)), srv.LoadTree.Response())
    if not r.success:
        raise Violation("chain-refused", f"fields of {name} can't be wired to the same fields: {r.error_message}")
    if dfm.initialize(mgr.nodes, mgr.wirings).is_err():
        raise Violation("chain-refused", f"wirings of {name} refused")
    by = {n.name: n for n in mgr.nodes.values()}
    top, last = by["n0"], by["n2"]
    if top.setup().is_err():
        raise Violation("chain-setup", f"setup of {name} failed")
    for _ in range(rng.randint(1, 3)):
        r = top.tick()
        ctx.count("chains")
        got = last.node_config.outputs["out"].get_value().ok()
        if r.is_err() or r.unwrap() != SUCC or type(got) is not cls or not eq(got, m):
            raise Violation("chain-lost", f"taken apart and put together again, {m!r} became {got!r} ({r})")
        op = rng.choice(["reset", "untick", ""])
        if op:
            getattr(top, op)()
    ctx.sig("chain", name)


def enum(ctx):
    rng = ctx.rng
    name, cls = rng.choice(WITH) if rng.random() < 0.9 else rng.choice(MSGS)
    rig = Rig(ctx, cat.SHIPPED["EnumFields"], types={"ros_message_type": name})
    rig.label2 = name
    want = constants(cls)
    ctx.count("classes")
    if not set(want) <= set(rig.co) or any(not k.endswith("__DEFAULT") for k in set(rig.co) - set(want)):
        rig.bad("fields", f"outputs {sorted(rig.co)} for the constants {sorted(want)} of {name}")

    def check(op):
        ctx.count("constants", len(want))
        for k in rig.co:
            v = rig.co[k].get_value().ok()
            w = want[k] if k in want else getattr(cls, k)
            if type(v) is not type(w) or v != w:
                rig.bad("constant", f"output {k} is {v!r}, the constant of {name} is {w!r}")

    history(ctx, rig, lambda: None, check)


def switch(ctx):
    """EnumSwitch over every installed message class whose constants have one type."""
    rng = ctx.rng
    name, cls = rng.choice(UNIFORM)
    extra = {k: getattr(cls, k) for k in dir(type(cls)) if k.endswith("__DEFAULT")}
    want = constants(cls)
    ctx.count("classes")
    if len({type(v) for v in list(want.values()) + list(extra.values())}) > 1:
        return
    msg, _ = with_fields(ctx, cat.SHIPPED["EnumSwitch"], {"ros_message_type": name}, {"case": None})
    byval = {}
    for k, v in want.items():
        byval.setdefault(v, []).append(k)
    vals = rng.sample(list(byval), min(len(byval), rng.randint(1, 5)))
    kids = {v: rng.choice(byval[v]) for v in vals}
    ros = FakeROSNode()
    msg.node_id = str(bt.make_uuid(rng))
    r = Node.from_msg(msg, ros)
    if r.is_err():
        raise Violation("not-built/EnumSwitch", f"{name}: {r}")
    node = r.unwrap()
    ticked = []
    for v, k in kids.items():
        vleaf.BEHAVIOUR[k] = vleaf.Behaviour(lambda i, k=k: ticked.append(k) or SUCC)
        leaf = vleaf.ScriptLeaf(name=rng.choice(["", "p."]) + k, ros_node=ros)
        bt.set_input(leaf, "label", k)
        node.add_child(leaf).unwrap()
    if node.setup().is_err():
        raise Violation("switch-setup", f"setup of an EnumSwitch over {name} failed")
    for _ in range(rng.randint(2, 6)):
        v = rng.choice(list(byval))
        r = node.node_config.inputs["case"].set_value(v)
        if r.is_err():
            raise Violation("switch-case", f"constant {v!r} of {name} isn't accepted as case: {r}")
        ticked.clear()
        r = node.tick()
        ctx.count("switched")
        exp, state = ([kids[v]], SUCC) if v in kids else ([], FAIL)
        if r.is_err() or r.unwrap() != state or ticked != exp:
            raise Violation("switch", f"case {v!r} of {name} with children {sorted(kids.values())} ticked {ticked} and answered {r}, expected {exp}, {state}")
        ctx.sig("switch", name, v, v in kids)
