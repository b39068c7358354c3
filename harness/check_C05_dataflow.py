"""C05: wired data arrives exactly when it is produced, unchanged, and nowhere else."""
import copy
import uuid

import bt
import catalog as cat
import dleaf
import vtypes as vt
from bt import BROKEN, FakeROSNode, SHUT, UNINIT, dt
from common import Violation
from ros_bt_py.data_flow_manager import DataFlowManager
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py.tree_exec_manager import TreeExecManager
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import TreeStructure

REQ = srv.ControlTreeExecution.Request

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("random trees of scripted nodes with data below flow control nodes, random wirings (forward, backward, to itself, to "
        "parents and children, one source to many targets, many sources to one target) and tree inputs / outputs; random "
        "histories of setup, tick, untick, reset and shutdown, called directly or by commands with changes of the wirings while the "
        "tree is shut down; every tick of every node is one event of a reference model "
        "that predicts value and update flag of every input and output; distinct by (operation, class, what was delivered)")
TIERS = {"quick": 1500, "thorough": 40000}
FLOORS = {"node_ticks": 15000, "delivered": 8000, "unset": 500, "incoming": 250, "outgoing": 400, "wiring_data": 9000,
          "not_updated": 500, "commands": 4000, "edits": 1000}

FLOW = ["Sequence", "Fallback", "Parallel", "MemorySequence", "Inverter"]


def eq(a, b):
    return type(a) is type(b) and a == b


class DM:
    """Model of one container."""

    def __init__(self, value=None, updated=False, static=False):
        self.v, self.u, self.static = value, updated, static

    def set(self, v):
        if self.v is None or not eq(self.v, v):
            self.v, self.u = v, True

    def reset(self):
        if not self.static:
            self.v = None


def sample(rng, c):
    if isinstance(c, dt.IntType):
        return rng.randint(-2, 4)
    if isinstance(c, dt.FloatType):
        return rng.randint(-4, 4) / 4
    if isinstance(c, dt.StringType):
        return rng.choice(["", "a", "b", "ü x"])
    if isinstance(c, dt.ListType):
        return [rng.randint(-2, 4) for _ in range(rng.randint(0, 3))]
    return {k: rng.choice("xyz") for k in rng.sample(["a", "b", "c"], rng.randint(0, 3))}


def case(ctx):
    rng = ctx.rng
    ros = FakeROSNode()
    # ---- the tree
    msgs, kids = [], {}

    def add(cls, parent):
        m = cat.make(rng, cls, name=f"n{len(msgs)}", static={k: rng.random() < 0.12 for k in cls._node_config.inputs})
        m.node_id = uuid_to_ros(bt.make_uuid(rng))
        msgs.append(m)
        kids[m.node_id] = []
        if parent is not None:
            kids[parent.node_id].append(m.node_id)
        return m

    root = add(rng.choice([dleaf.DRoot, dleaf.DRoot, dleaf.DFlow, cat.SHIPPED["Sequence"], cat.SHIPPED["Fallback"]]), None)
    inner = [root]
    size = rng.randint(2, 9)
    while len(msgs) < size:
        p = rng.choice(inner)
        if p.max_children == 1 and kids[p.node_id]:
            continue
        cls = rng.choice([cat.SHIPPED[rng.choice(FLOW)], dleaf.DFlow, dleaf.DRoot] + dleaf.CLASSES * 2)
        m = add(cls, p)
        if cls._node_config.max_children != 0:
            inner.append(m)
    for m in msgs:
        m.child_ids = kids[m.node_id]
    # ---- wirings between equal types; preferably from nodes that tick earlier
    order = []
    above = {}

    def dfs(i, up):
        order.append(i)
        above[i] = up
        for k in kids[i]:
            dfs(k, up | {i})

    dfs(root.node_id, frozenset())
    by_id = {m.node_id: m for m in msgs}
    cls_of = {m.node_id: cat.SHIPPED.get(m.node_class) or getattr(dleaf, m.node_class) for m in msgs}
    wirings, dyn = [], set()
    forward = rng.random() < 0.75
    for i in order:
        for io in by_id[i].inputs:
            if by_id[i].module != "dleaf":
                continue
            k, c = io.key, cls_of[i]._node_config.inputs[io.key]
            src = [(j, o) for j in order for o, oc in cls_of[j]._node_config.outputs.items() if type(oc) is type(c)]
            early = [s for s in src if order.index(s[0]) < order.index(i) and s[0] not in above[i]]
            if not io.type.is_static and (early if forward else src):
                dyn.add((i, k))
                for n in range(rng.choice([1, 1, 1, 2, 3])):
                    w = (*rng.choice(early if forward and n == 0 else src), i, k)
                    if w not in wirings:
                        wirings.append(w)
            elif rng.random() < 0.95:
                t = type(c)(**({"element_type": c._element_type} if hasattr(c, "_element_type") else {}))
                t.set_value(sample(rng, c))
                io.type.is_static, io.serialized_value = True, t.serialize_value()
            else:
                dyn.add((i, k))
                io.type.is_static, io.serialized_value = False, ""
        # inputs that are not mentioned keep the default of the class
        if by_id[i].module == "dleaf" and rng.random() < 0.2:
            keep = [io for io in by_id[i].inputs if not io.type.is_static or rng.random() < 0.4]
            ctx.count("omitted", len(by_id[i].inputs) - len(keep))
            by_id[i].inputs = keep
    rng.shuffle(wirings)
    # ---- data from and to the outside
    inc, outg = {}, {}
    for i in order:
        for k, c in cls_of[i]._node_config.inputs.items():
            if (i, k) in dyn and rng.random() < 0.25:
                inc[f"{uuid.UUID(i)}.{k}"] = type(c)(**({"element_type": c._element_type} if hasattr(c, "_element_type") else {}), is_static=False)
        for k, c in cls_of[i]._node_config.outputs.items():
            if rng.random() < 0.25:
                outg[f"{uuid.UUID(i)}.{k}"] = type(c)(**({"element_type": c._element_type} if hasattr(c, "_element_type") else {}), is_static=False)
    inc_m = {k: DM(c.get_value().unwrap_or(None)) for k, c in inc.items()}
    outg_m = {k: DM(c.get_value().unwrap_or(None)) for k, c in outg.items()}
    for k in ["subtree_path", f"{bt.make_uuid(rng)}.i", f"{uuid.UUID(root.node_id)}.nothing", "x.y.z", ""]:
        if rng.random() < 0.3:
            (inc if rng.random() < 0.5 else outg)[k] = c = dt.IntType(is_static=False)
            if rng.random() < 0.5:
                c.set_value(7)
    # passing extra data is safe, wherever it comes
    for x in (inc, outg):
        items = list(x.items())
        rng.shuffle(items)
        x.clear()
        x.update(items)
    foreign = {k: (c, c.get_value().unwrap_or(None), c.is_updated()) for k, c in {**inc, **outg}.items() if k not in inc_m and k not in outg_m}
    dfm = DataFlowManager(incoming_data=inc, outgoing_data=outg)
    # either the nodes are used directly, or like clients do: commands, and edits in between
    managed = rng.random() < 0.4
    m = (TreeEditManager if managed else TreeExecManager)(ros_node=ros, name="flow", data_flow_manager=dfm)
    r = m.load_tree(srv.LoadTree.Request(tree=TreeStructure(name="flow", tick_frequency_hz=10.0, nodes=msgs,
                                                            data_wirings=[cat.wiring(*w) for w in wirings])), srv.LoadTree.Response())
    if not r.success:
        raise Violation("load", f"valid tree refused: {r.error_message}")
    nodes = m.nodes
    if not managed and dfm.initialize(nodes, m.wirings).is_err():
        raise Violation("initialize", "valid wirings refused")
    if not managed and rng.random() < 0.3:  # once more, as on every restart
        dfm.initialize(nodes, m.wirings)
    ctx.log("wirings", [(by_id[s].name, sk, by_id[t].name, tk) for s, sk, t, tk in wirings])
    # ---- model
    ins = {i: {k: DM(c.get_value().unwrap_or(None), c.is_updated(), c.is_static) for k, c in n.node_config.inputs.items()} for i, n in nodes.items()}
    outs = {i: {k: DM(c.get_value().unwrap_or(None), c.is_updated()) for k, c in n.node_config.outputs.items()} for i, n in nodes.items()}
    flow = {}

    def rewired():
        flow.clear()
        for s, sk, t, tk in wirings:
            flow.setdefault(uuid.UUID(s), []).append((sk, uuid.UUID(t), tk))

    rewired()

    def compare(where):
        for i, n in nodes.items():
            for what, mod, real in (("input", ins[i], n.node_config.inputs), ("output", outs[i], n.node_config.outputs)):
                for k, d in mod.items():
                    c = real[k]
                    v = c.get_value().unwrap_or(None)
                    if (v is None) != (d.v is None) or (v is not None and not eq(v, d.v)):
                        raise Violation(f"{what}-value", f"{where}: {what} {k} of {n.name} ({type(n).__name__}) is {v!r}, expected {d.v!r}")
                    if c.is_updated() != d.u:
                        raise Violation(f"{what}-flag", f"{where}: {what} {k} of {n.name} ({type(n).__name__}) is flagged updated={c.is_updated()}, expected {d.u}")
        for what, mod, real in (("outgoing", outg_m, outg), ("incoming", inc_m, inc)):
            for k, d in mod.items():
                v = real[k].get_value().unwrap_or(None)
                if (v is None) != (d.v is None) or (v is not None and not eq(v, d.v)) or real[k].is_updated() != d.u:
                    raise Violation(what, f"{where}: {what} data {k} is {v!r} (updated={real[k].is_updated()}), expected {d.v!r} ({d.u})")
        for k, (c, v, u) in foreign.items():
            if c.get_value().unwrap_or(None) != v or c.is_updated() != u:
                raise Violation("foreign", f"{where}: {k!r} belongs to no data of this tree, but was set to {c}")

    live = {}

    def on_seen(n, seen):
        ctx.count("node_ticks")
        live[n.node_id] = True
        for k, (v, u) in seen.items():
            d = ins[n.node_id][k]
            if not eq(v, d.v) or u != d.u:
                raise Violation("seen", f"{n.name} reads {v!r} (updated={u}) from {k} in its tick, expected {d.v!r} ({d.u})")
            if not d.static and not u:
                ctx.count("not_updated")

    def on_set(n, k, v):
        outs[n.node_id][k].set(copy.deepcopy(v))

    dleaf.SEEN[:], dleaf.SET[:] = [on_seen], [on_set]
    dleaf.SCRIPT.clear()

    def script(n):
        p_set = rng.choice([0.4, 0.8, 1.0])

        def f():
            res = rng.choices(["SUCC", "FAIL", "RUN", "ERR"], [8, 1, 2, 0.25])[0]
            sets = [(k, sample(rng, c)) for k, c in n.node_config.outputs.items() if rng.random() < (p_set if outs[n.node_id][k].v is not None else 0.93)]
            if sets and rng.random() < 0.15:
                k = rng.choice(sets)[0]
                sets.append((k, sample(rng, n.node_config.outputs[k])))
            return res, sets, rng.random() < 0.3

        return f

    for n in nodes.values():
        dleaf.SCRIPT[n.name] = script(n)

    def wrap(n):
        """Monitor at the node's public interface."""
        i = n.node_id
        orig = {op: getattr(n, op) for op in ("setup", "tick", "untick", "reset", "shutdown")}

        def tick():
            compare(f"before the tick of {n.name}")
            st = str(n.state)
            if st in (UNINIT, SHUT, BROKEN):
                r = orig["tick"]()
                if r.is_ok():
                    raise Violation("tick", f"tick of {n.name} in state {st} gave {r}")
                return r
            unset = [k for k, d in ins[i].items() if d.v is None]
            live.pop(i, None)
            if unset:
                ctx.count("unset")
                r = orig["tick"]()
                if r.is_ok() or str(n.state) != BROKEN or i in live:
                    raise Violation("unset", f"{n.name} was ticked although its input {unset} is unset: {r}, {n.state}")
                return r
            for d in outs[i].values():
                d.u = False
            r = orig["tick"]()
            if r.is_err():
                if str(n.state) != BROKEN:
                    raise Violation("err-state", f"{n.name} is {n.state} after {r}")
                if "scripted" not in str(r.unwrap_err()) and "unset" not in str(r.unwrap_err()):
                    raise Violation("push", f"tick of {n.name} failed: {r.unwrap_err()}")
                ctx.sig("err", type(n).__name__)
                return r
            for d in ins[i].values():
                d.u = False
            got = []
            for sk, t, tk in flow.get(i, ()):
                d = outs[i][sk]
                if d.u and d.v is not None:
                    ins[t][tk].set(d.v)
                    got.append((sk, type(nodes[t]).__name__, "self" if t == i else "other"))
                    ctx.count("delivered")
            for k, d in outs[i].items():
                o = outg_m.get(f"{i}.{k}")
                if o is not None and d.u and d.v is not None:
                    o.set(d.v)
                    ctx.count("outgoing")
            ctx.sig("tick", type(n).__name__, str(r.unwrap()), tuple(sorted(set(got))))
            compare(f"after the tick of {n.name}")
            return r

        def setup():
            if str(n.state) in (UNINIT, SHUT):
                for d in ins[i].values():
                    d.reset()
                    d.u = True
                for d in outs[i].values():
                    d.reset()
                    d.u = False
            return orig["setup"]()

        def untick():
            r = orig["untick"]()
            if r.is_ok():
                for d in outs[i].values():
                    d.u = False
            return r

        def reset():
            if str(n.state) not in (UNINIT, SHUT, BROKEN):
                for d in ins[i].values():
                    d.u = True
                for d in outs[i].values():
                    d.reset()
                    d.u = False
            return orig["reset"]()

        def kept(f):
            # the tick thread reports everything as an error of the tree
            def g():
                try:
                    return f()
                except Violation as e:
                    seen.append(e)
                    raise
            return g

        n.setup, n.tick, n.untick, n.reset = kept(setup), kept(tick), untick, reset

    seen = []
    for n in nodes.values():
        wrap(n)
    if managed:
        push = dfm.push_incoming_data

        def pushed():
            r = push()
            push_model()
            return r

        dfm.push_incoming_data = pushed
    top = nodes[uuid.UUID(root.node_id)]

    def push_model():
        for k, d in inc_m.items():
            if d.u and d.v is not None:
                i, key = k.split(".")
                ins[uuid.UUID(i)][key].set(d.v)
                ctx.count("incoming")

    def command(op):
        cmd = {"tick": REQ.TICK_ONCE, "untick": REQ.STOP, "reset": REQ.RESET, "shutdown": REQ.SHUTDOWN}[op]
        a = m.control_execution(REQ(command=cmd), srv.ControlTreeExecution.Response())
        if seen:
            raise seen[0]
        if not a.success and op != "untick" and str(top.state) != BROKEN:
            raise Violation("command", f"{op} failed: {a.error_message} (root {top.state})")
        ctx.count("commands")

    def edit():
        """Change the wirings of a tree that is shut down."""
        w, how = None, rng.random()
        if how < 0.5 and wirings:
            w = rng.choice(wirings)
            a = m.unwire_data(srv.WireNodeData.Request(wirings=[cat.wiring(*w)]), srv.WireNodeData.Response())
            wirings.remove(w)
        else:
            i, k = rng.choice(sorted(dyn)) if dyn else (None, None)
            src = [] if i is None else [(j, o) for j in order for o, oc in cls_of[j]._node_config.outputs.items()
                                        if type(oc) is type(cls_of[i]._node_config.inputs[k])]
            new = [(*s, i, k) for s in src if (*s, i, k) not in wirings]
            if not new:
                return
            w = rng.choice(new)
            a = m.wire_data(srv.WireNodeData.Request(wirings=[cat.wiring(*w)]), srv.WireNodeData.Response())
            wirings.append(w)
        ctx.log("edit", w)
        ctx.count("edits")
        if not a.success:
            raise Violation("edit", f"wiring {w} can't be changed: {a.error_message}")
        rewired()

    compare("after loading")
    for step in range(14):
        if str(top.state) in (UNINIT, SHUT):
            op = "setup"
        elif str(top.state) == BROKEN:
            op = "shutdown"
        else:
            op = rng.choices(["tick", "untick", "reset", "shutdown", "incoming"], [8, 1, 1, 1.5 if managed else 0.4, 1.2 if inc_m else 0])[0]
        ctx.log(op)
        if managed and op == "setup":
            for _ in range(rng.choice([0, 1, 3]) if step else 0):
                edit()
            op = "tick"
        if managed and op != "incoming":
            command(op)
        elif op == "incoming":
            for k in inc_m:
                if rng.random() < 0.6:
                    v = sample(rng, inc[k])
                    inc[k].set_value(v)
                    inc_m[k].set(v)
            r = dfm.push_incoming_data()
            if r.is_err():
                raise Violation("incoming", f"pushing tree inputs failed: {r}")
            if not managed:
                push_model()
            if rng.random() < 0.6:
                for k in inc_m:
                    inc[k].reset_updated()
                    inc_m[k].u = False
        else:
            getattr(top, op)()
        compare(f"after {op}")
        # what is shown to the user
        if step % 4 == 3 and str(top.state) not in (UNINIT, SHUT):
            wd = dfm.get_wiring_data()
            if len(wd) != len(wirings):
                raise Violation("wiring-data", f"{len(wd)} entries for {len(wirings)} wirings")
            left = list(wirings)
            for w in wd:
                ctx.count("wiring_data")
                key = (w.wiring.source.node_id, w.wiring.source.data_key, w.wiring.target.node_id, w.wiring.target.data_key)
                if key not in left:
                    raise Violation("wiring-data", f"entry for {key}, which is not wired or already listed")
                left.remove(key)
                a = nodes[uuid.UUID(key[0])].node_config.outputs[key[1]]
                b = nodes[uuid.UUID(key[2])].node_config.inputs[key[3]]
                if w.serialized_data != a.serialize_value() or w.source_type.type_identifier != a.type_identifier or w.target_type.type_identifier != b.type_identifier:
                    raise Violation("wiring-data", f"shows {w}, the source holds {a.serialize_value()}")
                va, vb = a.get_value().unwrap_or(None), b.get_value().unwrap_or(None)
                cur = (va is None and vb is None) or (va is not None and vb is not None and eq(va, vb))
                if w.is_current != cur and not isinstance(va, dict):  # dicts may differ in order only
                    raise Violation("wiring-data", f"is_current={w.is_current} for source {va!r} and target {vb!r}")
    ctx.sample({"nodes": [mm.node_class for mm in msgs], "wirings": len(wirings)})
