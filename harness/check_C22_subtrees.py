"""C22: a subtree behaves like its nodes in place of it, and what is shown of it is what it is."""
import copy
import os
import shutil
import tempfile
import uuid

import bt
import catalog as cat
import eleaf
from bt import BROKEN, SHUT, UNINIT, FakeROSNode
from common import Violation
from ros_bt_py.package_manager import PackageManager
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py.tree_exec_manager import TreeExecManager
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import TreeStructure

PROPERTY = "C22"
LEVEL = "exploration"
RULE = "distinct by the sequence of operations with their results, calls of nodes and values read"
TIERS = {"quick": 700, "thorough": 25000}
FLOORS = {"steps": 5500, "calls": 70000, "subtrees": 1200, "nested": 160, "twice": 600, "subtree tick": 3600, "subtree untick": 3200, "subtree reset": 3000, "unset": 100, "public_outputs": 1800, "utilities": 150000, "structures": 13000, "states": 12000, "data": 700, "hidden": 900}

FLOW = ["Sequence", "Fallback", "Parallel", "MemorySequence", "MemoryFallback", "Inverter", "Succeeder", "Repeat", "Retry", "UntilSuccess"]
FLOW = [f for f in FLOW if f in cat.SHIPPED]
TYPES = {"i": cat.INT, "s": cat.STR, "l": cat.LIST(cat.INT)}
OPS = ("setup", "tick", "untick", "reset", "shutdown")


class N:
    def __init__(self, cls, name, nid, kids=(), spec=None, io=None):
        self.cls, self.name, self.id, self.kids, self.spec, self.io = cls, name, nid, list(kids), spec, io
        self.msg = None


class Spec:
    """The nodes of one file (or of the whole tree); nodes[0] is the root."""

    def __init__(self, name):
        self.name, self.nodes, self.wirings = name, [], []

    def order(self):
        out = []

        def dfs(i, up):
            out.append((i, up))
            for k in self.nodes[i].kids:
                dfs(k, up | {i})

        if self.nodes:
            dfs(0, frozenset())
        return out

    def depth(self):
        return 1 + max([n.spec.depth() for n in self.nodes if n.spec], default=0)

    def size(self):
        return sum(n.spec.size() if n.spec else 1 for n in self.nodes)


def kind(c):
    return {"IntType": "i", "StringType": "s", "ListType": "l"}.get(type(c).__name__)


def ports(n):
    """Data inputs and outputs of a node as (key, kind)."""
    if n.spec is not None:
        return ([(f"{x.id}.in", x.io) for x in n.spec.nodes if x.cls.__name__ == "IOInput"],
                [(f"{x.id}.out", x.io) for x in n.spec.nodes if x.cls.__name__ == "IOOutput"])
    if n.io is not None:
        return [("in", n.io)], [("out", n.io)]
    if n.cls.__module__ != "eleaf":
        return [], []
    return ([(k, kind(c)) for k, c in n.cls._node_config.inputs.items()], [(k, kind(c)) for k, c in n.cls._node_config.outputs.items()])


def gen(rng, name, files, path_of, inner):
    sp = Spec(name)
    ids = bt.make_uuid

    def add(cls, parent, spec=None, io=None):
        n = N(cls, f"n{len(sp.nodes)}", ids(rng), spec=spec, io=io)
        sp.nodes.append(n)
        if parent is not None:
            sp.nodes[parent].kids.append(len(sp.nodes) - 1)
        return len(sp.nodes) - 1

    S = cat.SHIPPED
    if inner and rng.random() < 0.08:  # one node is a tree as well
        if files and rng.random() < 0.5:
            add(S["Subtree"], None, spec=rng.choice(files))
        else:
            add(rng.choice([eleaf.ESrc, eleaf.EIdle]), None)
    else:
        flows = [0]
        add(rng.choice([eleaf.EFlow, eleaf.EFlow, S["Sequence"], S["Sequence"], S["MemorySequence"], S["Parallel"], S["Fallback"]]), None)
        if inner:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                add(S["IOInput"], 0, io=rng.choice("iisl"))
        for _ in range(rng.choice([0, 1, 1]) if inner else rng.choice([1, 1, 2])):
            add(eleaf.ESrc, 0)
        left = rng.randint(0 if inner else 1, 6)
        todo = ["sub"] * (0 if inner or not files else rng.choice([1, 1, 2, 2, 3])) + ["x"] * left
        rng.shuffle(todo)
        for what in todo:
            free = [i for i in flows if not (sp.nodes[i].cls._node_config.max_children == 1 and sp.nodes[i].kids)]
            p = rng.choice(free)
            r = rng.random()
            if what == "sub" or (files and r < 0.2):
                add(S["Subtree"], p, spec=rng.choice(files))
            elif r < 0.42:
                flows.append(add(rng.choice([eleaf.EFlow] + [S[f] for f in FLOW]), p))
            else:
                add(rng.choice(eleaf.LEAVES), p)
        if inner:
            for _ in range(rng.choice([0, 1, 1, 2])):
                add(S["IOOutput"], rng.choice([0, 0] + flows) if sp.nodes[0].cls._node_config.max_children != 1 else 0, io=rng.choice("iisl"))
            for i in flows:
                if sp.nodes[i].cls._node_config.max_children == 1 and len(sp.nodes[i].kids) > 1:
                    sp.nodes[0].kids += sp.nodes[i].kids[1:]
                    del sp.nodes[i].kids[1:]
        for i in flows:  # flow control needs children
            if not sp.nodes[i].kids:
                add(rng.choice(eleaf.LEAVES), i)
    order = sp.order()
    pos = {i: k for k, (i, _) in enumerate(order)}
    for i, up in order:
        n = sp.nodes[i]
        if n.cls.__name__ == "IOInput" and inner:
            continue
        for key, t in ports(n)[0]:
            if n.spec is None and n.io is None and rng.random() < 0.25:
                continue  # static
            src = [(j, o) for j, _ in order if j != i for o, ot in ports(sp.nodes[j])[1] if ot == t]
            early = [s for s in src if pos[s[0]] < pos[i] and s[0] not in up]
            sure = [s for s in early if sp.nodes[s[0]].cls.__name__ in ("ESrc", "IOInput") and s[0] in sp.nodes[0].kids]
            for c in range(rng.choice([1, 1, 1, 2])):
                pool = sure if sure and rng.random() < 0.5 else early if early and rng.random() < 0.9 else src
                if pool:
                    w = (*rng.choice(pool), i, key)
                    # a second writer sees whether the public output was flagged as updated or only kept its value
                    if c and any(sp.nodes[x[0]].spec for x in [w, *[y for y in sp.wirings if y[2:] == w[2:]]]):
                        continue
                    if w not in sp.wirings:
                        sp.wirings.append(w)
    wired = {(t, k) for _, _, t, k in sp.wirings}
    rng.shuffle(sp.wirings)
    for i, n in enumerate(sp.nodes):
        vals, static, types = {}, {}, {}
        if n.spec is not None:
            vals["subtree_path"] = path_of(n.spec)
        elif n.io is not None:
            types["io_type"], static["in"] = TYPES[n.io], False
        elif n.cls.__module__ == "eleaf":
            for key, t in ports(n)[0]:
                static[key] = (i, key) not in wired
                vals[key] = {"i": rng.randint(0, 9), "s": rng.choice(["", "q", "xyz"]), "l": [1] * rng.randint(0, 3)}[t]
        else:
            static = True
            vals["needed_successes"] = rng.randint(1, max(1, len(n.kids)))
            vals["tolerate_failures"] = rng.randint(0, max(0, len(n.kids) - vals["needed_successes"]))
            vals["num_repeats"] = vals["num_retries"] = rng.randint(1, 3)
        n.msg = cat.make(rng, n.cls, name=n.name, values=vals, static=static, types=types or None)
    return sp


def file_msg(sp):
    out = []
    for n in sp.nodes:
        m = copy.deepcopy(n.msg)
        m.node_id = uuid_to_ros(n.id)
        m.child_ids = [uuid_to_ros(sp.nodes[k].id) for k in n.kids]
        out.append(m)
    return TreeStructure(name=sp.name, tick_frequency_hz=10.0, root_id=uuid_to_ros(sp.nodes[0].id), nodes=out,
                         data_wirings=[cat.wiring(sp.nodes[s].id, sk, sp.nodes[t].id, tk) for s, sk, t, tk in sp.wirings])


class Flat:
    """The same nodes without any Subtree node."""

    def __init__(self, rng, top):
        self.msgs, self.wirings, self.ids, self.roots, self.inputs = [], [], {}, [], {}
        self.top = self.put(rng, top, "")

    def put(self, rng, sp, prefix):
        """Add the nodes of ``sp``; the flat id of its root."""
        here = {}
        outs, ins = {}, {}
        for i, n in enumerate(sp.nodes):
            path = f"{prefix}/{n.name}"
            if n.spec is not None:
                here[i] = self.put(rng, n.spec, path)
                self.roots.append((path, here[i]))
                self.ids[path] = here[i]
                for j, x in enumerate(n.spec.nodes):
                    xi = self.ids[f"{path}/{x.name}"]
                    if x.cls.__name__ == "IOInput":
                        ins[(i, f"{x.id}.in")] = (xi, "in")
                        self.inputs.setdefault(path, []).append(xi)
                    elif x.cls.__name__ == "IOOutput":
                        outs[(i, f"{x.id}.out")] = (xi, "out")
            else:
                here[i] = self.ids[path] = bt.make_uuid(rng)
        for i, n in enumerate(sp.nodes):
            if n.spec is None:
                m = copy.deepcopy(n.msg)
                m.node_id = uuid_to_ros(here[i])
                m.child_ids = [uuid_to_ros(here[k]) for k in n.kids]
                self.msgs.append(m)
        for s, sk, t, tk in sp.wirings:
            a, ak = outs.get((s, sk), (here[s], sk))
            b, bk = ins.get((t, tk), (here[t], tk))
            self.wirings.append(cat.wiring(a, ak, b, bk))
        return here[0]


def norm(st):
    return SHUT if st == UNINIT else st


def result(f):
    try:
        r = f()
    except Exception as e:
        raise Violation("raises", f"{type(e).__name__}: {e}") from e
    return "ERR" if r.is_err() else str(r.unwrap())


def ubounds(n):
    r = n.calculate_utility()
    if r.is_err():
        return "ERR"
    u = r.unwrap()
    return tuple((f, getattr(u, f)) for f in u.get_fields_and_field_types())


class Side:
    def __init__(self, m, plans):
        self.m, self.plans, self.trace, self.path = m, plans, [], {}
        self.nodes = {}

    def use(self):
        eleaf.PATH, eleaf.PLAN, eleaf.TRACE = self.path, self.plans, self.trace


def load(ros, msg, name):
    m = TreeExecManager(ros_node=ros, name=name)
    r = m.load_tree(srv.LoadTree.Request(tree=msg), srv.LoadTree.Response())
    if not r.success:
        raise Violation("load", f"{name}: valid tree refused: {r.error_message}")
    return m


def subs_of(manager, prefix=""):
    """(path, Subtree node) of all levels."""
    for n in manager.nodes.values():
        if type(n).__name__ == "Subtree":
            p = f"{prefix}/{n.name}"
            yield p, n
            yield from subs_of(n.manager, p)


def case(ctx):
    d = tempfile.mkdtemp(prefix="c22-", dir=os.environ.get("VERIF_SCRATCH") or None)
    try:
        run(ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx, d):
    rng = ctx.rng
    ros = FakeROSNode()
    files = []

    def path_of(sp):
        return "file://" + os.path.join(d, sp.name + ".yaml")

    pm = PackageManager([d])
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        sp = gen(rng, f"f{k}", [f for f in files if f.size() < 25 and f.depth() < 3], path_of, True)
        files.append(sp)
        r = pm.save_tree_to_path(srv.SaveTree.Request(storage_path=d, filepath=f"f{k}.yaml", tree=file_msg(sp)), srv.SaveTree.Response())
        if not r.success:
            raise Violation("save", r.error_message)
    top = gen(rng, "top", [f for f in files if f.size() < 30], path_of, False)
    if top.size() > 90:
        ctx.count("too_big")
        return
    flat = Flat(rng, top)
    a = Side(load(ros, file_msg(top), "nested"), {})
    b = Side(load(FakeROSNode(), TreeStructure(name="flat", tick_frequency_hz=10.0, root_id=uuid_to_ros(flat.top), nodes=flat.msgs, data_wirings=flat.wirings), "flat"), {})
    # ---- who is who
    subs = dict(subs_of(a.m))
    for prefix, manager in [("", a.m)] + [(p, s.manager) for p, s in subs.items()]:
        for n in manager.nodes.values():
            a.nodes[f"{prefix}/{n.name}"] = n
    b.nodes = {p: b.m.nodes[i] for p, i in flat.ids.items()}
    if set(a.nodes) != set(b.nodes):
        raise Violation("nodes", f"{sorted(set(a.nodes) ^ set(b.nodes))} are only on one side")
    seed = rng.random()
    calm = rng.random() < 0.5
    for p, n in a.nodes.items():
        if type(n).__module__ != "eleaf":
            continue
        a.path[id(n)] = b.path[id(b.nodes[p])] = p
        w = [1, 0, 0.05, 0] if isinstance(n, eleaf.ESrc) else rng.choice([[6, 1, 2, 0], [3, 1, 0, 0], [3, 2, 3, 0], [8, 1, 2, 0.2]])
        w = w[:3] + [0] if calm else w
        fails = 0 if calm else rng.choice([0, 0, 0, 0.01])
        for side in (a, b):
            side.plans[p] = eleaf.Plan(seed, p, w, fails)
    ctx.count("nodes", len(a.nodes))
    ctx.count("subtrees", len(subs))
    ctx.count("nested", sum(p.count("/") > 1 for p in subs))
    ctx.count("twice", len(subs) - len({s.inputs.get_value("subtree_path").unwrap() for s in subs.values()}))
    # ---- a node with an input that was never set is not ticked, and a subtree is a node
    masked = set()
    for p, i in sorted(flat.roots, key=lambda x: -x[0].count("/")):
        def guard(n=b.m.nodes[i], p=p, ins=[b.m.nodes[x] for x in flat.inputs.get(p, [])]):
            orig = n.tick

            def tick():
                if str(n.state) not in (UNINIT, SHUT, BROKEN) and any(x.node_config.inputs["in"].get_value().is_err() for x in ins):
                    ctx.count("unset")
                    masked.add(p)
                    n.state = bt.S.BROKEN
                    return bt.Err(bt.BehaviorTreeException("unset"))
                return orig()

            n.tick = tick

        guard()
    last, entered = {}, set()
    for p, s in subs.items():
        for op in OPS:
            def spy(orig=getattr(s, op), p=p, op=op, s=s):
                def f():
                    live = str(s.state) not in (UNINIT, SHUT, BROKEN)
                    if live or op == "setup":
                        last[p] = op
                        ctx.count(f"subtree {op}")
                    return orig()

                return f

            setattr(s, op, spy())

        def inside(orig=s._do_tick, p=p):
            ctx.count("subtree ticks inside")
            entered.add(p)
            return orig()

        s._do_tick = inside
    for side in (a, b):
        if side.m.data_flow_manager.initialize(side.m.nodes, side.m.wirings).is_err():
            raise Violation("initialize", "valid wirings refused")
    ra, rb = (s.m.find_root().unwrap() for s in (a, b))
    sm = a.m.subtree_manager
    ever = set()

    def compare(op, outa, outb):
        where = f"after {op}"
        if outa != outb:
            raise Violation(f"result/{op}", f"{op} gave {outa} with the subtree, {outb} with its nodes in place")
        if a.trace != b.trace:
            k = next((k for k, (x, y) in enumerate(zip(a.trace, b.trace)) if x != y), min(len(a.trace), len(b.trace)))
            raise Violation(f"calls/{op}", f"{where}: call {k} of a node differs: {a.trace[k:k + 2]} with the subtree, {b.trace[k:k + 2]} with its nodes in place")
        for p in list(masked):
            if str(subs[p].state) != BROKEN:
                masked.discard(p)
        skip = set()
        for p in masked:
            n = subs[p]
            q = p
            while type(n).__name__ == "Subtree":
                n = n.manager.find_root().unwrap()
                q = f"{q}/{n.name}"
                skip.add(q)
        for p, n in a.nodes.items():
            x, y = norm(str(n.state)), norm(str(b.nodes[p].state))
            if p not in skip and x != y:
                raise Violation(f"state/{op}", f"{where}: {p} ({type(n).__name__}) is {x} with the subtree, {y} with its nodes in place")
            if p in subs:
                if str(n.state) in (UNINIT, SHUT, BROKEN):
                    continue
                for key, c in n.node_config.outputs.items():
                    xid = key.split(".")[0]
                    want = next(o for q, o in b.nodes.items() if q.rpartition("/")[0] == p and str(n.manager.nodes[uuid.UUID(xid)].name) == o.name)
                    v = want.node_config.outputs["out"].get_value()
                    if v.is_ok():
                        ctx.count("public_outputs")
                        if c.get_value().ok() != v.unwrap():
                            raise Violation("public-output", f"{where}: output {key} of {p} is {c.get_value()}, its node gives {v.unwrap()!r}")
            elif outa != "ERR" or type(n).__module__ == "eleaf":
                for key, c in n.node_config.outputs.items():
                    if c.get_value() != b.nodes[p].node_config.outputs[key].get_value():
                        raise Violation(f"output/{op}", f"{where}: output {key} of {p} is {c.get_value()} with the subtree, {b.nodes[p].node_config.outputs[key].get_value()} with its nodes in place")
            a.use()
            x = ubounds(n)
            b.use()
            y = ubounds(b.nodes[p])
            if x != y:
                raise Violation("utility", f"{where}: utility of {p} ({type(n).__name__}) is {x} with the subtree, {y} with its nodes in place")
            ctx.count("utilities")
        # what is shown of the subtrees
        for p, s in subs.items():
            if last.get(p):
                ever.add(p)
        shown(where)

    def shown(where):
        on = sm.get_publish_subtrees()
        st, sd, sx = sm.get_subtree_states(), sm.get_subtree_data(), sm.get_subtree_structures()
        if not on:
            if st or sd or sx:
                raise Violation("hidden", f"{where}: subtrees are published although that is switched off")
            ctx.count("hidden")
            return
        ids = {}
        for p, s in subs.items():
            ids[uuid_to_ros(s.tree_ref)] = p
        if len(ids) != len(subs):
            raise Violation("tree-id", f"{where}: two subtrees share an id")
        for what, got, expect in (("structure", sx, set(subs)), ("state", st, ever), ("data", sd, None)):
            g = [ids.get(x.tree_id) for x in got]
            if None in g or len(set(g)) != len(g):
                raise Violation(f"shown/{what}-ids", f"{where}: {what} of {[x.tree_id for x in got]} is shown for the subtrees {ids}")
            if expect is not None and set(g) != expect:
                raise Violation(f"shown/{what}-missing", f"{where}: {what} is shown of {sorted(g)} instead of {sorted(expect)}")
        for x in sx:
            s = subs[ids[x.tree_id]]
            spec = spec_at(top, ids[x.tree_id])
            want = {uuid_to_ros(n.id): (n.name, n.cls.__name__, tuple(uuid_to_ros(spec.nodes[k].id) for k in n.kids)) for n in spec.nodes}
            got = {n.node_id: (n.name, n.node_class, tuple(n.child_ids)) for n in x.nodes}
            w1 = sorted((str(spec.nodes[a_].id), ak, str(spec.nodes[b_].id), bk) for a_, ak, b_, bk in spec.wirings)
            w2 = sorted((w.source.node_id, w.source.data_key, w.target.node_id, w.target.data_key) for w in x.data_wirings)
            if want != got or len(x.nodes) != len(want) or w1 != w2:
                raise Violation("shown/structure", f"{where}: structure of {ids[x.tree_id]} is shown as {got} {w2}, it is {want} {w1}")
            if s.to_structure_msg().tree_ref != x.tree_id:
                raise Violation("shown/tree-ref", f"{where}: {ids[x.tree_id]} refers to {s.to_structure_msg().tree_ref}, its tree is shown as {x.tree_id}")
            ctx.count("structures")
        for x in st:
            s = subs[ids[x.tree_id]]
            want = sorted((uuid_to_ros(n.node_id), str(n.state)) for n in s.manager.nodes.values())
            got = sorted((n.node_id, n.state) for n in x.node_states)
            if want != got:
                raise Violation("shown/state", f"{where}: states of {ids[x.tree_id]} are shown as {got}, they are {want}")
            ctx.count("states")
        if sm.get_publish_data():
            g = {ids[x.tree_id]: x for x in sd}
            for p, s in subs.items():
                if p in fresh and last.get(p) == "tick":
                    if p not in g:
                        raise Violation("shown/data-missing", f"{where}: no data of {p} is shown")
                    want = s.manager.data_flow_manager.get_wiring_data()
                    if list(g[p].wiring_data) != want:
                        x, y = next((x, y) for x, y in zip([*g[p].wiring_data, None], [*want, None]) if x != y)
                        raise Violation("shown/data", f"{where}: data of {p} is shown as {x}, it is {y}")
                    ctx.count("data")

    fresh = set()
    compare("loading", "", "")
    history = []
    for step in range(rng.choice([6, 12, 20])):
        st = str(ra.state)
        op = "setup" if st in (UNINIT, SHUT) else "shutdown" if st == BROKEN else rng.choices(["tick", "untick", "reset", "shutdown"], [8, 1.2, 1, 0.5])[0]
        if rng.random() < 0.04:
            op = rng.choice(OPS)
        if rng.random() < 0.1:
            sm.publish_subtrees = not sm.publish_subtrees if rng.random() < 0.5 else True
        if rng.random() < 0.1:
            sm.set_publish_data(rng.random() < 0.6)
            fresh.clear()
        ctx.log(op)
        entered.clear()
        last_before = dict(last)
        last.clear()
        a.use()
        outa = result(getattr(ra, op))
        fresh.clear()
        if sm.get_publish_data():
            fresh.update(p for p in entered if last.get(p) == "tick")
        last_now = dict(last)
        last.clear()
        last.update({**last_before, **last_now})
        b.use()
        outb = result(getattr(rb, op))
        history.append((op, outa, tuple(a.trace)))
        ctx.count("steps")
        ctx.count("calls", len(a.trace))
        ctx.count(f"{op} {outa}")
        compare(op, outa, outb)
        a.trace.clear()
        b.trace.clear()
    ctx.sig(tuple(history))


def spec_at(sp, path):
    for name in path.strip("/").split("/"):
        sp = next(n for n in sp.nodes if n.name == name).spec
    return sp
