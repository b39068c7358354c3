"""C24: what is published is the tree with all its subtrees, as it is."""
import copy
import os
import shutil
import tempfile

import bt
import catalog as cat
import check_C22_subtrees as c22
import eleaf
import execmodel as xm
from bt import FakeROSNode
from common import Violation
from ros_bt_py.package_manager import PackageManager
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import NodeIO, TreeStructure
from std_srvs.srv import SetBool

PROPERTY = "C24"
LEVEL = "exploration"
RULE = "distinct by the sequence of requests, their answers and the subtrees shown after each"
TIERS = {"quick": 600, "thorough": 20000}
FLOORS = {"generate ok": 8, "steps": 3000, "structures": 5400, "states": 6000, "data": 150, "subtree_data": 78, "add ok": 48, "morph ok": 36, "options ok": 66, "replace ok": 36, "remove ok": 36, "load ok": 330, "clear ok": 48, "command once ok": 390, "command result ok": 78, "command setup_shutdown ok": 162, "subtrees off": 150}
REQ = xm.REQ
NAMES = {v: k for k, v in xm.CMD.items()}


class Any(dict):
    def __init__(self, f):
        self.f = f

    def __missing__(self, k):
        return self.f()

    def get(self, k, d=None):
        return self.f()


def case(ctx):
    d = tempfile.mkdtemp(prefix="c24-", dir=os.environ.get("VERIF_SCRATCH") or None)
    try:
        run(ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def structure_of(msgs):
    return sorted((n.node_id, n.name, n.module, n.node_class, tuple(n.child_ids), n.tree_ref) for n in msgs)


def wires(ws):
    return sorted((w.source.node_id, w.source.data_key, w.target.node_id, w.target.data_key) for w in ws)


def run(ctx, d):
    rng = ctx.rng
    ros = FakeROSNode()
    files = []

    def path_of(sp):
        return "file://" + os.path.join(d, sp.name + ".yaml")

    pm = PackageManager([d])
    for k in range(rng.choice([1, 2, 2, 3])):
        sp = c22.gen(rng, f"f{k}", [f for f in files if f.size() < 12 and f.depth() < 3], path_of, True)
        files.append(sp)
        pm.save_tree_to_path(srv.SaveTree.Request(storage_path=d, filepath=f"f{k}.yaml", tree=c22.file_msg(sp)), srv.SaveTree.Response())
    files = [f for f in files if f.size() < 20]
    plan = eleaf.Plan(rng.random(), "x", rng.choice([[6, 1, 3, 0], [6, 1, 3, 0.1]]), rng.choice([0, 0, 0.01]))
    eleaf.PATH, eleaf.PLAN, eleaf.TRACE = Any(lambda: "x"), Any(lambda: plan), []
    pub = {"structure": [], "state": [], "data": []}
    bad = []

    def got_data(x):
        pub["data"].append(x)
        if x.tree_data:
            try:
                check_data(f"a tick after {history[-1][0] if history else 'the start'}")
            except Violation as e:
                bad.append(e)

    history = []
    m = TreeEditManager(
        ros_node=ros, name="t", tick_frequency_hz=50.0,
        publish_tree_structure_callback=lambda x: pub["structure"].append(copy.deepcopy(x)),
        publish_tree_state_callback=lambda x: pub["state"].append(copy.deepcopy(x)),
        publish_tree_data_callback=lambda x: got_data(copy.deepcopy(x)))
    on = {"subtrees": True, "data": False}
    ready = {}  # Subtree node -> it was set up
    ticked = set()

    def watch():
        for p, s in subs().items():
            if id(s) in ready:
                continue
            ready[id(s)] = [s, False]

            def do_setup(orig=s._do_setup, s=s):
                r = orig()
                if s.root is not None:
                    ready[id(s)][1] = True
                return r

            def do_tick(orig=s._do_tick, s=s):
                r = orig()
                if r.is_ok():
                    ticked.add(id(s))
                return r

            def undo(op, s=s):
                orig = getattr(s, op)

                def f():
                    ticked.discard(id(s))
                    return orig()

                setattr(s, op, f)

            s._do_setup, s._do_tick = do_setup, do_tick
            undo("_do_reset")
            undo("_do_shutdown")

    def subs():
        out = {}

        def go(nodes, prefix):
            for n in nodes:
                if type(n).__name__ == "Subtree":
                    p = f"{prefix}/{n.node_id}"
                    out[p] = n
                    go(n.manager.nodes.values(), p)

        go(m.nodes.values(), "")
        return out

    def check(what):
        now = subs()
        ids = {uuid_to_ros(s.tree_ref): s for s in now.values()}
        if len(ids) != len(now):
            raise Violation("same-id", f"after {what}: two subtrees share an id")
        if not pub["structure"]:
            return ()
        last = pub["structure"][-1].tree_structures
        main = last[-1]
        if main.tree_id in ids:
            raise Violation("structure/main", f"after {what}: the last structure is that of a subtree")
        got = {x.tree_id: x for x in last[:-1]}
        if len(got) != len(last) - 1:
            raise Violation("structure/twice", f"after {what}: {[x.tree_id for x in last]} are published")
        want = set(ids) if on["subtrees"] else set()
        if set(got) != want:
            raise Violation("structure/subtrees", f"after {what}: structures of {len(got)} subtrees are published ({len(set(got) - set(ids))} of no subtree of the tree), "
                            f"the tree has {len(ids)} ({'shown' if on['subtrees'] else 'hidden'})")
        real = structure_of(n.to_structure_msg() for n in m.nodes.values())
        if structure_of(main.nodes) != real or wires(main.data_wirings) != wires(m.wirings) or main.name != m.name:
            raise Violation("structure/tree", f"after {what}: published {main.name!r} {structure_of(main.nodes)} {wires(main.data_wirings)}, the tree is {m.name!r} {real} {wires(m.wirings)}")
        now_ = m.structure_to_msg()
        for f in ("tree_id", "root_id", "path", "tick_frequency_hz", "public_inputs", "public_outputs"):
            if getattr(main, f) != getattr(now_, f):
                raise Violation(f"structure/{f}", f"after {what}: published {getattr(main, f)!r}, the tree has {getattr(now_, f)!r}")
        for i, x in got.items():
            s = ids[i].manager
            real = structure_of(n.to_structure_msg() for n in s.nodes.values())
            if structure_of(x.nodes) != real or wires(x.data_wirings) != wires(s.wirings):
                raise Violation("structure/subtree", f"after {what}: published {structure_of(x.nodes)}, the subtree is {real}")
            ctx.count("structures")
        last = pub["state"][-1].tree_states
        if last[-1].tree_id != main.tree_id:
            raise Violation("state/main", f"after {what}: the last state is that of {last[-1].tree_id}, the tree is {main.tree_id}")
        if last[-1].state != m.state:
            raise Violation("state/tree", f"after {what}: the tree is {m.state}, published is {last[-1].state}")
        got = {x.tree_id: x for x in last[:-1]}
        want = {i for i, s in ids.items() if ready[id(s)][1]} if on["subtrees"] else set()
        if len(got) != len(last) - 1 or set(got) - set(ids) or not want <= set(got) or (not on["subtrees"] and got):
            raise Violation("state/subtrees", f"after {what}: states of {len(last) - 1} subtrees are published ({len(set(got) - set(ids))} of no subtree of the tree), {len(want)} were set up")
        for x, nodes in [(last[-1], m.nodes)] + [(x, ids[i].manager.nodes) for i, x in got.items()]:
            real = sorted((uuid_to_ros(n.node_id), str(n.state)) for n in nodes.values())
            if sorted((n.node_id, n.state) for n in x.node_states) != real:
                raise Violation("state/nodes", f"after {what}: published states {[n.state for n in x.node_states]} of {'the tree' if x is last[-1] else 'a subtree'} differ from {real}")
            ctx.count("states")
        return len(want), len(ids)

    def check_data(what):
        ids = {uuid_to_ros(s.tree_ref): s for s in subs().values()}
        last = pub["data"][-1].tree_data
        got = {x.tree_id: x for x in last[:-1]}
        if len(got) != len(last) - 1 or set(got) - set(ids) or (got and not on["subtrees"]):
            raise Violation("data/subtrees", f"{what}: data of {len(last) - 1} subtrees is published, {len(set(got) - set(ids))} of no subtree of the tree")
        if last[-1].tree_id != m.structure_to_msg().tree_id:
            raise Violation("data/main", f"after {what}: the last data is that of {last[-1].tree_id}")
        if list(last[-1].wiring_data) != m.data_flow_manager.get_wiring_data():
            raise Violation("data/tree", f"after {what}: published data {last[-1].wiring_data}, it is {m.data_flow_manager.get_wiring_data()}")
        if len(last[-1].wiring_data) != len(m.wirings):
            raise Violation("data/number", f"after {what}: data of {len(last[-1].wiring_data)} wirings is published, there are {len(m.wirings)}")
        for i, s in ids.items():
            if id(s) in ticked and on["subtrees"]:
                if i not in got:
                    raise Violation("data/missing", f"after {what}: no data of a subtree that was ticked is published")
                if list(got[i].wiring_data) != s.manager.data_flow_manager.get_wiring_data():
                    raise Violation("data/subtree", f"after {what}: published data {got[i].wiring_data}, it is {s.manager.data_flow_manager.get_wiring_data()}")
                ctx.count("subtree_data")
        ctx.count("data")

    def top_msg():
        for _ in range(9):
            top = c22.gen(rng, f"top{rng.randint(0, 9)}", files, path_of, False)
            if top.size() < 50:
                break
        msg = c22.file_msg(top)
        msg.name = rng.choice(["a", "b.yaml"])
        return msg

    def node_msg():
        x = rng.random()
        if x < 0.5 and files:
            p = path_of(rng.choice(files)) if rng.random() < 0.9 else "file:///nowhere/x.yaml"
            return cat.make(rng, cat.SHIPPED["Subtree"], name=rng.choice("abc"), values={"subtree_path": p})
        return cat.make(rng, rng.choice([eleaf.EFlow, eleaf.EIdle, eleaf.ESrc, cat.SHIPPED["Sequence"], cat.SHIPPED["Inverter"]]), name=rng.choice("abc"))

    def some(only=None):
        ns = [n for n in m.nodes.values() if only is None or type(n).__name__ == only] or list(m.nodes.values())
        return uuid_to_ros(rng.choice(ns).node_id) if ns else uuid_to_ros(bt.make_uuid(rng))

    def edit():
        op = rng.choice(["load", "add", "add", "remove", "morph", "options", "options", "replace", "move", "name", "clear", "subtree", "generate"] if rng.random() < 0.9 else ["load"])
        sub = "Subtree" if rng.random() < 0.6 else None
        if op == "load":
            msg = top_msg()
            bad = rng.random() < 0.2
            if bad and msg.nodes:
                rng.choice(msg.nodes).node_class = "Nope"
            return op, m.load_tree(srv.LoadTree.Request(tree=msg), srv.LoadTree.Response())
        if op == "add":
            parent = some(rng.choice(["EFlow", "Sequence"])) if m.nodes else "00000000-0000-0000-0000-000000000000"
            return op, m.add_node(srv.AddNode.Request(parent_node_id=parent, node=node_msg()), srv.AddNode.Response())
        if op == "remove":
            return op, m.remove_node(srv.RemoveNode.Request(node_id=some(sub), remove_children=rng.random() < 0.6), srv.RemoveNode.Response())
        if op == "morph":
            return op, m.morph_node(srv.MorphNode.Request(node_id=some(sub), new_node=node_msg()), srv.MorphNode.Response())
        if op == "replace":
            return op, m.replace_node(srv.ReplaceNode.Request(old_node_id=some(sub), new_node_id=some()), srv.ReplaceNode.Response())
        if op == "move":
            return op, m.move_node(srv.MoveNode.Request(node_id=some(sub), parent_node_id=some(), new_child_index=rng.randint(-1, 3)), srv.MoveNode.Response())
        if op == "name":
            return op, m.change_tree_name(srv.ChangeTreeName.Request(name=rng.choice("xyz")), srv.ChangeTreeName.Response())
        if op == "clear":
            return op, m.clear(srv.ClearTree.Request(), srv.ClearTree.Response())
        if op == "subtree":
            return op, m.get_subtree(srv.GetSubtree.Request(node_id=some(sub)), srv.GetSubtree.Response())
        if op == "generate":
            ids = sorted(str(i) for i in m.nodes)
            if rng.random() < 0.5:
                ids = rng.sample(ids, rng.randint(1, len(ids))) if ids else []
            return op, m.generate_subtree(srv.GenerateSubtree.Request(node_ids=ids), srv.GenerateSubtree.Response())
        n = some("Subtree")
        io = []
        if files and rng.random() < 0.7:
            msg = cat.make(rng, cat.SHIPPED["Subtree"], values={"subtree_path": path_of(rng.choice(files)) if rng.random() < 0.8 else "file:///nowhere/x.yaml"})
            io = [x for x in msg.inputs if x.key == "subtree_path"]
        return op, m.set_options(srv.SetOptions.Request(node_id=n, inputs=io, rename_node=rng.random() < 0.4, new_name="new"), srv.SetOptions.Response())

    def join():
        if m._tick_thread is not None:
            m._tick_thread.join(20)
            if m._tick_thread.is_alive():
                raise Violation("stuck", "the tick thread does not end")

    for step in range(rng.choice([8, 14, 20])):
        x = rng.random()
        n_data = len(pub["data"])
        running = m.state not in (xm.EDIT,)
        if not m.nodes or (x < 0.45 and not running):
            if not m.nodes and rng.random() < 0.7:
                what, r = "load", m.load_tree(srv.LoadTree.Request(tree=top_msg()), srv.LoadTree.Response())
            else:
                what, r = edit()
            ok = r.success
            ctx.count(f"{what} {'ok' if ok else 'refused'}")
        elif x < 0.55:
            k = rng.choice(["subtrees", "data"])
            on[k] = rng.random() < 0.6 if k == "subtrees" else rng.random() < 0.7
            f = m.set_publish_subtrees if k == "subtrees" else m.set_publish_data
            ok = f(SetBool.Request(data=on[k]), SetBool.Response()).success
            what = f"{k} {'on' if on[k] else 'off'}"
            ctx.count(what)
        else:
            cmds = [REQ.SHUTDOWN] if m.state == xm.ERROR else [REQ.TICK_ONCE] * 6 + [REQ.TICK_UNTIL_RESULT, REQ.RESET, REQ.STOP, REQ.SHUTDOWN, REQ.SETUP_AND_SHUTDOWN, REQ.SETUP_AND_SHUTDOWN]
            cmd = rng.choice(cmds)
            ticked.clear()
            watch()
            r = m.control_execution(REQ(command=cmd, tick_frequency_hz=rng.choice([0.0, 0.0, 20.0, 50.0, 80.0, -1.0])), srv.ControlTreeExecution.Response())
            if cmd == REQ.TICK_UNTIL_RESULT:
                if rng.random() < 0.6:
                    m.control_execution(REQ(command=REQ.STOP), srv.ControlTreeExecution.Response())
            join()
            ok = r.success
            what = f"command {NAMES[cmd]}"
            ctx.count(f"{what} {'ok' if ok else 'refused'}")
        watch()
        ctx.log(what, ok)
        if bad:
            raise bad[0]
        shown = check(what)
        if len(pub["data"]) > n_data:
            if not on["data"] and any(x.tree_data for x in pub["data"][n_data:]):
                raise Violation("data/off", f"after {what}: data is published although that is switched off")
        elif what == "command once" and ok and on["data"] and m.nodes:
            raise Violation("data/none", "no data is published of a tick")
        history.append((what, ok, shown))
        ctx.count("steps")
    ctx.sig(tuple(history))
