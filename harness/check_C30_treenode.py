"""C30: the tree node starts as it is configured and serves what it offers."""
import contextlib
import importlib
import io
import os
import shutil
import sys
import tempfile
import types

import bt
import catalog as cat
import editmodel as em
import execmodel as xm
import sched as sc
import vleaf
from bt import Node
from common import Violation
from treesim import LATCHED, Graph, params, tree_node
from ros_bt_py import ros_helpers
from ros_bt_py.logging_manager import LoggingManager
from ros_bt_py.package_manager import PackageManager
from ros_bt_py_interfaces import msg, srv
from ros_bt_py_interfaces.msg import NodeStructure, TreeState, TreeStructure
from std_srvs.srv import SetBool
import diagnostic_msgs.msg
import rclpy
import rclpy.exceptions
import std_msgs.msg

PROPERTY = "C30"
LEVEL = "exploration"
RULE = "distinct by kind of workload, configuration, requests with their answers, and the schedule"
TIERS = {"quick": 500, "thorough": 16000}
FLOORS = {"starts": 350, "default script": 35, "default spoiled": 10, "default random": 12, "default missing": 5, "default garbage": 5, "usable": 150, "compared": 150, "ticking": 4,
          "add_node_at_index ok": 50, "move_node ok": 12, "wire_data ok": 25, "set_options ok": 35, "saved": 35, "cmd once": 170, "cmd periodically": 150, "cmd result": 110, "cmd stop": 70,
          "cmd shutdown": 70, "cmd shutdown()": 35, "cmd reset": 70, "data": 150, "diagnosed": 300, "said": 600, "timers": 200, "fired": 300, "asked": 200, "subtrees": 90, "modules": 120, "folders": 70}

SERVICES = {
    "add_node": srv.AddNode, "add_node_at_index": srv.AddNodeAtIndex, "remove_node": srv.RemoveNode, "morph_node": srv.MorphNode,
    "wire_data": srv.WireNodeData, "unwire_data": srv.WireNodeData, "control_tree_execution": srv.ControlTreeExecution,
    "get_subtree": srv.GetSubtree, "generate_subtree": srv.GenerateSubtree, "set_options": srv.SetOptions, "move_node": srv.MoveNode,
    "replace_node": srv.ReplaceNode, "load_tree": srv.LoadTree, "load_tree_from_path": srv.LoadTreeFromPath, "clear": srv.ClearTree,
    "reload": srv.ReloadTree, "change_tree_name": srv.ChangeTreeName, "get_available_nodes": srv.GetAvailableNodes,
    "get_package_structure": srv.GetPackageStructure, "get_folder_structure": srv.GetFolderStructure, "save_tree": srv.SaveTree,
    "get_storage_folders": srv.GetStorageFolders, "set_log_level": srv.SetLogLevel,
    "debug/set_collect_node_diagnostics": SetBool, "debug/set_publish_subtrees": SetBool, "debug/set_publish_data": SetBool,
}
TOPICS = {
    "~/tree_structure_list": (msg.TreeStructureList, True), "~/tree_state_list": (msg.TreeStateList, True), "~/tree_data_list": (msg.TreeDataList, True),
    "~/message_types": (msg.MessageTypes, True), "~/packages": (msg.Packages, True), "~/log_messages": (msg.BTLogMessage, False),
    "~/debug/node_diagnostics": (diagnostic_msgs.msg.DiagnosticStatus, False), "~/debug/tick_frequency": (std_msgs.msg.Float64, False),
    "/diagnostics": (diagnostic_msgs.msg.DiagnosticArray, False), "~/message_channels": (msg.MessageChannels, False),
}


def start(ctx, s, p, script, faults=0):
    """main() of the tree node; script(node) runs as the clients while it spins."""
    out = io.StringIO()
    st = {"spins": 0, "over": False}
    hiccups = faults

    def spin(nodes):
        nonlocal hiccups
        st["spins"] += 1
        if len(nodes) != 1 or nodes[0] is not Graph.node:
            raise Violation("start/executor", f"the executor serves {nodes}")
        if "Finished starting tree node" not in out.getvalue():
            raise Violation("start/announce", "start is not announced")
        if hiccups:
            hiccups -= 1
            raise rclpy.exceptions.InvalidHandle()
        try:
            script(Graph.node)
        except Exception as e:
            st["error"] = e
        st["over"] = True
        raise KeyboardInterrupt

    Graph.params, Graph.node, Graph.script = p, None, spin
    action, actions = ros_helpers.action, ros_helpers.action.get_action_names_and_types
    action.get_action_names_and_types = lambda node: [("/act", ["example_interfaces/action/Fibonacci"])]
    real = {k: getattr(rclpy, k) for k in ("init", "ok", "shutdown", "try_shutdown") if hasattr(rclpy, k)}
    rclpy.init, rclpy.ok = (lambda *a, **k: None), (lambda *a, **k: not st["over"] and not s.aborted)
    rclpy.shutdown = rclpy.try_shutdown = lambda *a, **k: None
    try:
        with contextlib.redirect_stdout(out):
            try:
                tree_node.main([])
            except (Violation, sc.Abort):
                raise
            except Exception as e:
                if getattr(e, "_workload_fault", False):
                    raise
                raise Violation(f"start/raises-{type(e).__name__}", f"main() raised {type(e).__name__}: {e} with {vars(p)}") from e
    finally:
        action.get_action_names_and_types = actions
        for k, v in real.items():
            setattr(rclpy, k, v)
    if "error" in st:
        raise st["error"]
    if not st["over"]:
        raise Violation("start/gone", f"main() returned after {st['spins']} spins")
    ctx.count("starts")
    ctx.count("hiccups", faults)


def simulate(ctx, p, script, hiccups=0, p_switch=None):
    """One life of a node under a random schedule."""
    rng = ctx.rng
    s = sc.Sched(rng, rng.choice([0.01, 0.05, 0.2]) if p_switch is None else p_switch)
    LoggingManager.set_min_log_level(srv.SetLogLevel.Request(min_log_level=msg.BTLogMessage.INFO), srv.SetLogLevel.Response())
    sleeps = []

    def client(node):
        node.sleep_hook = lambda rate: (sleeps.append(rate.frequency), node.clock.advance(1.0 / rate.frequency), s.point(force=True))
        node.sleeps = sleeps
        interface(ctx, node)
        script(node, s)

    def body():
        undo = tree_node.TreeNode.__init__

        def init(self, *a, **k):
            undo(self, *a, **k)
            self.sleep_hook = lambda rate: (sleeps.append(rate.frequency), self.clock.advance(1.0 / rate.frequency), s.point(force=True))

        tree_node.TreeNode.__init__ = init
        try:
            start(ctx, s, p, client, hiccups)
        finally:
            tree_node.TreeNode.__init__ = undo

    with s.installed():
        s.spawn(body, "main")
        s.run()
        left = [r for r in Graph.node.rates_ if not r.destroyed] if Graph.node is not None else []
        if len(left) > 1 and not s.reason and all(t.error is None for t in s.tasks):
            raise Violation("leak/rates", f"{len(left)} rates are left running when nothing is ticked any more")
        ctx.count("switches", s.switches)
        ctx.sig("schedule", s.history)
        for t in s.tasks:
            if t.error is not None:
                if t in s.threads:
                    raise Violation("tick-thread-died", f"the tick thread ended with {type(t.error).__name__}: {t.error}") from t.error
                raise t.error
        if s.reason:
            raise Violation("stuck", s.reason)
    return s


def interface(ctx, node):
    for k, t in SERVICES.items():
        if k not in node.services_:
            raise Violation(f"interface/service/{k}", f"service {k} is not offered")
        if node.services_[k][0] is not t:
            raise Violation(f"interface/service/{k}", f"service {k} has the type {node.services_[k][0]}")
    for k, (t, latched) in TOPICS.items():
        p = [p for p in node.publishers_ if p.topic == k]
        if len(p) != 1 or p[0].msg_type is not t:
            raise Violation(f"interface/topic/{k}", f"publishers of {k}: {[(x.topic, x.msg_type) for x in p]}")
        q = p[0].qos_profile
        if latched and (q.durability.name != LATCHED or q.reliability.name != "RELIABLE"):
            raise Violation(f"interface/qos/{k}", f"clients that come later don't see {k}: {q}")
    ctx.count("interfaces")


def case(ctx):
    d = tempfile.mkdtemp(prefix="c30-", dir=os.environ.get("VERIF_SCRATCH") or None)
    level = LoggingManager._min_log_level if hasattr(LoggingManager, "_min_log_level") else None
    vleaf.BEHAVIOUR.clear()
    vleaf.LOG.clear()
    try:
        kind = ctx.rng.choices(["default", "edit", "run", "other"], [4, 3, 4, 2])[0]
        ctx.count(kind)
        {"default": default, "edit": edit, "run": run, "other": other}[kind](ctx, d)
    finally:
        if level is not None:
            LoggingManager.set_min_log_level(srv.SetLogLevel.Request(min_log_level=level), srv.SetLogLevel.Response())
        shutil.rmtree(d, ignore_errors=True)


# ---- the tree as the clients see it


def seen(t):
    ros = bt.FakeROSNode()
    mo = em.Model(ros)
    if t is None:
        return mo
    mo.name = t.name
    for n in t.nodes:
        i = em.parse(n.node_id)
        sh = mo.shadow(n)
        if sh is None or i in mo.nodes:
            raise Violation("published/node", f"published node {n} can't be created")
        mo.nodes[i], mo.children[i] = sh, [em.parse(c) for c in n.child_ids]
    mo.wirings = [em.wkey(w) for w in t.data_wirings]
    return mo


def same_tree(a, b, what):
    x, y = a.state(), b.state()
    if x != y:
        raise Violation("tree/" + what.split()[0], f"{what}: {em.diff(x, y)}")


def write(d, name, tree):
    r = PackageManager([d]).save_tree_to_path(srv.SaveTree.Request(storage_path=d, filepath=name, tree=tree, allow_overwrite=True), srv.SaveTree.Response())
    if not r.success:
        raise RuntimeError(r.error_message)
    return "file://" + os.path.join(d, name)


# ---- start with a default tree


def default(ctx, d):
    """A node that starts with a tree does what a client would do with the services."""
    rng = ctx.rng
    ros = bt.FakeROSNode()
    what = rng.choices(["script", "random", "spoiled", "missing", "garbage", "off"], [6, 2, 2, 1, 1, 1])[0]
    path = "file://" + os.path.join(d, "t.yaml")
    tree = None
    if what in ("script", "off"):
        tree = TreeStructure(name="scripted", tick_frequency_hz=rng.choice([5.0, 10.0]), nodes=xm.tree_msgs(rng, rng.choice([0, 0, 0, 1])))
    elif what in ("random", "spoiled"):
        tree = em.tree_msg(em.random_model(ros, rng, rng.randint(1, 6)), rng)
        if what == "spoiled":
            em.spoil(tree, rng)
    if tree is not None:
        path = write(d, "t.yaml", tree)
    elif what == "missing":
        path = rng.choice(["", path, "package://nope/x.yaml", "nonsense", "file://"])
    else:
        with open(os.path.join(d, "t.yaml"), "w") as f:
            f.write(rng.choice(["", "[1, 2", "a: b", "- 1", "nodes: 5", "\x00"]))
    hz = rng.choice([10.0, 2.5, 50.0])
    cmd = rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 7]) if what in ("script", "off") else rng.choice([0, 6])
    permissive = rng.random() < 0.3
    got = []
    ctx.log(what, cmd, hz, permissive, path)
    hosts = {id(b): b for b in vleaf.BEHAVIOUR.values()}
    for b in hosts.values():  # the same for both nodes
        b.streams["untick"] = lambda n, vals=[b.streams["untick"](k) for k in range(100)]: vals[n % 100]

    def fresh():
        vleaf.LOG.clear()
        for b in hosts.values():
            b.n = {k: 0 for k in b.n}

    def life(node, s):
        """Afterwards: look, stop, and see that the node is usable."""
        alive = lambda: any(not t.finished for t in s.threads)  # noqa: E731
        s.block(lambda: not alive() or len(node.sleeps) > 8)
        live = alive()
        mo = seen(node.tree())
        got.append({"tree": mo, "path": node.tree().path if node.tree() else "", "state": node.state(), "log": list(vleaf.LOG), "alive": live,
                    "hz": node.tree().tick_frequency_hz if node.tree() else None, "sleeps": list(node.sleeps)})
        for _ in range(3):
            r = node.call("control_tree_execution", command=xm.REQ.SHUTDOWN)
        s.block(lambda: not alive())
        k = len(vleaf.LOG)
        for _ in range(5):
            s.point(force=True)
        if len(vleaf.LOG) != k:
            raise Violation("start/background", f"after shutting down nodes are called: {vleaf.LOG[k:]}")
        if r.success:
            a = node.call("clear")
            b = node.call("add_node", parent_node_id=em.uuid_to_ros(em.NIL), node=cat.make(rng, cat.SHIPPED["Sequence"], name="usable"))
            if not a.success or not b.success or node.state() != TreeState.EDITABLE:
                raise Violation("start/unusable", f"after starting with {what} and shutting down, clear and add_node answer {a}, {b}, state {node.state()}")
            if [n.name for n in node.tree().nodes] != ["usable"]:
                raise Violation("start/unusable", f"published is {[n.name for n in node.tree().nodes]}")
            ctx.count("usable")
        elif what != "script":
            raise Violation("start/unusable", f"shutdown answers {r}")

    on = what != "off"
    answers = []

    def twin(node, s):
        if node.tree() is not None and node.tree().nodes:
            raise Violation("start/not-empty", f"started with nodes {[n.name for n in node.tree().nodes]}")
        if node.state() != TreeState.EDITABLE:
            raise Violation("start/state", f"a node without default tree starts {node.state()}")
        if on:
            r = node.call("load_tree", tree=TreeStructure(path=path), permissive=permissive)
            answers.append(r.success)
            if r.success:
                r = node.call("control_tree_execution", command=cmd, tick_frequency_hz=hz)
                answers.append(r.success)
        life(node, s)

    fresh()
    simulate(ctx, params(d, load_default_tree=on, load_default_tree_permissive=permissive, tick_frequency_hz=hz, tree_path=path, control_command=cmd), life,
             rng.choice([0, 0, 1, 3]))
    fresh()
    simulate(ctx, params(d), twin)
    a, b = got
    ctx.sig(what, cmd, permissive, tuple(answers), a["state"], len(a["log"]))
    ctx.count(f"default {what}")
    if what == "script" and not answers[0]:
        raise Violation("start/valid", "a valid tree is refused")
    same_tree(b["tree"], a["tree"], "default tree of the node differs from the loaded one")
    if what == "script":
        same_tree(seen(tree), a["tree"], "default tree of the node differs from the file")
    for k in ("path", "state", "alive", "hz"):
        if a[k] != b[k] and not (k == "state" and a["alive"]):
            raise Violation(f"start/{k}", f"{k} after starting with {what}, command {cmd}: {a[k]}, after the same requests {b[k]}")
    for x in (a, b):
        x["log"] = [e for e in x["log"]]
    n = min(len(a["log"]), len(b["log"])) if a["alive"] else None
    if a["log"][:n] != b["log"][:n]:
        raise Violation("start/calls", f"command {cmd}: calls {a['log'][:12]}, after the same requests {b['log'][:12]}")
    if set(a["sleeps"]) != set(b["sleeps"]):
        raise Violation("start/rate", f"command {cmd} at {hz} Hz: sleeps at {set(a['sleeps'])}, after the same requests {set(b['sleeps'])}")
    if a["log"]:
        ctx.count("compared", len(a["log"][:n]))
    if a["alive"]:
        ctx.count("ticking")
    ctx.sample({"kind": "default", "what": what, "command": cmd, "answers": answers, "state": a["state"], "calls": len(a["log"]), "alive": a["alive"]})


# ---- editing through the services


def edit(ctx, d):
    rng = ctx.rng
    names = {"reload_tree": "reload"}

    def script(node, s):
        ros = bt.FakeROSNode()
        mo = em.random_model(ros, rng, rng.randint(1, 7))
        r = node.call("load_tree", tree=em.tree_msg(mo, rng))
        if not r.success:
            raise Violation("edit/load", f"valid tree refused: {r.error_message}")
        same_tree(mo, seen(node.tree()), "load_tree through the service")
        ops = list(em.OPS)
        for _ in range(rng.randint(6, 16)):
            op = rng.choices(ops, [1 if k == "clear" else max(2, em.OPS[k][2]) for k in ops])[0]
            gen, effect, _ = em.OPS[op]
            q = gen(mo, rng)
            ctx.log(op, q)
            before = seen(node.tree())
            a = node.call(names.get(op, op), q=q)
            ctx.log("->", a.success, a.error_message)
            new = mo.copy()
            ok = effect(new, q, a)
            ctx.count(f"{op} {'ok' if a.success else 'refused'}")
            ctx.sig(op, a.success, len(mo.nodes))
            if ok is not None and ok != a.success:
                raise Violation(f"edit/{op}/answer", f"{op}: success={a.success} {a.error_message!r}, possible: {ok}", repr(q)[:2000])
            now = seen(node.tree())
            if not a.success:
                same_tree(before, now, f"{op} was refused but changed the tree")
                continue
            if ok is None:
                return
            same_tree(new, now, f"{op} through the service")
            mo = new
        # what is saved is what is published, and comes back
        if mo.nodes:
            a = node.call("save_tree", storage_path=d, filepath="saved.yaml", tree=node.tree(), allow_overwrite=True)
            if not a.success or not os.path.isfile(os.path.join(d, "saved.yaml")):
                raise Violation("edit/save", f"saving to the configured storage: {a}, {os.listdir(d)}")
            if not node.call("clear").success or node.tree().nodes:
                raise Violation("edit/clear", "clear")
            a = node.call("load_tree_from_path", path="file://" + os.path.join(d, "saved.yaml"))
            if not a.success:
                raise Violation("edit/load-saved", f"the saved tree is refused: {a.error_message}")
            back = seen(node.tree())
            back.name = mo.name
            same_tree(mo, back, "load_tree_from_path of the saved tree")
            ctx.count("saved")

    simulate(ctx, params(d), script, p_switch=0.0)


# ---- running through the services


def run(ctx, d):
    rng = ctx.rng
    hz = rng.choice([10.0, 4.0])
    p = params(d)
    p.diagnostics_frequency_hz = rng.choice([1.0, 0.5, 4.0])
    msgs = [None]
    while any(x is None or not x.child_ids and x.node_class != "ScriptLeaf" for x in msgs):
        vleaf.BEHAVIOUR.clear()
        msgs = xm.tree_msgs(rng, 0)
    levels = {"debug": 10, "info": 20, "warn": 30, "err": 40}
    said = []
    for label, b in vleaf.BEHAVIOUR.items():
        what = rng.choice([None, *levels])
        if what:
            b.on_tick = lambda n, what=what, label=label: (said.append((what, label)), getattr(n, "log" + what)(f"said {what} {label}"))
    want = {"level": 20, "diag": False, "data": False}

    def script(node, s):
        alive = lambda: any(not t.finished for t in s.threads)  # noqa: E731
        rate = hz
        r = node.call("load_tree", tree=TreeStructure(name="run", tick_frequency_hz=hz, nodes=msgs))
        if not r.success:
            raise Violation("run/load", f"valid tree refused: {r.error_message}")
        root = [m for m in msgs if not any(m.node_id in x.child_ids for x in msgs)][0]
        timers(ctx, node, p)
        other = {"stop": False, "gone": False}

        def others():
            """What the other threads of the executor do meanwhile."""
            try:
                while not other["stop"]:
                    for _ in range(rng.randint(1, 30)):
                        s.point(force=True)
                    if rng.random() < 0.6:
                        rng.choice(list(node.timers_)).callback()
                        ctx.count("fired")
                    else:
                        k = rng.choice(["get_subtree", "get_available_nodes", "get_storage_folders", "get_subtree", "generate_subtree"])
                        a = node.call(k, **({"root_id": root.node_id} if k == "get_subtree" else {"node_ids": [root.node_id]} if k == "generate_subtree" else {}))
                        if k == "get_subtree" and (not a.success or sorted(n.node_id for n in a.subtree.nodes) != sorted(m.node_id for m in msgs)):
                            raise Violation("run/subtree", f"get_subtree of the root answers {a.success} {a.error_message} {[n.name for n in a.subtree.nodes]}")
                        ctx.count("asked")
            except Exception as e:
                if isinstance(e, Violation):
                    raise
                raise Violation(f"run/raises-{type(e).__name__}", f"a timer raised {type(e).__name__}: {e}") from e
            finally:
                other["gone"] = True

        if rng.random() < 0.6:
            s.spawn(others, "others")
        else:
            other["gone"] = True
        state = TreeState.EDITABLE
        for _ in range(rng.randint(5, 12)):
            if rng.random() < 0.5:
                k = rng.choice(["level", "diag", "data", "subtrees"])
                if k == "level":
                    want[k] = rng.choice(list(levels.values()))
                    node.call("set_log_level", min_log_level=want[k])
                else:
                    want[k] = rng.random() < 0.5
                    a = node.call({"diag": "debug/set_collect_node_diagnostics", "data": "debug/set_publish_data", "subtrees": "debug/set_publish_subtrees"}[k], data=want[k])
                    if not a.success:
                        raise Violation(f"run/switch/{k}", f"switching {k} to {want[k]} answers {a}")
                ctx.count(f"switch {k}")
            cmd = rng.choices(["once", "periodically", "result", "stop", "reset", "shutdown", "shutdown()"], [4, 4, 3, 2, 2, 2, 1])[0]
            log0, said0 = len(vleaf.LOG), len(said)
            marks = {k: len(node.sent(k)) for k in ("~/log_messages", "~/debug/node_diagnostics", "~/tree_data_list", "~/debug/tick_frequency")}
            ctx.log(cmd, state, dict(want))
            new_hz = rng.choice([0.0, 20.0, 2.5]) if cmd in ("periodically", "result") else 0.0
            before = len(node.sleeps)
            if cmd == "shutdown()":
                node.shutdown()
                ok = True
            else:
                a = node.call("control_tree_execution", command=xm.CMD[cmd], tick_frequency_hz=new_hz)
                ok = a.success
            if cmd in ("once", "periodically", "result") and not ok:
                raise Violation(f"run/{cmd}", f"{cmd} in state {state} answers {a}")
            if cmd in ("periodically", "result"):
                n = before + rng.randint(0, 4)
                s.block(lambda: not alive() or len(node.sleeps) > n)
                if cmd == "result" and rng.random() < 0.5:
                    s.block(lambda: not alive() or len(node.sleeps) > n + 30)
                rate = new_hz or rate
                if set(node.sleeps[before:]) - {rate}:
                    raise Violation("run/frequency", f"asked for {new_hz} Hz, should tick at {rate}, ticks at {set(node.sleeps[before:])}")
                if node.tree().tick_frequency_hz != rate:
                    raise Violation("run/published-frequency", f"ticks at {rate} Hz, published are {node.tree().tick_frequency_hz}")
                if alive():
                    a = node.call("control_tree_execution", command=xm.REQ.STOP)
                    if alive():
                        raise Violation("run/stop", f"stop answers {a} while nodes are still ticked")
                    if not a.success and cmd != "result":
                        raise Violation("run/stop", f"stop answers {a}")
                expected = TreeState.IDLE
            else:
                expected = {"once": TreeState.WAITING_FOR_TICK, "stop": TreeState.IDLE if state == TreeState.WAITING_FOR_TICK else state,
                            "reset": TreeState.IDLE, "shutdown": TreeState.EDITABLE,
                            "shutdown()": state if state in (TreeState.IDLE, TreeState.EDITABLE, TreeState.ERROR) else TreeState.EDITABLE}[cmd]
            new = vleaf.LOG[log0:]
            if cmd == "reset" and not ok:
                expected = state
                if state != TreeState.EDITABLE:
                    raise Violation("run/reset", f"reset in state {state} answers {a}")
            if alive():
                raise Violation("run/alive", f"nodes are ticked after {cmd}")
            if node.state() != expected:
                raise Violation(f"run/{cmd}/state", f"{cmd} in state {state}: published state is {node.state()}, expected {expected}")
            ticks = [e for e in new if e[0] == "tick"]
            if bool(ticks) > (cmd in ("once", "periodically", "result")) or (cmd in ("stop", "reset") and any(e[0] in ("setup", "shutdown") for e in new)):
                raise Violation(f"run/{cmd}/calls", f"{cmd} in state {state} called {new[:6]}")
            # what was asked for is published
            got = [(m.msg, m.level) for m in node.sent("~/log_messages")[marks["~/log_messages"]:] if m.msg.startswith("said ")]
            should = [(f"said {w} {x}", levels[w]) for w, x in said[said0:] if levels[w] >= want["level"]]
            if got != should:
                raise Violation("run/log", f"level {want['level']}: published {got[:5]}, said {should[:5]}")
            n = len(node.sent("~/debug/node_diagnostics")) - marks["~/debug/node_diagnostics"]
            calls_ = [e for e in new if e[0] in ("setup", "untick", "reset", "shutdown")]
            if (n > 0) > want["diag"] or (want["diag"] and calls_ and not n):
                raise Violation("run/diagnostics", f"{n} node diagnostics published for {calls_[:4]}, collecting: {want['diag']}")
            n = len(node.sent("~/tree_data_list")) - marks["~/tree_data_list"]
            if (n > 0) > want["data"] or (want["data"] and ticks and not n):
                raise Violation("run/data", f"{n} times data published for {len(ticks)} calls, publishing: {want['data']}")
            n = len(node.sent("~/debug/tick_frequency")) - marks["~/debug/tick_frequency"]
            if ticks and cmd != "once" and not n and len(node.sleeps) > before:
                raise Violation("run/tick-frequency", "no tick frequency is published")
            ctx.count("diagnosed", len(calls_) if want["diag"] else 0)
            ctx.count("data", n if want["data"] else 0)
            ctx.count("said", len(should))
            ctx.count("ticks", len(ticks))
            ctx.count(f"cmd {cmd}")
            ctx.sig(cmd, state, ok, tuple(want.values()), len(new))
            state = expected
            if cmd in ("once", "periodically", "result"):
                top = [x for x in node.late("~/tree_state_list").tree_states[-1].node_states if x.node_id == root.node_id]
                if len(top) != 1:
                    raise Violation("run/states", f"the state of the root is published {len(top)} times")
        other["stop"] = True
        s.block(lambda: other["gone"])
        timers(ctx, node, p)
        node.call("control_tree_execution", command=xm.REQ.SHUTDOWN)

    simulate(ctx, p, script)
    ctx.sample({"kind": "run", "nodes": [m.node_class for m in msgs], "said": len(said)})


def timers(ctx, node, p):
    """Fire what is due regularly."""
    due = {"/diagnostics": 1.0 / p.diagnostics_frequency_hz, "~/message_types": None, "~/packages": None, "~/message_channels": None}
    found = {}
    for t in list(node.timers_):
        if t.is_canceled():
            continue
        n = {k: len(node.sent(k)) for k in due}
        t.callback()
        for k in due:
            if len(node.sent(k)) > n[k]:
                found.setdefault(k, []).append(t.period)
    for k, period in due.items():
        if k not in found:
            raise Violation(f"timer/{k}", f"{k} is not published regularly")
        if period is not None and found[k] != [period]:
            raise Violation(f"timer/{k}", f"{k} is published every {found[k]} s, configured is {period}")
    x = node.sent("~/message_channels")[-1]
    if [(c.name, c.type) for c in x.topics] != [("/topic", "std_msgs/msg/String")] or [(c.name, c.type) for c in x.services] != [
            ("/service", "std_srvs/srv/SetBool"), ("/other", "std_srvs/srv/Empty")] or [(c.name, c.type) for c in x.actions] != [("/act", "example_interfaces/action/Fibonacci")]:
        raise Violation("timer/channels", f"published channels are {x}")
    ctx.count("timers")


# ---- everything else that is configured


def other(ctx, d):
    rng = ctx.rng
    stores = []
    for k in range(rng.randint(1, 3)):
        e = os.path.join(d, f"s{k}")
        if rng.random() < 0.85:
            os.mkdir(e)
            for j in range(rng.randint(0, 3)):
                with open(os.path.join(e, f"f{j}.yaml"), "w") as f:
                    f.write("x")
        stores.append(e)
    p = params(d)
    p.tree_storage_paths = stores
    name = f"c30mod_{rng.getrandbits(60):x}"
    lib = os.path.join(d, "lib")
    os.mkdir(lib)
    bad = rng.choice([None, "raise RuntimeError('x')\n", "def f(:\n", "import nothing_of_that_name\n"])
    with open(os.path.join(lib, name + ".py"), "w") as f:
        f.write("from ros_bt_py.node import Leaf, define_bt_node\nfrom ros_bt_py.node_config import NodeConfig\n"
                "from ros_bt_py.vendor.result import Ok\nfrom ros_bt_py.helpers import BTNodeState\n"
                "@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))\nclass Mine(Leaf):\n"
                + "".join(f"    def _do_{o}(self):\n        return Ok(BTNodeState.{r})\n" for o, r in
                          (("setup", "IDLE"), ("tick", "SUCCEEDED"), ("untick", "IDLE"), ("reset", "IDLE"), ("shutdown", "SHUTDOWN"))))
    mods = [name, "ros_bt_py.nodes"]
    if bad is not None:
        with open(os.path.join(lib, name + "_bad.py"), "w") as f:
            f.write(bad)
        mods.append(name + "_bad")
    if rng.random() < 0.3:
        mods.append("no.such.module")
    rng.shuffle(mods)
    p.node_modules = mods

    inner = cat.make(rng, cat.SHIPPED["Sequence"], name="inner")
    inner.node_id = em.uuid_to_ros(bt.make_uuid(rng))
    sub = write(d, "sub.yaml", TreeStructure(name="sub", tick_frequency_hz=10.0, nodes=[inner]))

    def script(node, s):
        r = node.call("add_node", parent_node_id=em.uuid_to_ros(em.NIL), node=cat.make(rng, cat.SHIPPED["Subtree"], values={"subtree_path": sub}))
        if not r.success:
            raise Violation("other/subtree", f"subtree refused: {r.error_message}")
        on = True
        for k in range(rng.randint(1, 4)):
            if k:
                on = rng.random() < 0.5
                r = node.call("debug/set_publish_subtrees", data=on)
                if not r.success:
                    raise Violation("other/subtree", f"switching subtrees to {on} answers {r}")
            node.call("change_tree_name", name=f"name{k}")
            names = [t.name for t in node.late("~/tree_structure_list").tree_structures]
            if len(names) != 1 + on or names[-1] != f"name{k}":
                raise Violation("other/subtree", f"publishing subtrees: {on}, published trees {names}")
            ctx.count("subtrees")
        if not node.call("clear").success:
            raise Violation("other/clear", "clear")
        a = node.call("get_available_nodes", node_modules=[])
        mine = [n for n in a.available_nodes if n.module == name]
        if not a.success or [n.node_class for n in mine] != ["Mine"]:
            raise Violation("other/modules", f"of the configured module {name} (all: {mods}) {mine} are available")
        r = node.call("add_node", parent_node_id=em.uuid_to_ros(em.NIL), node=NodeStructure(module=name, node_class="Mine", name="mine", max_children=0))
        if not r.success:
            raise Violation("other/add", f"a node of a configured module can't be added: {r.error_message}")
        r = node.call("control_tree_execution", command=xm.REQ.TICK_ONCE)
        if not r.success or [x.state for x in node.late("~/tree_state_list").tree_states[-1].node_states] != [bt.SUCC]:
            raise Violation("other/tick", f"ticking it answers {r}")
        a = node.call("get_storage_folders")
        if list(a.storage_folders) != stores:
            raise Violation("other/storage", f"configured {stores}, offered {a.storage_folders}")
        for e in stores:
            a = node.call("get_folder_structure", storage_folder=e, show_hidden=False)
            if os.path.isdir(e) and (not a.success or any(f not in a.storage_folder_structure for f in os.listdir(e))):
                raise Violation("other/folder", f"content of {e} is {os.listdir(e)}, answer {a}")
            ctx.count("folders")
        a = node.call("get_package_structure", package="no_such_package", show_hidden=False)
        if a.success or not a.error_message:
            raise Violation("other/package", f"structure of a package that doesn't exist: {a}")
        for k in ("~/message_types", "~/packages"):
            x = node.late(k)
            if x is None or k == "~/message_types" and not x.topics:
                raise Violation("other/lists", f"clients that come after the start get no {k}: {x}")
        timers(ctx, node, p)

    sys.path.insert(0, lib)
    importlib.invalidate_caches()
    try:
        simulate(ctx, p, script, rng.choice([0, 1]))
    finally:
        sys.path.remove(lib)
        for k in [k for k in sys.modules if k.startswith(name)]:
            del sys.modules[k]
        for k in [k for k in Node.node_classes if k.startswith(name)]:
            del Node.node_classes[k]
    ctx.count("modules", len(mods))
    ctx.sample({"kind": "other", "modules": mods, "stores": len(stores)})
