"""C28: logging, diagnostics and publishing report the truth and never change what a tree does."""
import contextlib
import copy
import io
import os
import random
import sys

import bt
import catalog as cat
import execmodel as xm
import sched as sc
import vleaf
from bt import FakeROSNode, Node
from bt import BTNodeState as S
from common import Violation

from ros_bt_py.debug_manager import DebugManager
from ros_bt_py.logging_manager import LoggingManager
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py.subtree_manager import SubtreeManager
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import BTLogMessage, TreeStructure
from std_srvs.srv import SetBool

PROPERTY = "C28"
LEVEL = "exploration"
RULE = "distinct by (tree, sequence of operations, results, states of the switches when each was entered and left) and by schedule in runs"
TIERS = {"quick": 900, "thorough": 40000}
FLOORS = {"trees": 500, "runs": 150, "diagnostics": 6000, "logs": 2700, "said": 600, "switched": 1800, "steps": 3800, "observations": 1800, "rates": 800, "slow": 330, "fast": 470, "statuses": 400}

OPS = ("setup", "tick", "untick", "reset", "shutdown")
LEVELS = {"debug": 10, "info": 20, "warn": 30, "err": 40, "fatal": 50}
ERR = LEVELS["err"]


def set_level(n):
    LoggingManager.set_min_log_level(srv.SetLogLevel.Request(min_log_level=n), srv.SetLogLevel.Response())


def case(ctx):
    set_level(20)
    said = io.StringIO()
    try:
        with contextlib.redirect_stdout(said):
            (nodes if ctx.rng.random() < 0.75 else runs)(ctx)
    finally:
        set_level(20)
    if said.getvalue():
        raise Violation("stdout", f"reports go to the standard output: {said.getvalue()[:200]!r}")


# ---- single operations on trees of nodes
class Tree:
    def __init__(self, msgs, kids, ros, **managers):
        self.nodes = [Node.from_msg(copy.deepcopy(m), ros, **managers).unwrap() for m in msgs]
        for i, ks in enumerate(kids):
            for k in ks:
                self.nodes[i].add_child(self.nodes[k]).unwrap()
        self.root = self.nodes[0]


def shape(rng):
    """Flow control over scripted leaves."""
    msgs, kids = [], []
    total = rng.choice([1, 2, 4, 7])

    def add(name, parent):
        if name is None:
            m = cat.make(rng, vleaf.ScriptLeaf, name=rng.choice(["a", "b", "lea f", "ü", ""]), values={"label": f"l{len(msgs)}"})
        else:
            m = cat.make(rng, cat.SHIPPED[name], name=rng.choice(["x", "y", "z z"]))
        m.node_id = uuid_to_ros(bt.make_uuid(rng))
        msgs.append(m)
        kids.append([])
        if parent is not None:
            kids[parent].append(len(msgs) - 1)

    add(rng.choice(xm.FLOW) if total > 1 else None, None)
    while len(msgs) < total:
        free = [i for i, m in enumerate(msgs) if m.max_children < 0 or m.max_children > len(kids[i])]
        if not free:
            break
        add(rng.choice(xm.FLOW) if rng.random() < 0.3 else None, rng.choice(free))
    return msgs, kids


def behaviours(msgs, seed, on_call, on_tick):
    """What the leaves do, the same for the same seed."""
    r = random.Random(seed)
    vleaf.BEHAVIOUR.clear()
    for m in msgs:
        if m.node_class != "ScriptLeaf":
            continue
        label = m.inputs[0].serialized_value.strip('"')
        w = r.choice([[4, 2, 3, 0.3], [4, 2, 3, 0]])
        p = r.choice([0, 0, 0.05])
        plan = {op: [("ERR" if r.random() < p else None) for _ in range(60)] for op in OPS}
        plan["tick"] = [r.choices([S.SUCCEEDED, S.FAILED, S.RUNNING, "ERR"], w)[0] for _ in range(60)]

        def stream(vals):
            def f(n):
                on_call()
                return vals[n % 60]
            return f

        vleaf.BEHAVIOUR[label] = vleaf.Behaviour(on_tick=on_tick, **{op: stream(plan[op]) for op in OPS})


def execute(t, script):
    """Results, states and calls of the leaves."""
    vleaf.LOG.clear()
    out = []
    for op in script:
        r = getattr(t.root, op)()
        out.append((op, str(r), [str(n.state) for n in t.nodes]))
    return out, list(vleaf.LOG)


def path(n):
    out = []
    while n is not None:
        out.insert(0, n.name)
        n = n.parent
    return out


def nodes(ctx):
    rng = ctx.rng
    msgs, kids = shape(rng)
    seed = rng.random()
    script = (["setup"] if rng.random() < 0.9 else []) + rng.choices(OPS, [0.7, 8, 1.5, 1.5, 0.7], k=rng.randint(2, 12))
    # nobody watches
    behaviours(msgs, seed, lambda: None, None)
    want = execute(Tree(msgs, kids, FakeROSNode()), script)

    # somebody does
    events, logs, expected = [], [], []
    on = {"diag": False, "level": 20}
    ros = FakeROSNode()

    def publish(m):
        if m.level < on["level"]:
            raise Violation("log/level", f"a message of level {m.level} is published although the minimum is {on['level']}: {m.msg}")
        logs.append(copy.deepcopy(m))

    d_cb = rng.choices([lambda m: events.append(("diag", copy.deepcopy(m))), None], [9, 1])[0]
    l_cb = rng.choices([publish, None], [9, 1])[0]
    debug = DebugManager(ros_node=ros, node_diagnostics_publish_callback=d_cb)
    logging = LoggingManager(ros_node=ros, publish_log_callback=l_cb)
    subs = SubtreeManager()
    tree_id, tree_name = None, ""
    if rng.random() < 0.8:
        tree_id, tree_name = bt.make_uuid(rng), rng.choice(["t", "my tree", "ä"])
        logging.set_tree_id(tree_id)
        logging.set_tree_name(tree_name)
    t = Tree(msgs, kids, ros, debug_manager=debug, logging_manager=logging, subtree_manager=subs)

    def switch():
        """What is reported changes, at whatever moment."""
        if rng.random() > 0.3:
            return
        x = rng.random()
        if x < 0.55:
            on["diag"] = rng.random() < 0.6
            if not debug.set_collect_node_diagnostics(SetBool.Request(data=on["diag"]), SetBool.Response()).success:
                raise Violation("switch", "switching diagnostics failed")
        elif x < 0.85:
            on["level"] = rng.choice([0, 10, 20, 20, 30, 40, 50])
            set_level(on["level"])
        elif x < 0.93:
            subs.set_publish_data(rng.random() < 0.5)
        else:
            subs.publish_subtrees = rng.random() < 0.5
        ros.clock.advance(0.25)
        ctx.count("switched")

    def say(node):
        switch()
        if rng.random() < 0.4:
            what = rng.choice(sorted(LEVELS))
            text = rng.choice(["hello", "", "ü\n%s {x}", "x" * 300])
            ctx.count("said")
            if LEVELS[what] >= on["level"]:
                expected.append((LEVELS[what], text, node, sys._getframe().f_lineno + 1, ros.clock.ns))
            getattr(node, "log" + what)(text)
        switch()

    for n in t.nodes:
        for op in OPS:
            def f(n=n, op=op, orig=getattr(n, op)):
                i = len(events)
                events.append(["enter", op, n, on["diag"], None, ros.clock.ns, path(n)])
                try:
                    r = orig()
                except Violation:
                    raise
                except Exception as e:
                    raise Violation(f"raises/{op}-{type(e).__name__}", f"{op} of {n} raised {type(e).__name__}: {e}; diagnostics were {'on' if events[i][3] else 'off'} "
                                    f"and are {'on' if on['diag'] else 'off'} now") from e
                if r.is_err() and ERR >= on["level"]:
                    expected.append((ERR, str(r.unwrap_err()), n, None, ros.clock.ns))
                events.append(["exit", op, n, on["diag"], events[i][3], ros.clock.ns, path(n)])
                return r

            setattr(n, op, f)
    behaviours(msgs, seed, switch, say)
    got = execute(t, script)
    ctx.count("trees")
    ctx.count("steps", len(script))
    for p, q in zip(want[0] + want[1], got[0] + got[1]):
        if p != q:
            raise Violation("differs/" + str(p[0]), f"unwatched: {p}, watched: {q}, in {[m.node_class for m in msgs]}, {script}")
    if len(want[1]) != len(got[1]):
        raise Violation("differs/calls", f"unwatched {len(want[1])} calls of leaves, watched {len(got[1])}")
    ctx.sig(tuple(m.node_class for m in msgs), tuple(str(x) for x in got[0][-1]), tuple((e[1], e[3], e[4]) for e in events if e[0] == "exit"))
    if d_cb is not None:
        judge_diagnostics(ctx, events)
    if l_cb is not None:
        judge_logs(ctx, logs, expected, t, tree_id, tree_name)


def judge_diagnostics(ctx, events):
    """An operation is reported when it starts and when it ends, if reports are on then."""
    stack = []
    for e in events:
        if e[0] == "enter":
            if stack and (stack[-1]["post"] or stack[-1]["e"][3] and not stack[-1]["pre"]):
                raise Violation("diagnostics/order", f"{e[1]} of {e[2].name} begins before the start or after the end of {stack[-1]['e'][1]} of its parent was reported")
            stack.append({"e": e, "pre": False, "post": False})
        elif e[0] == "diag":
            if not stack:
                raise Violation("diagnostics/unwanted", f"report outside of all operations: {e[1]}")
            top = stack[-1]
            phase = "pre" if top["e"][3] and not top["pre"] else "post"
            if top[phase]:
                raise Violation("diagnostics/twice", f"reported twice: {e[1]}")
            top[phase] = e[1]
            ctx.count("diagnostics")
        else:
            top = stack.pop()
            start, what = top["e"], f"{e[1]} of {e[2].name}"
            if start[3] and not top["pre"]:
                raise Violation("diagnostics/missing", f"the start of {what} isn't reported")
            if start[3] and e[3] and not top["post"]:
                raise Violation("diagnostics/missing", f"the end of {what} isn't reported")
            if top["post"] and not e[3]:
                raise Violation("diagnostics/unwanted", f"the end of {what} is reported though reports are off")
            for phase, x in (("pre", start), ("post", e)):
                if top[phase]:
                    report(phase.upper(), what, x, top[phase])


def report(phase, what, e, m):
    n = e[2]
    vals = {k.key: k.value for k in m.values}
    if m.name != n.name:
        raise Violation("diagnostics/name", f"{phase} {what}: reported as {m.name!r}")
    want = {"node_id": str(n.node_id), "module": type(n).__module__, "node_class": type(n).__name__, "path": str(e[6]), "state": f"{phase}_{e[1].upper()}"}
    for k, v in want.items():
        if vals.get(k) != v:
            raise Violation(f"diagnostics/{k}", f"{phase} {what}: {k} is {vals.get(k)!r} instead of {v!r}")
    if str(e[5]) not in vals.get("stamp", ""):
        raise Violation("diagnostics/stamp", f"{phase} {what} at {e[5]}: stamp is {vals.get('stamp')!r}")


def judge_logs(ctx, logs, expected, t, tree_id, tree_name):
    ids = {uuid_to_ros(n.node_id): n for n in t.nodes}
    k = 0
    for m in logs:
        ctx.count("logs")
        if m.node_id and (m.node_id not in ids or ids[m.node_id].name != m.node_name):
            raise Violation("log/node", f"message of unknown node {m.node_id} {m.node_name!r}: {m.msg}")
        if not m.node_id and m.node_name:
            raise Violation("log/node", f"message of no node, but of the name {m.node_name!r}: {m.msg}")
        if m.tree_name != tree_name or m.tree_id != (uuid_to_ros(tree_id) if tree_id else ""):
            raise Violation("log/tree", f"message of tree {m.tree_id} {m.tree_name!r}, not {tree_id} {tree_name!r}")
        if k < len(expected):
            level, text, node, line, ns = expected[k]
            if (m.level, m.msg, m.node_id) != (level, text, uuid_to_ros(node.node_id)):
                continue
            k += 1
            if m.stamp.sec * 10**9 + m.stamp.nanosec != ns:
                raise Violation("log/stamp", f"message of {ns} has the stamp {m.stamp}")
            if line is not None and (m.file, m.function, m.line) != (os.path.abspath(__file__), "say", line):
                raise Violation("log/place", f"message logged in {__file__} say:{line} is said to come from {m.file} {m.function}:{m.line}")
    if k < len(expected):
        raise Violation("log/missing", f"not published: {expected[k][:2]} of {expected[k][2].name!r}; published: {[(m.level, m.msg, m.node_name) for m in logs][-6:]}")


# ---- running trees
def runs(ctx):
    rng = ctx.rng
    vleaf.BEHAVIOUR.clear()
    vleaf.LOG.clear()
    MESSAGES.clear()
    ros = FakeROSNode()
    s = sc.Sched(rng, rng.choice([0.01, 0.05, 0.2]))
    ev = []  # ("tick", seconds), ("warn", message), ("rate", hz), ("sleep",)
    ros.sleep_hook = lambda rate: (ev.append(("sleep", rate.frequency)), ros.clock.advance(max(0.0, 1.0 / rate.frequency - last[0])), s.point(force=True))
    last = [0.0]
    shown = []
    hz0 = rng.choice([10.0, 1.0, 4.0])

    def logged(x):
        if x.level == 30 and not x.node_id:
            ev.append(("warn", x.msg))
        if tree and tree[0].state != xm.EDIT:
            ctx.count("logs of trees")
            if x.tree_name != tree[0].name:
                wrong.append(f"message {x.msg!r} of the tree {tree[0].name!r} is said to be of {x.tree_name!r}")

    tree, wrong = [], []
    with s.installed():
        logging = LoggingManager(ros_node=ros, publish_log_callback=logged)
        debug = DebugManager(ros_node=ros, node_diagnostics_publish_callback=lambda m: ctx.count("diagnostics"))
        m = TreeEditManager(
            ros_node=ros, name="run", tick_frequency_hz=hz0, logging_manager=logging, debug_manager=debug,
            publish_tree_structure_callback=lambda x: None, publish_tree_state_callback=lambda x: None, publish_tree_data_callback=lambda x: None,
            publish_diagnostic_callback=lambda x: shown.append((copy.deepcopy(x), m.state, m.name)),
            publish_tick_frequency_callback=lambda x: ev.append(("rate", x.data)))
        tree.append(m)
        timers = [x for x in ros.timers_ if x.alive] if hasattr(ros.timers_[0], "alive") else list(ros.timers_)
        name = rng.choice(["t.yaml", "t", "my tree.yml", ""])
        msgs = [cat.make(rng, vleaf.ScriptLeaf, name="leaf", values={"label": "l"})]
        msgs[0].node_id = uuid_to_ros(bt.make_uuid(rng))
        slow = rng.choice([0, 0.3])
        steady = [None]

        def tick(node):
            if steady[0] is not None:
                last[0] = steady[0]
            else:
                last[0] = rng.choice([0.0, 0.01, 0.2, 0.9]) if rng.random() >= slow else rng.choice([0.3, 2.0, 30.0])
            ev.append(("tick", last[0]))
            ros.clock.advance(last[0])

        ends = rng.randint(1, 12)
        vleaf.BEHAVIOUR["l"] = vleaf.Behaviour(tick=lambda n: S.SUCCEEDED if n % (ends + 1) == ends else S.RUNNING, on_tick=tick)
        r = m.load_tree(srv.LoadTree.Request(tree=TreeStructure(name=name, tick_frequency_hz=hz0, nodes=msgs)), srv.LoadTree.Response())
        if not r.success:
            raise Violation("load", r.error_message)
        state = {"done": False, "hz": []}
        root_name = ["leaf"]

        def client():
            for _ in range(rng.randint(1, 4)):
                hz = rng.choice([0.0, 2.0, 10.0])
                steady[0] = rng.choice([None, None, 0.01, 0.7, 3.0])
                cmd = rng.choice([xm.REQ.TICK_PERIODICALLY, xm.REQ.TICK_UNTIL_RESULT, xm.REQ.TICK_ONCE])
                ev.append(("start", hz or m.tick_frequency_hz if cmd != xm.REQ.TICK_ONCE else None))
                a = m.control_execution(xm.REQ(command=cmd, tick_frequency_hz=hz), srv.ControlTreeExecution.Response())
                if not a.success:
                    raise Violation("run/start", f"{cmd}: {a.error_message} (tree is {m.state})")
                n = sum(e[0] == "tick" for e in ev) + rng.choice([rng.randint(1, 6), 14])
                s.block(lambda: all(x.finished for x in s.threads) or sum(e[0] == "tick" for e in ev) >= n)
                a = m.control_execution(xm.REQ(command=rng.choice([xm.REQ.STOP, xm.REQ.SHUTDOWN])), srv.ControlTreeExecution.Response())
                s.block(lambda: all(x.finished for x in s.threads))
                if m.state == xm.ERROR:
                    raise Violation("run/error", f"the tree ended in the state ERROR: {a.error_message}; {ev[-5:]}")
                if rng.random() < 0.3:
                    if m.state != xm.EDIT:
                        m.control_execution(xm.REQ(command=xm.REQ.SHUTDOWN), srv.ControlTreeExecution.Response())
                    if rng.random() < 0.7:
                        m.change_tree_name(srv.ChangeTreeName.Request(name=rng.choice(["other.yaml", "other"])), srv.ChangeTreeName.Response())
                    else:
                        root_name[0] = ""
                        m.load_tree(srv.LoadTree.Request(tree=TreeStructure(name="lost", nodes=msgs + msgs)), srv.LoadTree.Response())
                timers[0].callback()
                array, st, nm = shown[-1]
                judge_status(array, st, nm or root_name[0])
                ctx.count("statuses")
            state["done"] = True

        def observer():
            for _ in range(rng.randint(5, 60)):
                if state["done"]:
                    return
                x = rng.random()
                if x < 0.4:
                    debug.set_collect_node_diagnostics(SetBool.Request(data=rng.random() < 0.6), SetBool.Response())
                elif x < 0.6:
                    m.set_publish_data(SetBool.Request(data=rng.random() < 0.5), SetBool.Response())
                elif x < 0.8:
                    m.set_publish_subtrees(SetBool.Request(data=rng.random() < 0.5), SetBool.Response())
                else:
                    before = m.state
                    timers[0].callback()
                    if before == m.state == shown[-1][1]:
                        judge_status(*shown[-1][:2])
                        ctx.count("statuses")
                ctx.count("observations")
                for _ in range(rng.randint(1, 40)):
                    s.point(force=True)

        s.spawn(client, "client")
        s.spawn(observer, "observer")
        s.run()
        if wrong:
            raise Violation("log/tree", wrong[0])
        ctx.count("runs")
        ctx.sig("schedule", s.history)
        for x in s.tasks:
            if x.error is not None:
                if x in s.threads:
                    raise Violation("run/thread-died", f"the tick thread ended with {type(x.error).__name__}: {x.error}") from x.error
                raise x.error
        if s.reason:
            raise Violation("run/stuck", f"{s.reason}; tree state {m.state}")
    judge_rates(ctx, ev, hz0)


MESSAGES = {}  # level -> message


def judge_status(array, st, nm=None):
    """The diagnostics of the tree in the given state and with the given name."""
    if len(array.status) != 1:
        raise Violation("status/number", f"{len(array.status)} statuses for one tree")
    x = array.status[0]
    level = b"\x00" if st == xm.TICKING else b"\x02" if st == xm.ERROR else b"\x01"
    got = x.level if isinstance(x.level, bytes) else bytes([x.level])
    if got != level:
        raise Violation("status/level", f"a tree in state {st} has the diagnostic level {x.level!r} {x.message!r}")
    if not x.message or any(x.message == v and k != level for k, v in MESSAGES.items()):
        raise Violation("status/message", f"a tree in state {st} has the diagnostic message {x.message!r}, others have {MESSAGES}")
    MESSAGES[level] = x.message
    if nm and x.name != os.path.splitext(nm)[0] and (x.name, nm) != ("", "UNKNOWN TREE"):
        raise Violation("status/name", f"the diagnostics of tree {nm!r} are published as {x.name!r}")


def judge_rates(ctx, ev, hz0):
    """The published frequency is an average of recent ones, and only slow ticks are complained about."""
    hz, seen = hz0, [hz0] * 10
    dur = warned = None
    for e in ev:
        if e[0] == "start":
            hz, dur, warned = e[1], None, False
        elif e[0] == "tick":
            dur, warned = e[1], False
        elif e[0] == "warn":
            if hz is not None and dur is not None:
                warned = e[1]
        elif e[0] == "rate" and hz is not None:
            seen.append(1 / max(dur, 1 / hz))
            ctx.count("rates")
            if not 0.999 * min(seen[-10:]) <= e[1] <= 1.001 * max(seen[-10:]):
                raise Violation("rate/value", f"published tick frequency is {e[1]} Hz, the frequencies so far are {seen[-12:]}")
        elif e[0] == "sleep" and hz is not None:
            if dur > 1.001 / hz and not warned:
                raise Violation("rate/silent", f"a tick took {dur} s at {hz} Hz, nobody was warned")
            if dur < 0.999 / hz and warned:
                raise Violation("rate/warning", f"a tick took {dur} s at {hz} Hz: {warned}")
            ctx.count("slow" if warned else "fast")
