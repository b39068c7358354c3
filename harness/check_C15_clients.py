"""C15: requests of concurrent clients take effect as if sent one after the other."""
import copy

import bt
import editmodel as em
import execmodel as xm
import sched as sc
from bt import FakeROSNode
from common import Violation
from ros_bt_py.node import Node
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import TreeState

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("random trees, two or three clients sending random edits (and, in half of the cases, execution commands) at the same "
        "time under a random schedule with switches at any line of the code under test; distinct by schedule and by the set of "
        "(request, answer, state before and after, overlap with others)")
TIERS = {"quick": 900, "thorough": 16000}
FLOORS = {"edits_ok": 1000, "edits_refused": 500, "overlaps": 1500, "commands": 700, "serialised": 500, "calls": 1000, "switches": 20000}
EDITS = {k: v for k, v in em.OPS.items() if k != "reload_tree"}
QUIET = ["Constant", "PassthroughNode", "StringConcatenation", "ListLength", "Wait", "RandomInt", "FormatString"]


class Op:
    def __init__(self, name, q, answer=None):
        self.name, self.q, self.a = name, q, answer
        self.start = self.end = None


class Watch:
    """No two threads inside the tree's nodes; the tree stays as it is while they are."""

    def __init__(self, ctx, s, m):
        self.ctx, self.s, self.m = ctx, s, m
        self.owner, self.depth, self.at = None, 0, None
        self.bad = None
        self.undo = []

    def shape(self):
        return {i: (id(n), tuple(id(c) for c in n.children), id(n.parent)) for i, n in self.m.nodes.items()}, [em.wkey(w) for w in self.m.wirings]

    def note(self, key, msg):
        if self.bad is None:
            self.bad = Violation(key, msg)

    def __enter__(self):
        w = self
        for op in ("setup", "tick", "untick", "reset", "shutdown"):
            orig = getattr(Node, op)

            def f(node, op=op, orig=orig):
                me = w.s.current
                if me is None or not w.s.live:
                    return orig(node)
                if w.owner not in (None, me):
                    w.note("overlap", f"{me.name} calls {op} of {node.name} while {w.owner.name} is in {w.at}")
                    return orig(node)
                outer = w.owner is None
                if outer:
                    w.owner, w.at = me, f"{op} of {node.name}"
                    w.ctx.count("calls")
                    before = w.shape() if me in w.s.threads else None
                try:
                    w.s.point(force=True)
                    return orig(node)
                finally:
                    if outer:
                        if before is not None and w.shape() != before:
                            w.note("changed-while-ticking", f"the tree changed during {w.at}")
                        w.owner = w.at = None

            self.undo.append((op, orig))
            setattr(Node, op, f)
        return self

    def __exit__(self, *a):
        for op, orig in self.undo:
            setattr(Node, op, orig)


def case(ctx):
    rng = ctx.rng
    ros = FakeROSNode()
    executing = rng.random() < 0.5
    s = sc.Sched(rng, rng.choice([0.005, 0.02, 0.1, 0.3]))
    s.live = False
    ros.sleep_hook = lambda rate: (ros.clock.advance(1.0 / rate.frequency), s.point(force=True))
    keep = em.LEAVES
    if executing:
        em.LEAVES = QUIET
    try:
        with s.installed():
            run(ctx, rng, ros, s, executing)
    finally:
        em.LEAVES = keep


def run(ctx, rng, ros, s, executing):
    m, out = em.new_manager(ros)
    mo = em.random_model(ros, rng, rng.randint(1, 6))
    a = m.load_tree(srv.LoadTree.Request(tree=em.tree_msg(mo, rng)), srv.LoadTree.Response())
    if not a.success:
        raise Violation("load", f"valid tree refused: {a.error_message}")
    clock = [0]
    ops = []

    def tick():
        clock[0] += 1
        return clock[0]

    def send(op):
        op.state = m.state
        op.start = tick()
        ops.append(op)
        if op.name == "control_execution":
            op.a = m.control_execution(copy.deepcopy(op.q), srv.ControlTreeExecution.Response())
        else:
            op.a = getattr(m, op.name)(copy.deepcopy(op.q), em.response_for(op.name))
            if op.a.success and op.name not in ("get_subtree", "generate_subtree") and w.owner is not None and w.owner is not s.current:
                w.note("edit-while-ticking", f"{op.name} succeeded while {w.owner.name} is in {w.at}")
        op.end = tick()
        op.after = m.state

    def client(k):
        names, weights = list(EDITS), [v[2] for v in EDITS.values()]
        for _ in range(rng.randint(2, 4)):
            if executing and rng.random() < (0.7 if k == 0 else 0.35):
                cmd = rng.choices(["once", "periodically", "result", "stop", "shutdown", "reset"], [3, 3, 2, 2, 4, 1])[0]
                send(Op("control_execution", xm.REQ(command=xm.CMD[cmd])))
                ops[-1].cmd = cmd
                ctx.count("commands")
            else:
                name = rng.choices(names, weights)[0]
                send(Op(name, EDITS[name][0](mo, rng)))

    with Watch(ctx, s, m) as w:
        s.live = True
        for k in range(rng.choice([2, 2, 3])):
            s.spawn(lambda k=k: client(k), f"client{k}")

        def closer():
            s.block(lambda: all(t.finished for t in s.tasks if t.name.startswith("client")))
            # whatever the clients did, the tree can be shut down and edited again
            for _ in range(2):
                r = m.control_execution(xm.REQ(command=xm.CMD["shutdown"]), srv.ControlTreeExecution.Response())
            s.block(lambda: all(t.finished for t in s.threads))
            if m.state != TreeState.EDITABLE:
                raise Violation("end", f"after shutdown (success={r.success} {r.error_message!r}) the tree is {m.state}")

        s.spawn(closer, "closer")
        s.run()
    ctx.count("switches", s.switches)
    ctx.sig("schedule", s.history)
    story = [(o.name if o.name != "control_execution" else getattr(o, "cmd", "?"), o.a and o.a.success, o.start, o.end) for o in ops]
    ctx.log(story)
    if w.bad:
        raise Violation(w.bad.key, f"{w.bad}; requests {story}")
    for t in s.tasks:
        if t.error is not None:
            if isinstance(t.error, Violation):
                raise t.error
            raise Violation(f"raises/{type(t.error).__name__}", f"{t.name} ended with {type(t.error).__name__}: {t.error}; requests {story}") from t.error
    if s.reason:
        raise Violation("stuck", f"{s.reason}; tree state {m.state}; requests {story}")
    judge(ctx, m, mo, out, ops, story)


def judge(ctx, m, mo, out, ops, story):
    edits = []
    for o in ops:
        over = [p for p in ops if p is not o and p.start < o.end and o.start < p.end]
        ctx.count("overlaps", bool(over))
        ctx.sig(o.name, o.a.success, o.state, o.after, len(over))
        if o.name == "control_execution":
            continue
        ctx.count("edits_ok" if o.a.success else "edits_refused")
        cmds = [p for p in over if p.name == "control_execution"]
        o.locked = bool(cmds) or o.state != TreeState.EDITABLE or o.after != TreeState.EDITABLE
        if o.name not in ("get_subtree", "generate_subtree") and not cmds and o.state == o.after != TreeState.EDITABLE and o.a.success and not any(p.name == "control_execution" and p.end > o.start for p in ops[:ops.index(o)]):
            # a run may still end on its own, but never into the editable state
            raise Violation("edit-while-running", f"{o.name} succeeded while the tree was {o.state}; requests {story}")
        edits.append(o)
    em.well_formed(m, "all requests")
    if out["structures"]:
        em.check_published(m, out, "all requests")
    shown = [x for x in out["states"][-1].tree_states][-1].state
    if shown != m.state:
        raise Violation("published-state", f"the tree is {m.state}, published is {shown}")
    final = em.snap(m)
    budget = [300]

    def search(model, left):
        if not left:
            return model.state() == final
        for o in left:
            if any(p.end < o.start for p in left):
                continue
            budget[0] -= 1
            if budget[0] < 0:
                return None
            if not o.a.success and o.locked:
                if search(model, [p for p in left if p is not o]) is not False:
                    return True
                continue
            new = model.copy()
            try:
                ok = EDITS[o.name][1](new, o.q, o.a)
            except Violation:
                continue
            if ok is not None and bool(ok) != o.a.success:
                continue
            if search(new if o.a.success and ok else model, [p for p in left if p is not o]) is not False:
                return True
        return False

    r = search(mo, sorted(edits, key=lambda o: o.end))
    if r is False:
        raise Violation("not-serialisable", f"no order of the requests explains the answers {[(o.name, o.a.success, o.a.error_message[:60]) for o in edits]} "
                        f"and the tree {em.diff(mo.state(), final)}; requests {story}")
    ctx.count("serialised" if budget[0] >= 0 else "undecided")
    ctx.sample({"requests": [x[0] for x in story], "nodes": len(m.nodes)})
