"""C21: timed nodes follow the clock of ROS, and only that."""
import copy
import random

import bt
import catalog as cat
import check_C01_lifecycle as c01
import vtypes as vt
from bt import BROKEN, FAIL, IDLE, RUNNING, SHUT, SUCC, UNINIT, FakeROSNode
from common import Violation

PROPERTY = "C21"
LEVEL = "exploration"
RULE = "distinct by (classes in the tree, clock, operations with their results and elapsed times of its Wait nodes)"
TIERS = {"quick": 2500, "thorough": 80000}
FLOORS = {"tick": 9000, "waits": 2500, "wait exactly over": 150, "wait over": 700, "wait running": 900, "wait again after reset": 150, "wait on after untick": 100,
          "times": 900, "twin_steps": 12000, "clock moves during operations": 700, "clock starts at zero": 600, "set back": 200}

TIMED = [cat.SHIPPED[n] for n in ("Wait", "GetTimeNow", "Throttle", "ThrottleSuccess", "Service", "WaitForService", "Action", "TopicMemorySubscriber", "ServiceForSetType")
         if n in cat.SHIPPED]
SECONDS = [0.0, 0.05, 0.1, 0.3, 1.0, 3.0, 20.0, 0.001, 1e-9, 1.5, 100000.0]
STEPS = [0.0, 0.001, 0.05, 0.05, 0.1, 0.3, 1.0, 1.0, 3.0, 20.0, 1e-9, 100000.0]
DUR = {"Wait": "seconds_to_wait", "Throttle": "tick_interval", "ThrottleSuccess": "tick_interval"}
OPS = ("setup", "tick", "untick", "reset", "shutdown")


def ns(seconds):
    return int(round(seconds * 10**9))


class Clock:
    """A clock that may also move while it is looked at."""

    def __init__(self, start, steps):
        from rclpy.clock import ClockType

        self.ns, self.steps, self.i, self.clock_type = start, steps, 0, ClockType.ROS_TIME

    def now(self):
        from rclpy.time import Time

        self.i += 1
        if self.steps:
            self.ns += self.steps[self.i % len(self.steps)]
        return Time(nanoseconds=self.ns, clock_type=self.clock_type)

    def advance(self, seconds):
        self.ns += ns(seconds)


class Timed:
    """Watches a Wait or GetTimeNow node on its clock."""

    def __init__(self, ctx, node, clock, kind):
        self.ctx, self.node, self.clock, self.kind = ctx, node, clock, kind
        self.start = None
        self.was_reset = self.was_unticked = False
        for op in OPS:
            setattr(node, op, self.hook(op, getattr(node, op)))

    def hook(self, op, orig):
        def f(*a, **k):
            before, t0 = self.node.state, self.clock.ns
            r = orig(*a, **k)
            if op == "tick":
                if before not in (UNINIT, SHUT, BROKEN):
                    self.tick(r, t0, self.clock.ns)
            elif op == "setup" and before in (UNINIT, SHUT) and r.is_err():
                raise Violation(f"setup/{self.kind}", f"setup of {self.kind} in state {before} failed: {str(r)[:300]}", self.ctx.trace[-20:])
            elif r.is_ok():
                if op == "untick":
                    self.was_unticked = self.start is not None
                else:
                    self.was_reset = op == "reset" and self.start is not None
                    self.start = None
                    self.was_unticked = False
            return r
        return f

    def tick(self, r, t0, t1):
        ctx = self.ctx
        if r.is_err():
            raise Violation(f"error/{self.kind}", f"tick of {self.kind} failed: {str(r)[:300]}", ctx.trace[-20:])
        got = r.unwrap()
        if self.kind == "GetTimeNow":
            ctx.count("times")
            v = self.node.node_config.outputs["current_time"].get_value().unwrap()
            if got != SUCC or not t0 <= v.sec * 10**9 + v.nanosec <= t1 or not 0 <= v.nanosec < 10**9:
                raise Violation("now", f"GetTimeNow gave {got} and {v} in a tick between {t0} and {t1}", ctx.trace[-20:])
            return
        d = ns(self.node.node_config.inputs["seconds_to_wait"].get_value().unwrap())
        if self.start is None:
            self.start = (t0, t1)
            lo, hi = 0, t1 - t0
            if self.was_reset:
                ctx.count("wait again after reset")
        else:
            lo, hi = t0 - self.start[1], t1 - self.start[0]
        ctx.count("waits")
        if self.was_unticked:
            ctx.count("wait on after untick")
        may = set()
        if hi >= d:
            may.add(SUCC)
        if lo < d:
            may.add(RUNNING)
        if got not in may:
            raise Violation("wait", f"Wait for {d} ns answered {got} {lo}..{hi} ns after its first tick" + (", unticked since" if self.was_unticked else ""), ctx.trace[-30:])
        ctx.count("wait over" if got == SUCC else "wait running")
        if lo == hi == d:
            ctx.count("wait exactly over")
        ctx.log("wait", d, lo, hi, str(got))


def build(ctx):
    rng = ctx.rng
    msgs, kids = [], []
    total = rng.choice([1, 1, 2, 3, 5, 8])

    def new(cls, depth):
        name = cls.__name__
        vals = {DUR[name]: rng.choice(SECONDS)} if name in DUR else None
        m = cat.make(rng, cls, name=rng.choice("abc"), values=vals)
        m.node_id = str(bt.make_uuid(rng))
        msgs.append(m)
        kids.append([])
        at.append(depth)
        return len(msgs) - 1

    at = []
    flows = [c for c in TIMED if c._node_config.max_children != 0]
    leaves = [c for c in TIMED if c._node_config.max_children == 0]
    wait = [cat.SHIPPED["Wait"], cat.SHIPPED["Wait"], cat.SHIPPED["GetTimeNow"]]
    flow = lambda: rng.choice(flows if rng.random() < 0.4 else c01.FLOWS)
    leaf = lambda: rng.choice(wait if rng.random() < 0.5 else leaves if rng.random() < 0.7 else c01.LEAVES)
    new(flow() if total > 1 else leaf(), 0)
    for _ in range(total - 1):
        free = [i for i in range(len(msgs)) if at[i] < 3 and (msgs[i].max_children < 0 or len(kids[i]) < msgs[i].max_children)]
        if not free:
            break
        p = rng.choice(free)
        kids[p].append(new(flow() if rng.random() < 0.3 else leaf(), at[p] + 1))
    return msgs, kids


def case(ctx):
    rng = ctx.rng
    msgs, kids = build(ctx)
    names = [m.node_class for m in msgs]
    steps = rng.choice([None, None, [1], [0, 0, 50_000_000], [7, 1_000_000], [0, 300_000_000]])
    if steps:
        ctx.count("clock moves during operations")
    starts = [10**12, rng.choice([0, 0, 1, 10**18, 1_700_000_000_123_456_789, 2_000_000_000 * 10**9])]
    if starts[1] == 0:
        ctx.count("clock starts at zero")
    sides, watched = [], []
    for s in starts:
        ros = FakeROSNode()
        ros.clock = Clock(s, steps)
        x = c01.Side(msgs, kids, ros)
        if x.error:
            ctx.count("not_instantiable")
            return
        sides.append(x)
        for n in x.nodes:
            if type(n).__name__ in ("Wait", "GetTimeNow"):
                t = Timed(ctx, n, ros.clock, type(n).__name__)
                if x is sides[0] and t.kind == "Wait":
                    watched.append(t)
    a, b = sides
    specs = [c01.specs_of(n) for n in a.nodes]

    def fill(p):
        for i, sp in enumerate(specs):
            for k, s in sp.items():
                if s is None or rng.random() >= p:
                    continue
                v = rng.choice(SECONDS) if isinstance(s, (vt.Float, vt.Int)) and "second" in k or k in ("memory_delay",) else cat.small(rng, s)
                if v is None:
                    continue
                for x in sides:
                    if x.nodes[i].node_config.inputs[k].set_value(copy.deepcopy(v)).is_err():
                        x.nodes[i].node_config.inputs[k].set_value(copy.deepcopy(cat.small(random.Random(1), s)))

    history = []
    for step in range(rng.choice([6, 12, 20])):
        x = rng.random()
        if step == 0 or x > 0.97:
            what = "setup"
        elif x < 0.35:
            what = rng.choice(STEPS)
            left = [ns(w.node.node_config.inputs["seconds_to_wait"].get_value().unwrap()) - (a.ros.clock.ns - w.start[0]) for w in watched if w.start is not None]
            left = [t for t in left if t > 0]
            if left and not steps and rng.random() < 0.5:
                what = (rng.choice(left) + rng.choice([-1, 0, 0, 0, 1])) / 1e9
            if rng.random() < 0.05:
                what = -min(what, b.ros.clock.ns / 1e9, 20.0)
                ctx.count("set back")
        elif x < 0.43:
            what = "env"
        elif x < 0.48:
            what = "fill"
        else:
            what = rng.choice(["tick"] * 12 + ["untick"] * 2 + ["reset"] * 2 + ["shutdown"] * (rng.random() < 0.3))
        ctx.log(what)
        res = None
        if isinstance(what, float):
            for s in sides:
                s.ros.clock.advance(what)
        elif what == "env":
            c01.env(rng, sides)
        elif what == "fill":
            fill(0.5)
        else:
            seed = rng.random()
            rs = []
            for s in sides:
                random.seed(seed)
                rs.append(getattr(s.root, what)())
            p, q = rs
            ctx.count(what)
            res = str(p.ok()) if p.is_ok() else "error"
            if p.is_ok() != q.is_ok() or p.ok() != q.ok():
                raise Violation(f"shift/{what}", f"{what} of {names} answers {str(p)[:200]}, but {str(q)[:200]} with clocks that started at {starts}", ctx.trace[-30:])
            if what == "setup" and p.is_ok():
                fill(0.97)
        history.append((what, res))
        if a.ros.clock.ns - starts[0] != b.ros.clock.ns - starts[1]:
            raise Violation("shift/looks", f"{what} of {names}: the clocks were not looked at equally often", ctx.trace[-30:])
        for w, p, q in (("states", a.state(), b.state()), ("resources", a.alive(), b.alive()), ("flags", a.flags(), b.flags())):
            if p != q:
                raise Violation(f"shift/{w}", f"after {what} of {names}: {w} {p}, but {q} with clocks that started at {starts}", ctx.trace[-30:])
        for n, p, q in zip(names, a.outputs(), b.outputs()):
            if n == "GetTimeNow":
                continue
            for k in p:
                if not vt.same(p[k], q[k]):
                    raise Violation("shift/outputs", f"after {what}: output {k} of {n} is {p[k]!r}, but {q[k]!r} with clocks that started at {starts}", ctx.trace[-30:])
        ctx.count("twin_steps")
    ctx.sig(tuple(names), starts[1], str(steps), tuple(history))
