"""Independent reference model of the flow-control and decorator nodes, written
from their documentation, and the machinery that runs a real tree against it.

The model is a second, separate implementation: it shares nothing with the
code under test but the scripted behaviour of the leaves.
"""

import collections

import bt
import vleaf
from bt import BROKEN, FAIL, IDLE, PAUSED, RUNNING, SHUT, SUCC, UNINIT
from common import Violation

TERMINAL = (SUCC, FAIL)
DEAD = (UNINIT, SHUT, BROKEN)


class MErr(Exception):
    pass


class World:
    def __init__(self):
        self.now = 0  # virtual nanoseconds
        self.trace = []
        self.n = collections.Counter()


class MNode:
    """Common lifecycle of every node."""

    dynamic = ()  # keys of dynamic inputs

    def __init__(self, world, name, kids=(), **params):
        self.w, self.name, self.kids, self.p = world, name, list(kids), params
        self.state = UNINIT
        self.dyn = {k: None for k in self.dynamic}
        self.dyn_updated = {k: False for k in self.dynamic}

    # driver
    def set_dyn(self, key, value):
        if self.dyn[key] != value:
            self.dyn_updated[key] = True
        self.dyn[key] = value

    def _guarded(self, f):
        try:
            self.state = f()
        except MErr:
            self.state = BROKEN
            raise
        return self.state

    def setup(self):
        if self.state not in (UNINIT, SHUT):
            raise MErr
        for k in self.dynamic:
            self.dyn[k], self.dyn_updated[k] = None, True
        return self._guarded(self.do_setup)

    def tick(self):
        if self.state in DEAD:
            raise MErr
        if any(self.dyn[k] is None for k in self.dynamic):
            self.state = BROKEN
            raise MErr
        s = self._guarded(self.do_tick)
        for k in self.dynamic:
            self.dyn_updated[k] = False
        return s

    def untick(self):
        if self.state in DEAD:
            raise MErr
        return self._guarded(self.do_untick)

    def reset(self):
        if self.state in DEAD:
            raise MErr
        for k in self.dynamic:
            self.dyn_updated[k] = True
        return self._guarded(self.do_reset)

    def shutdown(self):
        if self.state not in (SHUT, UNINIT):
            self.do_shutdown()
        self.state = SHUT
        for k in self.kids:
            k.shutdown()

    # defaults: pass to all children
    def do_setup(self):
        for k in self.kids:
            k.setup()
        self.init()
        return IDLE

    def init(self):
        pass

    def on_untick(self):
        pass

    untick_state = IDLE

    def do_untick(self):
        s = self.untick_state
        for k in self.kids:
            r = k.untick()
            if s is None:
                return r
        self.on_untick()
        return s or IDLE

    def do_reset(self):
        for k in self.kids:
            k.reset()
        self.init()
        return IDLE

    def do_shutdown(self):
        pass

    def can_execute(self):
        return all(k.can_execute() for k in self.kids)

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    def shape(self):
        return (type(self).__name__, tuple(k.shape() for k in self.kids))


class MLeaf(MNode):
    def _call(self, op, default):
        before = self.state
        self.w.trace.append((op, self.label, before))
        stream = self.p["beh"].streams[op]
        if op in ("untick", "reset") and before == IDLE:
            return default
        n = self.w.n[(op, self.label)]
        self.w.n[(op, self.label)] += 1
        out = None if stream is None else stream(n)
        if out == "ERR":
            raise MErr
        return default if out is None else out

    def do_setup(self):
        return self._call("setup", IDLE)

    def do_tick(self):
        return self._call("tick", SUCC)

    def do_untick(self):
        return self._call("untick", IDLE)

    def do_reset(self):
        return self._call("reset", IDLE)

    def do_shutdown(self):
        self._call("shutdown", SHUT)

    def can_execute(self):
        u = self.p["beh"].utility
        return True if u is None else u.get("can_execute", False)


class MWait(MNode):
    untick_state = PAUSED

    def init(self):
        self.start = None

    def do_tick(self):
        if self.start is None:
            self.start = self.w.now
        done = (self.w.now - self.start) / 1e9 >= self.p["seconds"]
        return SUCC if done else RUNNING


class MSeq(MNode):
    stop = FAIL  # the child result that decides
    empty = SUCC
    memory = False

    def init(self):
        self.mem = 0

    def do_tick(self):
        if not self.kids:
            return self.empty
        if self.state in TERMINAL:
            self.mem = 0
            for k in self.kids:
                k.reset()
        for i, k in enumerate(self.kids):
            if self.memory and i < self.mem:
                continue
            s = k.tick()
            if s == RUNNING:
                self.mem = i
                return RUNNING
            if s == self.stop:
                for later in self.kids[i + 1:]:
                    later.untick()
                self.mem = 0
                return s
        self.mem = 0
        return FAIL if self.stop == SUCC else SUCC


class MSequence(MSeq):
    pass


class MMemorySequence(MSeq):
    memory = True

    def on_untick(self):
        self.mem = 0


class MFallback(MSeq):
    stop, empty = SUCC, FAIL


class MMemoryFallback(MFallback):
    memory = True  # kept over untick()


class MParallel(MNode):
    def tolerated(self):
        return len(self.kids) - self.p["needed"]

    def do_setup(self):
        if len(self.kids) < self.p["needed"]:
            raise MErr
        return super().do_setup()

    def do_tick(self):
        if self.state in TERMINAL:
            for k in self.kids:
                k.reset()
        for k in self.kids:
            if k.state not in TERMINAL:
                k.tick()
        ok = sum(k.state == SUCC for k in self.kids)
        bad = sum(k.state == FAIL for k in self.kids)
        if ok >= self.p["needed"]:
            res = SUCC
        elif bad > self.tolerated():
            res = FAIL
        else:
            return RUNNING
        for k in self.kids:
            if k.state not in TERMINAL:
                k.untick()
        return res

    def can_execute(self):
        if len(self.kids) < self.p["needed"]:
            raise MErr
        return super().can_execute()


class MParallelFailureTolerance(MParallel):
    def tolerated(self):
        return self.p["tolerate"]


class MNameSwitch(MNode):
    dynamic = ("name",)

    def key(self):
        return self.dyn["name"]

    def selected(self):
        for k in self.kids:
            if k.name == self.dyn["name"]:
                return k
        return None

    def do_tick(self):
        sel = self.selected()
        if sel is None:
            for k in self.kids:
                k.untick()
            return FAIL
        if self.state in TERMINAL:
            for k in self.kids:
                k.reset()
        for k in self.kids:
            if k is not sel:
                k.untick()
        return sel.tick()


class MEnumSwitch(MNameSwitch):
    dynamic = ("case",)

    def selected(self):
        names = [n for n, v in self.p["constants"].items() if v == self.dyn["case"]]
        hits = [k for k in self.kids if k.name.split(".")[-1] in names]
        return hits[0] if hits else None

    def can_execute(self):
        return True


class MDeco(MNode):
    untick_state = None  # whatever the child became
    empty = SUCC

    def do_tick(self):
        if not self.kids:
            return self.empty
        return self.deco(self.kids[0])

    def deco(self, k):
        return self.map(k.tick())

    def map(self, s):
        return s


class MIgnoreFailure(MDeco):
    def map(self, s):
        return SUCC if s == FAIL else s


class MIgnoreRunning(MDeco):
    empty = FAIL

    def map(self, s):
        if s == RUNNING:
            return SUCC if self.p["success"] else FAIL
        return s


class MIgnoreSuccess(MDeco):
    empty = FAIL

    def map(self, s):
        return FAIL if s == SUCC else s


class MInverter(MDeco):
    def map(self, s):
        return {SUCC: FAIL, FAIL: SUCC}.get(s, s)


class MUntilSuccess(MDeco):
    again = (FAIL,)

    def deco(self, k):
        s = k.tick()
        if s in self.again:
            k.reset()
            return RUNNING
        return s


class MRepeatIfFail(MUntilSuccess):
    untick_state = PAUSED


class MRepeatUntilFail(MUntilSuccess):
    untick_state = PAUSED
    again = (SUCC,)


class MRepeatAlways(MUntilSuccess):
    untick_state = PAUSED
    again = (SUCC, FAIL)


class MRetry(MDeco):
    untick_state = PAUSED

    def init(self):
        self.count = 0

    def deco(self, k):
        s = k.tick()
        if s == FAIL:
            if self.count < self.p["num"]:
                self.count += 1
                k.reset()
                return RUNNING
            self.count = 0
        return s


class MRepeat(MDeco):
    untick_state = PAUSED

    def init(self):
        self.count = 0

    def deco(self, k):
        s = k.tick()
        if s == SUCC and self.count < self.p["num"]:
            self.count += 1
            k.reset()
            return RUNNING
        return s


class MRepeatNoAutoReset(MRepeat):
    dynamic = ("reset",)

    def do_tick(self):
        if self.dyn["reset"]:
            self.count = 0
        if not self.kids or self.count >= self.p["num"]:
            return SUCC
        return self.deco(self.kids[0])

    def do_reset(self):
        if self.count < self.p["num"]:
            for k in self.kids:
                k.reset()
        return IDLE


class MOptional(MDeco):
    def do_setup(self):
        self.active = bool(self.kids) and self.kids[0].can_execute()
        if self.active:
            self.kids[0].setup()
        return IDLE

    def do_tick(self):
        return self.kids[0].tick() if self.active else SUCC

    def do_untick(self):
        return self.kids[0].untick() if self.active else IDLE

    def do_reset(self):
        return self.kids[0].reset() if self.active else IDLE

    def can_execute(self):
        for k in self.kids:
            k.can_execute()  # errors surface
        return True


class MWatch(MDeco):
    dynamic = ("watch",)

    def deco(self, k):
        if self.dyn_updated["watch"]:
            k.untick()
        return k.tick()


class MThrottle(MDeco):
    def do_setup(self):
        self.last, self.result = None, FAIL
        return super().do_setup()

    def do_tick(self):
        if self.last is None or (self.w.now - self.last) / 1e9 > self.p["seconds"]:
            for k in self.kids:
                s = k.tick()
                if s == RUNNING:
                    return s
                self.result, self.last = s, self.w.now
                k.reset()
        return self.result


class MThrottleSuccess(MDeco):
    def init(self):
        self.last = None

    def do_tick(self):
        if self.last is None or (self.w.now - self.last) / 1e9 > self.p["seconds"]:
            for k in self.kids:
                s = k.tick()
                if s == SUCC:
                    self.last = self.w.now
                return s
        return FAIL


# --------------------------------------------------------------------------
# real counterparts


def real_classes():
    from ros_bt_py.nodes import decorators as d, fallback as f, parallel as p
    from ros_bt_py.nodes import sequence as s
    from ros_bt_py.ros_nodes import enum_switch as e, throttle as t, wait as w

    return {
        MSequence: s.Sequence,
        MMemorySequence: s.MemorySequence,
        MFallback: f.Fallback,
        MMemoryFallback: f.MemoryFallback,
        MParallel: p.Parallel,
        MParallelFailureTolerance: p.ParallelFailureTolerance,
        MNameSwitch: f.NameSwitch,
        MEnumSwitch: e.EnumSwitch,
        MIgnoreFailure: d.IgnoreFailure,
        MIgnoreRunning: d.IgnoreRunning,
        MIgnoreSuccess: d.IgnoreSuccess,
        MInverter: d.Inverter,
        MUntilSuccess: d.UntilSuccess,
        MRepeatIfFail: d.RepeatIfFail,
        MRepeatUntilFail: d.RepeatUntilFail,
        MRepeatAlways: d.RepeatAlways,
        MRetry: d.Retry,
        MRepeat: d.Repeat,
        MRepeatNoAutoReset: d.RepeatNoAutoReset,
        MOptional: d.Optional,
        MWatch: d.Watch,
        MThrottle: t.Throttle,
        MThrottleSuccess: t.ThrottleSuccess,
        MWait: w.Wait,
        MLeaf: vleaf.ScriptLeaf,
    }


FLOW = [MSequence, MMemorySequence, MFallback, MMemoryFallback, MParallel,
        MParallelFailureTolerance, MNameSwitch, MEnumSwitch]
DECO = [MIgnoreFailure, MIgnoreRunning, MIgnoreSuccess, MInverter, MUntilSuccess,
        MRepeatIfFail, MRepeatUntilFail, MRepeatAlways, MRetry, MRepeat,
        MRepeatNoAutoReset, MOptional, MWatch, MThrottle, MThrottleSuccess]


def constants_of(cls):
    """Constants of a message class, by name (read off its definition)."""
    return {
        a: getattr(cls, a)
        for a in dir(type(cls))
        if a.isupper() and not a.startswith("_")
    }


class Gen:
    """Random tree: builds the model and the real tree side by side."""

    def __init__(self, rng, world, ros_node, flow, deco, p_deco=0.3, err=0.0,
                 max_depth=3, wait=0.05, mk=None):
        self.rng, self.w, self.ros = rng, world, ros_node
        self.flow, self.deco, self.p_deco, self.err = flow, deco, p_deco, err
        self.max_depth, self.p_wait = max_depth, wait
        self.counter = 0
        self.pairs = []  # (model, real)
        self.classes = real_classes()
        self.mk = mk or {}

    def stream(self, choices, weights):
        vals = self.rng.choices(choices, weights, k=48)
        return lambda n: vals[n % len(vals)]

    def leaf(self, name):
        r = self.rng
        style = r.random()
        if style < 0.2:
            w = (1, 0, 0)
        elif style < 0.35:
            w = (0, 1, 0)
        elif style < 0.6:
            w = (3, 2, 4)
        elif style < 0.8:
            w = (6, 1, 2)
        else:
            w = (1, 6, 2)
        e = self.err
        tick = self.stream(
            [SUCC, FAIL, RUNNING, "ERR"], [x * (1 - e) for x in w] + [e * sum(w)]
        )
        untick = self.stream(
            [IDLE, PAUSED, "ERR"], [0.75, 0.25, e if r.random() < 0.5 else 0]
        )
        reset = self.stream([IDLE, "ERR"], [1, e if r.random() < 0.3 else 0])
        setup = self.stream([IDLE, "ERR"], [1, e if r.random() < 0.3 else 0])
        util = {"can_execute": r.random() < 0.6} if r.random() < 0.3 else None
        return vleaf.Behaviour(tick, setup=setup, untick=untick, reset=reset, utility=util)

    def node(self, depth=0, name=None, kinds=None):
        r = self.rng
        self.counter += 1
        name = name or f"n{self.counter}"
        if kinds is None and (depth >= self.max_depth or r.random() < (0.0, 0.3, 0.5, 0.7, 0.9)[min(depth, 4)]):
            if r.random() < self.p_wait:
                return self.finish(MWait, name, [], {"seconds": r.choice([0.0, 0.1, 0.5, 1.5])})
            label = f"{name}#{self.counter}"
            vleaf.BEHAVIOUR[label] = beh = self.leaf(label)
            m = MLeaf(self.w, name, beh=beh)
            real = vleaf.ScriptLeaf(name=name, ros_node=self.ros)
            bt.set_input(real, "label", label)
            m.label = label
            self.pairs.append((m, real))
            return m, real
        if kinds is None:
            use_deco = self.deco and (not self.flow or r.random() < self.p_deco)
            kinds = self.deco if use_deco else self.flow
        K = r.choice(kinds)
        if issubclass(K, MDeco):
            nk = 0 if r.random() < 0.04 else 1
        else:
            nk = 0 if r.random() < 0.04 else r.choices([1, 2, 3, 4, 5], [1, 4, 5, 3, 1])[0]
        params, names = {}, [None] * nk
        if K in (MParallel, MParallelFailureTolerance):
            nk = max(nk, 1)
            names = [None] * nk
            params["needed"] = r.randint(1, nk) if r.random() < 0.97 else nk + 1
            if K is MParallelFailureTolerance:
                params["tolerate"] = r.randint(0, nk)
        elif K in (MRetry, MRepeat, MRepeatNoAutoReset):
            params["num"] = r.choice([0, 1, 1, 2, 3] if K is MRetry else [1, 1, 2, 3])
        elif K is MIgnoreRunning:
            params["success"] = r.random() < 0.5
        elif K in (MThrottle, MThrottleSuccess):
            params["seconds"] = r.choice([0.0, 0.1, 0.3, 1.0])
        elif K is MNameSwitch:
            names = [f"{name}_{i}" for i in range(nk)]
        elif K is MEnumSwitch:
            from ros_bt_py_interfaces.msg import EnumTest, NodeState, TreeState

            params["type"] = r.choice([EnumTest, NodeState, TreeState])
            params["constants"] = c = constants_of(params["type"])
            # at most one child per constant value
            byval = {}
            for n, v in c.items():
                byval.setdefault(v, []).append(n)
            vals = r.sample(list(byval), min(nk, len(byval)))
            names = [r.choice(byval[v]) for v in vals]
            names = [r.choice(["", f"p{self.counter}."]) + n for n in names]
            if r.random() < 0.1:
                names.append(f"other{self.counter}")
        kids = [self.node(depth + 1, nm) for nm in names]
        return self.finish(K, name, kids, params)

    def finish(self, K, name, kids, params):
        m = K(self.w, name, [k[0] for k in kids], **params)
        cls = self.classes[K]
        if K is MEnumSwitch:
            from ros_bt_py.data_types import RosComponentType

            real = cls(
                name=name,
                ros_node=self.ros,
                new_inputs={"ros_message_type": RosComponentType(value=params["type"])},
            )
        else:
            real = cls(name=name, ros_node=self.ros)
        for key, inp in (("needed", "needed_successes"), ("tolerate", "tolerate_failures"),
                         ("success", "running_is_success"),
                         ("num", "num_retries" if K is MRetry else "num_repeats"),
                         ("seconds", "seconds_to_wait" if K is MWait else "tick_interval")):
            if key in params:
                bt.set_input(real, inp, params[key])
        for _, k in kids:
            real.add_child(k).unwrap()
        self.pairs.append((m, real))
        return m, real


def norm(trace):
    """Ticks strictly in order; other calls between two ticks as a multiset.

    untick()/reset() of a leaf that is idle anyway has no effect and is not
    compared."""
    out, seg = [], []
    for op, label, before in trace:
        if op in ("untick", "reset") and before == IDLE:
            continue
        if op == "tick":
            out.append(tuple(sorted(seg)))
            seg = []
            out.append((op, label, before))
        else:
            seg.append((op, label, before))
    out.append(tuple(sorted(seg)))
    return out


class Lockstep:
    def __init__(self, ctx, gen, model, real, clock):
        self.ctx, self.gen, self.m, self.r, self.clock = ctx, gen, model, real, clock
        self.byname = gen.pairs
        vleaf.LOG.clear()
        self.w = gen.w

    def dynamic_pairs(self):
        return [(m, r) for m, r in self.byname if m.dynamic]

    def set_dyn(self, m, r, rng):
        for k in m.dynamic:
            if k == "reset":
                v = rng.random() < 0.3
            elif k == "watch":
                v = rng.choice(["a", "b", "c"])
            elif k == "name":
                v = rng.choice([x.name for x in m.kids] * 3 + ["nobody"])
            else:
                names = [x.name.split(".")[-1] for x in m.kids]
                c = m.p["constants"]
                vals = [c[n] for n in names if n in c] * 3 + [rng.choice(list(c.values()))]
                v = rng.choice(vals)
                if rng.random() < 0.05:
                    v = "none of them" if isinstance(v, str) else 4711
            bt.set_input(r, k, v)
            m.set_dyn(k, v)

    def op(self, name):
        """Run one operation on both; compare; returns False after an error."""
        ctx = self.ctx
        vleaf.LOG.clear()
        self.w.trace.clear()
        try:
            getattr(self.m, name)()
            want = ("ok", self.m.state)
        except MErr:
            want = ("err", None)
        res = getattr(self.r, name)()
        if not isinstance(res, (bt.Ok, bt.Err)):
            raise Violation("no-result", f"{name}() of {self.r.name} returned {res!r}, not a Result")
        got = ("ok", str(res.unwrap())) if res.is_ok() else ("err", None)
        ctx.log(name, got, list(vleaf.LOG))
        ctx.count("ops")
        ctx.count("ops_" + name)
        ctx.count("events", len(vleaf.LOG))
        ctx.count("comparisons")
        kind = type(self.r).__name__
        if got != want:
            raise Violation(
                f"result/{name}",
                f"{name}() of the tree answered {got}, its documented semantics give {want}"
                + (f" ({res.unwrap_err()})" if res.is_err() else ""),
                self.dump(),
            )
        if want[0] == "err":
            if name != "shutdown" and self.r.state != BROKEN and self.m.state == BROKEN:
                raise Violation(f"broken/{name}", "an error did not leave the tree's root BROKEN", self.dump())
            ctx.count("errors")
            return False
        a, b = norm(vleaf.LOG), norm(self.w.trace)
        if a != b:
            raise Violation(
                f"calls/{name}",
                f"{name}(): calls received by the leaves differ from the documented semantics\n got {a}\nwant {b}",
                self.dump(),
            )
        for m, r in self.byname:
            if str(r.state) != m.state:
                raise Violation(
                    f"state/{name}/{type(r).__name__}",
                    f"after {name}(): {type(r).__name__} {r.name} is {r.state}, documented semantics give {m.state}",
                    self.dump(),
                )
        ctx.sig(self.m.shape(), name, tuple(m.state for m, _ in self.byname))
        return True

    def resync(self):
        """After an error the amount of work already done is unspecified:
        shut everything down and start over with equal scripts."""
        res = self.r.shutdown()
        self.m.shutdown()
        for m, r in self.byname:
            if r.state != SHUT:
                raise Violation(
                    "shutdown-after-error",
                    f"after an error and shutdown() {type(r).__name__} {r.name} is {r.state}: {res}",
                    self.dump(),
                )
            if isinstance(m, MLeaf):
                for o, n in vleaf.BEHAVIOUR[m.label].n.items():
                    self.w.n[(o, m.label)] = n

    def dump(self):
        def d(n, ind=0):
            ins = {k: c.get_value().unwrap_or(None) for k, c in n.node_config.inputs.items()}
            return f"{' ' * ind}{type(n).__name__}({n.name}) {n.state} {ins}\n" + "".join(
                d(c, ind + 2) for c in n.children
            )

        return d(self.r)[:3000]


def run_program(ctx, flow, deco, p_deco, err, n_ops, max_depth=3, root_kinds=None):
    rng = ctx.rng
    vleaf.BEHAVIOUR.clear()
    ros = bt.FakeROSNode()
    clock = ros.get_clock()
    world = World()
    world.now = clock.now().nanoseconds
    gen = Gen(rng, world, ros, flow, deco, p_deco=p_deco, err=err, max_depth=max_depth)
    model, real = gen.node(0, kinds=root_kinds)
    ls = Lockstep(ctx, gen, model, real, clock)
    ctx.count("trees")
    ctx.count("nodes", len(gen.pairs))
    need_setup = True
    for m, _ in gen.pairs:
        if not isinstance(m, MLeaf):
            ctx.count("kind_" + type(m).__name__[1:])
    for step in range(n_ops):
        if need_setup:
            if not ls.op("setup"):
                ls.resync()
                continue
            for m, r in ls.dynamic_pairs():
                if rng.random() < 0.97:
                    ls.set_dyn(m, r, rng)
            need_setup = False
        x = rng.random()
        if x < 0.78:
            name = "tick"
            for m, r in ls.dynamic_pairs():
                if rng.random() < 0.35:
                    ls.set_dyn(m, r, rng)
            if rng.random() < 0.6:
                dt_s = rng.choice([0.01, 0.05, 0.1, 0.3, 1.0, 2.0])
                clock.advance(dt_s)
                world.now = clock.now().nanoseconds
        elif x < 0.87:
            name = "untick"
        elif x < 0.95:
            name = "reset"
        elif x < 0.98:
            name = "setup"  # illegal here: must be refused without effect
        else:
            name = "shutdown"
        if name == "setup":
            before = [r.state for _, r in gen.pairs]
            vleaf.LOG.clear()
            res = real.setup()
            if res.is_ok() or vleaf.LOG or before != [r.state for _, r in gen.pairs]:
                raise Violation("setup-twice", f"setup() of an initialised tree: {res}, calls {vleaf.LOG}", ls.dump())
            ctx.count("refused_setups")
            continue
        if not ls.op(name):
            if rng.random() < 0.3:
                # nothing of a broken tree may run any more
                for o in ("tick", "untick", "reset"):
                    vleaf.LOG.clear()
                    if real.state == BROKEN:
                        res = getattr(real, o)()
                        if res.is_ok() or vleaf.LOG:
                            raise Violation(f"broken-runs/{o}", f"{o}() of a BROKEN tree: {res}, calls {vleaf.LOG}", ls.dump())
                        ctx.count("broken_probes")
            ls.resync()
            need_setup = True
        elif name == "shutdown":
            need_setup = True
    if ctx.index % 97 == 0:
        ctx.sample({"tree": ls.dump()[:600], "ops": n_ops})
