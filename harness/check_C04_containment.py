"""C04: no background activity, and errors stay contained, for every tree and history.

Invariant monitor (no reference model): after every operation on the root the
states of all nodes and the calls the leaves received are checked.
"""
import bt
import flowmodel as fm
import vleaf
from bt import BROKEN, FAIL, IDLE, PAUSED, RUNNING, SHUT, SUCC, UNINIT
from common import Violation

PROPERTY = "C04"
LEVEL = "exploration"
RULE = (
    "random trees over all flow-control and decorator nodes, leaves that fail at "
    "random in any of their five callbacks, random operation sequences; after "
    "every operation the whole tree's states and the leaf calls are checked; a "
    "behaviour is distinct if (tree shape, operation, outcome, states) is new"
)
TIERS = {"quick": 3000, "thorough": 80000}
FLOORS = {"checks": 20000, "errors": 500, "shutdown_errors": 50, "terminal_ticks": 1000}


def exempt_running(node):
    """Nodes below which RUNNING may outlive a terminal result: IgnoreRunning
    reports a running child as finished, that is its purpose."""
    out = set()

    def rec(n, ex):
        if ex:
            out.add(id(n))
        for c in n.children:
            rec(c, ex or type(n).__name__ == "IgnoreRunning")

    rec(node, False)
    return out


def case(ctx):
    rng = ctx.rng
    vleaf.BEHAVIOUR.clear()
    vleaf.LOG.clear()
    ros = bt.FakeROSNode()
    clock = ros.get_clock()
    world = fm.World()
    err = rng.choice([0.0, 0.01, 0.04])
    gen = fm.Gen(rng, world, ros, fm.FLOW, fm.DECO, p_deco=0.45, err=err, max_depth=4)
    model, root = gen.node(0, kinds=fm.FLOW + fm.DECO)
    for m, r in gen.pairs:
        if isinstance(m, fm.MLeaf) and rng.random() < 0.2:
            p = rng.choice([0, 0.1, 0.5])
            vleaf.BEHAVIOUR[m.label].streams["shutdown"] = gen.stream(
                [SHUT, "ERR"], [1 - p, p]
            )
    nodes = [r for _, r in gen.pairs]
    parent_ok = exempt_running(root)
    ls = fm.Lockstep(ctx, gen, model, root, clock)
    shape = model.shape()

    def bad(key, msg):
        raise Violation(key, msg, ls.dump())

    def label(n):
        return n.node_config.inputs["label"].get_value().unwrap()

    def below(n):
        for c in n.children:
            yield c
            yield from below(c)

    def do(name):
        vleaf.LOG.clear()
        before = {id(n): n.state for n in nodes}
        res = getattr(root, name)()
        ctx.log(name, str(res)[:80], list(vleaf.LOG))
        if not isinstance(res, (bt.Ok, bt.Err)):
            bad("no-result", f"{name}() answered {res!r}")
        ctx.count("checks")
        ctx.count("leaf_calls", len(vleaf.LOG))
        ctx.sig(shape, name, res.is_ok(), tuple(n.state for n in nodes))
        illegal = before[id(root)] in (UNINIT, SHUT, BROKEN) if name != "setup" else before[
            id(root)
        ] not in (UNINIT, SHUT)
        if name == "shutdown":
            failed = []
            calls = {}
            for op, lab, b in vleaf.LOG:
                if op != "shutdown":
                    bad("shutdown-other-calls", f"shutdown() of the tree called {op}() of leaf {lab}")
                calls[lab] = calls.get(lab, 0) + 1
            for n in nodes:
                if n.state == BROKEN:
                    failed.append(n)
                elif n.state != SHUT:
                    bad("not-shutdown", f"{type(n).__name__} {n.name} is {n.state} after shutdown()")
                if type(n).__name__ == "ScriptLeaf":
                    want = 0 if before[id(n)] in (UNINIT, SHUT) else 1
                    if calls.get(label(n), 0) != want:
                        bad("shutdown-calls", f"shutdown() reached leaf {n.name} (was {before[id(n)]}) {calls.get(label(n), 0)} times")
            if res.is_ok() and root.state != SHUT:
                bad("shutdown-ok-state", f"shutdown() Ok but root {root.state}")
            for n in failed:
                if type(n).__name__ != "ScriptLeaf":
                    bad("not-shutdown", f"{type(n).__name__} {n.name} is BROKEN after shutdown()")
            if failed:
                ctx.count("shutdown_errors")
                if res.is_ok():
                    bad("shutdown-error-lost", "a leaf failed to shut down but the tree reported success")
            return res
        if illegal:
            if res.is_ok() or vleaf.LOG or any(before[id(n)] != n.state for n in nodes):
                bad(f"illegal-{name}", f"{name}() in state {before[id(root)]}: {res}, leaf calls {vleaf.LOG}")
            ctx.count("refused")
            return res
        if res.is_err():
            ctx.count("errors")
            if root.state != BROKEN:
                bad("error-not-broken", f"{name}() failed but the root is {root.state}")
            # an error is somebody's: it was raised by a node below, or by the
            # root itself (missing input / impossible option)
            for n in nodes:
                # whoever got an error from a child must be broken as well
                if n.state == BROKEN and n.parent is not None and before[id(n)] != BROKEN:
                    if n.parent.state != BROKEN:
                        bad("error-swallowed", f"{n.name} broke but its parent {n.parent.name} is {n.parent.state}")
            return res
        # success
        if name == "tick":
            if root.state not in (RUNNING, SUCC, FAIL):
                bad("tick-state", f"tick() left the root {root.state}")
            for n in nodes:
                if n.state in (SUCC, FAIL):
                    for d in below(n):
                        if d.state == RUNNING and id(d) not in parent_ok and type(n).__name__ != "IgnoreRunning":
                            bad(f"background/{type(d.parent).__name__}", f"{type(n).__name__} {n.name} is {n.state} but {d.name} below it is RUNNING")
            if root.state in (SUCC, FAIL):
                ctx.count("terminal_ticks")
            seen = [lab for op, lab, _ in vleaf.LOG if op == "tick"]
            for lab in set(seen):
                if seen.count(lab) > 1:
                    bad("ticked-twice", f"leaf {lab} ticked {seen.count(lab)} times in one tick")
            for n in nodes:
                if n.state == BROKEN:
                    bad("broken-hidden", f"{n.name} is BROKEN after a successful tick")
        elif name == "untick":
            if any(op == "tick" for op, _, _ in vleaf.LOG):
                bad("untick-ticks", "untick() ticked a leaf")
            if root.state not in (IDLE, PAUSED):
                bad("untick-state", f"untick() left the root {root.state}")
            for n in nodes:
                if n.state == RUNNING:
                    bad(f"background-untick/{type(n.parent).__name__}", f"{n.name} is RUNNING after untick() of the tree")
        elif name == "reset":
            if any(op == "tick" for op, _, _ in vleaf.LOG):
                bad("reset-ticks", "reset() ticked a leaf")
            for n in nodes:
                a = n
                keeps = False
                while a.parent is not None:
                    a = a.parent
                    keeps |= type(a).__name__ == "RepeatNoAutoReset"
                ok = (IDLE, PAUSED) if keeps else (IDLE,)
                if n.state not in ok and before[id(n)] != n.state or n.state == RUNNING:
                    bad("reset-state", f"{n.name} is {n.state} after reset()")
                if n.state in (SUCC, FAIL) and not keeps:
                    bad("reset-state", f"{n.name} is {n.state} after reset()")
        elif name == "setup":
            if any(op != "setup" for op, _, _ in vleaf.LOG):
                bad("setup-calls", f"setup() called {vleaf.LOG}")
            for n in nodes:
                if n.state not in (IDLE, UNINIT, SHUT):
                    bad("setup-state", f"{n.name} is {n.state} after setup()")
        return res

    for _ in range(35):
        s = root.state
        if s in (UNINIT, SHUT):
            name = rng.choices(["setup", "tick", "untick", "reset", "shutdown"], [20, 1, 1, 1, 1])[0]
        elif s == BROKEN:
            name = rng.choices(["shutdown", "tick", "untick", "reset", "setup"], [5, 1, 1, 1, 1])[0]
        else:
            name = rng.choices(["tick", "untick", "reset", "shutdown", "setup"], [30, 5, 3, 2, 1])[0]
        if rng.random() < 0.5:
            clock.advance(rng.choice([0.01, 0.1, 0.3, 1.0]))
        for m, r in ls.dynamic_pairs():
            if rng.random() < 0.5:
                ls.set_dyn(m, r, rng)
        do(name)
    # whatever happened, the tree can be shut down and started again
    for m, r in gen.pairs:
        if isinstance(m, fm.MLeaf):
            b = vleaf.BEHAVIOUR[m.label]
            b.streams.update(tick=lambda n: SUCC, setup=None, shutdown=None, untick=None, reset=None)
    do("shutdown")
    if any(n.state != SHUT for n in nodes):
        bad("stuck", "the tree cannot be shut down")
    res = do("setup")
    possible = all(
        len(r.children) >= m.p.get("needed", 0) for m, r in gen.pairs
    )
    if res.is_err() and possible:
        bad("no-restart", f"setup() after shutdown failed: {res}")
    if res.is_ok():
        ctx.count("restarts")
