"""C26: the utility bounds of a tree bound the cost of executing it."""
import itertools

import bt
import catalog as cat
import vleaf
import vtypes as vt
from bt import FakeROSNode, Node, S
from common import Violation
from rosnode import Rig
from ros_bt_py_interfaces.msg import UtilityBounds
from rclpy.qos import QoSDurabilityPolicy as DUR, QoSProfile, QoSReliabilityPolicy as REL
from rclpy.topic_endpoint_info import TopicEndpointInfo

import example_interfaces.action as ea
import example_interfaces.msg as em
import example_interfaces.srv as es

PROPERTY = "C26"
LEVEL = "exploration"
RULE = "distinct by (shape of the tree, which bounds the leaves lack, which leaves can't execute, lifecycle state) and, for leaves, by (class, connected, environment)"
TIERS = {"quick": 6000, "thorough": 200000}
FLOORS = {"trees": 3000, "runs": 30000, "unbounded": 500, "unable": 500, "lifecycle": 1500, "leaves": 1500, "available": 300, "errors": 30}
INF = float("inf")
SEQ, FB = ("Sequence", "MemorySequence"), ("Fallback", "MemoryFallback", "NameSwitch")
KINDS = {"seq": ["Sequence", "MemorySequence"], "fb": ["Fallback", "MemoryFallback"], "par": ["Parallel", "ParallelFailureTolerance"],
         "pass": ["IgnoreRunning", "Watch", "Throttle"], "opt": ["Optional"]}


def case(ctx):
    (tree if ctx.rng.random() < 0.75 else leaf)(ctx)


# ---------------------------------------------------------------- trees
class T:
    """kind, children; leaves: (can execute, {outcome: (lower or None, upper or None)})"""

    def __init__(self, kind, children=(), **kw):
        self.kind, self.children = kind, list(children)
        self.__dict__.update(kw)

    def shape(self):
        if self.kind == "leaf":
            return "L" if self.can else "x"
        return (self.cls[:4] + str(getattr(self, "need", "")), tuple(c.shape() for c in self.children))


def gen(rng, depth, loose):
    if depth == 0 or rng.random() < 0.25:
        b = {}
        for o in (True, False):
            lo = rng.randint(0, 9)
            hi = lo + rng.randint(0, 9)
            b[o] = [lo, hi]
            for i in (0, 1):
                if rng.random() < loose:
                    b[o][i] = None
        return T("leaf", can=rng.random() > loose / 2, b=b, err=rng.random() < loose / 8)
    kind = rng.choice(["seq", "seq", "fb", "fb", "par", "pass", "opt"])
    n = 1 if kind in ("pass", "opt") else rng.randint(0 if rng.random() < 0.1 else 1, 4)
    t = T(kind, [gen(rng, depth - 1, loose) for _ in range(n)], cls=rng.choice(KINDS[kind]))
    if kind in ("pass", "opt") and rng.random() < 0.05:
        t.children = []
    if kind == "par":
        t.need = rng.randint(1, max(1, n + (rng.random() < 0.1)))
        t.tol = n - t.need if t.cls == "Parallel" else rng.randint(0, max(0, n - 1))
    return t


def build(t, rng, ros, count):
    if t.kind == "leaf":
        label = f"l{count[0]}"
        count[0] += 1
        u = {"can_execute": t.can}
        for o, w in ((True, "success"), (False, "failure")):
            for i, s in ((0, "lower"), (1, "upper")):
                v = t.b[o][i]
                u[f"has_{s}_bound_{w}"] = v is not None
                u[f"{s}_bound_{w}"] = float(v) if v is not None else 0.0
        vleaf.BEHAVIOUR[label] = vleaf.Behaviour(tick=lambda i: rng.choice([S.SUCCEEDED, S.FAILED, S.RUNNING]), utility="ERR" if t.err else u)
        n = vleaf.ScriptLeaf(name=label, ros_node=ros)
        bt.set_input(n, "label", label)
        return n
    cls = cat.SHIPPED[t.cls]
    n = cls(name=f"n{rng.random()}", ros_node=ros)
    for k, v in (("needed_successes", getattr(t, "need", 0)), ("tolerate_failures", getattr(t, "tol", 0)), ("tick_interval", 0.5), ("running_is_success", False), ("watch", "w")):
        if k in n.node_config.inputs:
            bt.set_input(n, k, v)
    for c in t.children:
        r = n.add_child(build(c, rng, ros, count))
        assert r.is_ok(), r
    return n


class Unable(Exception):
    pass


class Refused(Exception):
    pass


def bounds(t):
    """{outcome: (lower or None, upper or None)} - by listing every way to get to the outcome."""
    if t.kind == "leaf":
        if t.err:
            raise Refused
        if not t.can:
            raise Unable
        return {o: tuple(t.b[o]) for o in t.b}
    if t.kind == "opt":
        if not t.children:
            return {True: (None, None), False: (None, None)}
        try:
            return bounds(t.children[0])
        except Unable:
            return {True: (None, None), False: (None, None)}
    if t.kind == "par" and len(t.children) < t.need:
        raise Refused
    if not t.children:
        if t.kind == "par":
            raise Refused
        return {True: (0, 0), False: (0, 0)}
    refused = unable = None
    cs = []
    for c in t.children:
        try:
            cs.append(bounds(c))
        except Unable as e:
            unable = unable or e
            if t.kind in ("seq", "fb"):
                raise
        except Refused as e:
            refused = refused or e
            if t.kind == "seq":
                raise Unable
            if t.kind == "fb":
                raise
    if refused:
        raise refused
    if unable:
        raise unable
    if t.kind == "pass":
        return cs[0]
    ways = {True: [], False: []}
    if t.kind in ("seq", "fb"):
        go_on = t.kind == "seq"
        for k in range(len(cs)):
            ways[not go_on].append([(c, go_on) for c in cs[:k]] + [(cs[k], not go_on)])
        ways[go_on].append([(c, go_on) for c in cs])
    else:
        for o, k in ((True, t.need), (False, t.tol + 1)):
            ways[o] = [[(c, o) for c in group] for group in itertools.combinations(cs, min(k, len(cs)))]
    return {o: (extreme(ways[o], 0), extreme(ways[o], 1)) for o in ways}


def extreme(ways, i):
    """Smallest lower / largest upper cost of the ways; None if some cost is unknown."""
    sums = [[c[o][i] for c, o in w] for w in ways]
    if any(None in s for s in sums):
        return None
    return (min if i == 0 else max)(sum(s) for s in sums)


def bounds_safe(t):
    try:
        return bounds(t), None
    except Unable:
        return None, "unable"
    except Refused:
        return None, "refused"


def run_cost(t, rng):
    """One execution: (outcome, lower cost, upper cost), None for a missing bound."""
    if t.kind == "leaf":
        o = rng.random() < 0.5
        return o, t.b[o][0], t.b[o][1]
    if t.kind in ("pass", "opt"):
        return run_cost(t.children[0], rng) if t.children else (True, 0, 0)
    lo = hi = 0
    for c in t.children:
        o, a, b = run_cost(c, rng)
        lo = None if lo is None or a is None else lo + a
        hi = None if hi is None or b is None else hi + b
        if o != (t.kind == "seq"):
            return o, lo, hi
    return t.kind == "seq", lo, hi


def kinds(t):
    yield t
    for c in t.children:
        yield from kinds(c)


def tree(ctx):
    rng = ctx.rng
    loose = rng.choice([0.0, 0.0, 0.05, 0.2])
    t = gen(rng, rng.randint(1, 3), loose)
    if t.kind == "leaf":
        t = T("seq", [t], cls="Sequence")
    vleaf.BEHAVIOUR.clear()
    vleaf.LOG.clear()
    ros = FakeROSNode()
    root = build(t, rng, ros, [0])
    ctx.count("trees")
    lacking = sum(v is None for x in kinds(t) if x.kind == "leaf" for o in x.b for v in x.b[o])
    phase = "new"
    for step in range(rng.randint(1, 3)):
        ops = len([x for x in vleaf.LOG])
        states = [str(n.state) for n in bt.walk(root)]
        try:
            r = root.calculate_utility()
        except Exception as e:
            raise Violation(f"raises/{t.cls}", f"calculate_utility raised {type(e).__name__}: {e} (tree {t.shape()})")
        if len(vleaf.LOG) != ops or [str(n.state) for n in bt.walk(root)] != states:
            raise Violation("effects", f"calculate_utility ran or changed nodes: {vleaf.LOG[ops:]}")
        judge(ctx, rng, t, r)
        ctx.sig(t.shape(), min(lacking, 3), phase)
        op = rng.choice(["setup", "tick", "reset", "untick", "shutdown"])
        getattr(root, op)()
        phase = op
        ctx.count("lifecycle")


def judge(ctx, rng, t, r):
    want, why = bounds_safe(t)
    show = f"(tree {t.shape()}, leaves {[x.b for x in kinds(t) if x.kind == 'leaf']})"
    if why == "refused":
        ctx.count("errors")
        if r.is_ok() and r.unwrap().can_execute:
            raise Violation("invalid", f"bounds {r} although a node can't calculate its own {show}")
        return
    if r.is_err():
        raise Violation("error", f"calculate_utility answered {r} {show}")
    u = r.unwrap()
    if why == "unable":
        ctx.count("unable")
        if u.can_execute:
            raise Violation("can-execute", f"the tree reports that it can be executed, but can't {show}")
        return
    if not u.can_execute:
        raise Violation("cannot-execute", f"every leaf can execute but the tree reports it can't {show}")
    for o, w in ((True, "success"), (False, "failure")):
        for i, s in ((0, "lower"), (1, "upper")):
            has, v = getattr(u, f"has_{s}_bound_{w}"), getattr(u, f"{s}_bound_{w}")
            x = want[o][i]
            if has and x is None:
                # a bound may only be given if no unknown cost is on any way to the outcome
                raise Violation("bound-claimed", f"{s} bound for {w} of {v} although a cost on the way is unknown {show}")
            if not has and x is not None:
                raise Violation("bound-missing", f"no {s} bound for {w}, expected {x} {show}")
            if not has:
                ctx.count("unbounded")
            elif abs(v - x) > 1e-9:
                raise Violation("bound", f"{s} bound for {w} is {v}, expected {x} {show}")
    if any(x.kind == "par" or x.kind == "opt" or (x.kind == "leaf" and (not x.can or x.err)) for x in kinds(t)):
        return
    for _ in range(30):
        o, lo, hi = run_cost(t, rng)
        w = "success" if o else "failure"
        ctx.count("runs")
        if lo is not None and getattr(u, f"has_lower_bound_{w}") and lo < getattr(u, f"lower_bound_{w}") - 1e-9:
            raise Violation("too-cheap", f"an execution ending in {w} may cost {lo}, below the lower bound {getattr(u, f'lower_bound_{w}')} {show}")
        if hi is not None and getattr(u, f"has_upper_bound_{w}") and hi > getattr(u, f"upper_bound_{w}") + 1e-9:
            raise Violation("too-expensive", f"an execution ending in {w} may cost {hi}, above the upper bound {getattr(u, f'upper_bound_{w}')} {show}")


# ---------------------------------------------------------------- leaves
FULL = UtilityBounds(can_execute=True, has_lower_bound_success=True, has_upper_bound_success=True, has_lower_bound_failure=True, has_upper_bound_failure=True)
TOPICS = {"/top_a": "/top_a", "/top_b": "/top_b", "top_a": "/top_a"}


def leaf(ctx):
    rng = ctx.rng
    kind = rng.choice(["Service", "Action", "TopicSubscriber", "TopicMemorySubscriber", "other"])
    ros = FakeROSNode()
    name = rng.choice(sorted(TOPICS))
    values = {"topic_name": name, "service_name": name, "action_name": name, "reliable": rng.random() < 0.5, "transient_local": rng.random() < 0.5, "depth": rng.choice([1, 5])}
    types = {"service_type": es.Trigger, "action_type": ea.Fibonacci, "topic_type": rng.choice([em.String, em.Int32, em.VerifMix])}
    if kind == "other":
        kind = rng.choice(sorted(k for k, c in cat.SHIPPED.items() if "_do_calculate_utility" not in vars(c) and c._node_config.max_children == 0
                                 and not any("_do_calculate_utility" in vars(b) for b in c.__mro__[1:] if b.__name__ not in ("Node", "Leaf", "Decorator")) and not c._node_config.optional_options
                                 ) if hasattr(next(iter(cat.SHIPPED.values()))._node_config, "optional_options") else ["Constant", "Compare", "RandomInt", "ListLength", "Wait"])
        values, types = None, None
    rig = Rig(ctx, cat.SHIPPED[kind], types=types, static=True if types else None, values=values, ros=ros)
    for step in range(rng.randint(1, 6)):
        for n in set(TOPICS.values()) | set(TOPICS):
            ros.services_ready[n] = rng.random() < 0.5
        ros.endpoints.clear()
        match = False
        if kind.startswith("Topic"):
            for n in ("/top_a", "/top_b"):
                for _ in range(rng.choice([0, 1, 1, 2])):
                    mt = types["topic_type"] if rng.random() < 0.6 else rng.choice([em.String, em.Int32, em.VerifMix])
                    q = [values["reliable"], values["transient_local"], values["depth"]] if rng.random() < 0.7 else [rng.random() < 0.5, rng.random() < 0.5, 1]
                    qos = QoSProfile(reliability=REL.RELIABLE if q[0] else REL.BEST_EFFORT, durability=DUR.TRANSIENT_LOCAL if q[1] else DUR.VOLATILE, depth=q[2])
                    ros.endpoints.setdefault(n, []).append(TopicEndpointInfo(node_name="x", topic_type=f"example_interfaces/msg/{mt.__name__}", qos_profile=qos))
                    if n == TOPICS[name] and mt is types["topic_type"]:
                        match = "same" if q == [values["reliable"], values["transient_local"], values["depth"]] else match or "type"
        connected = bool([x for x in ros.alive_resources()])
        try:
            r = rig.node.calculate_utility()
        except Exception as e:
            rig.bad(f"raises-{type(e).__name__}", f"calculate_utility raised {type(e).__name__}: {e} (publishers {ros.endpoints})")
        ctx.count("leaves")
        if r.is_err():
            rig.bad("error", f"calculate_utility answered {r}")
        u = r.unwrap()
        if kind in ("Service", "Action"):
            if connected:
                want = ros.services_ready[name]
            else:
                want = False
            if u.can_execute != want or (want and u != FULL):
                rig.bad("bounds", f"{u}, server ready: {ros.services_ready[name]}, connected: {connected}")
        elif kind.startswith("Topic"):
            if match == "same" and u != FULL or not match and u.can_execute or u.can_execute and u != FULL:
                rig.bad("bounds", f"{u}, publisher of the topic and type: {match}, publishers {ros.endpoints}")
            want = match == "same"
        else:
            want = True
            if u != FULL:
                rig.bad("bounds", f"{u} of a node without own cost")
        ctx.count("available", 1 if want else 0)
        ctx.sig(kind, connected, want, str(match), str(rig.node.state))
        if kind in ("Service", "Action") or kind.startswith("Topic"):
            op = rng.choice(["setup", "tick", "tick", "tick", "untick", "reset", "shutdown"])
            if op == "setup" and str(rig.node.state) not in (bt.UNINIT, bt.SHUT):
                op = "tick"
            if op == "shutdown" and str(rig.node.state) == bt.UNINIT:
                op = "setup"
            getattr(rig.node, op)()
            if str(rig.node.state) == bt.UNINIT and rng.random() < 0.7:
                rig.node.setup()
            for k in rig.dyn:
                if k == "order":
                    rig.ci[k].set_value(3)
