"""C19: topic and parameter nodes hand on exactly what arrived, on the topics and with the QoS of their inputs."""
import copy
import threading
import types

import bt
import catalog as cat
import sched as sc
import vtypes as vt
from bt import FAIL, IDLE, RUNNING, SUCC, FakeROSNode
from common import Violation
from rosnode import Rig, message
from rclpy.qos import QoSDurabilityPolicy as DUR, QoSReliabilityPolicy as REL

import example_interfaces.msg as em

PROPERTY = "C19"
LEVEL = "exploration"
RULE = "distinct by (class, message type, preceding operation, what is new, deliveries since, outcome); concurrent cases by schedule"
TIERS = {"quick": 3000, "thorough": 150000}
FLOORS = {"deliveries": 3000, "received": 2000, "unheard": 800, "resubscribed": 1000, "expired": 300, "published": 2000, "unchanged": 1000, "params": 800,
          "tick": 14000, "concurrent_ticks": 3000, "concurrent_deliveries": 2000, "overlaps": 1000, "switches": 8000}
NAMES = ["/top_a", "/top_b", "top_c"]
TYPES = [em.String, em.Int32, em.VerifMix]
QOS = ["topic_name", "reliable", "transient_local", "depth"]


def case(ctx):
    ctx.rng.choice([subscriber, subscriber, concurrent, concurrent, publisher, publisher, param])(ctx)


def value(rng, k):
    return {"topic_name": lambda: rng.choice(NAMES), "depth": lambda: rng.choice([1, 1, 2, 10]), "memory_delay": lambda: rng.choice([0.0, 0.5, 2.0, 30.2])}.get(k, lambda: rng.random() < 0.5)()


def build(ctx, name, ros=None, all_static=False):
    rng = ctx.rng
    cls = cat.SHIPPED[name]
    mt = rng.choice(TYPES)
    static = {k: rng.random() < 0.4 or all_static for k in QOS}
    static["message"] = False
    values = {k: value(rng, k) for k in cls._node_config.inputs if k not in ("topic_type", "message")}
    rig = Rig(ctx, cls, types={"topic_type": mt}, static=static, values=values, ros=ros)
    return rig, mt


def check_endpoint(rig, mt, what, found):
    """Exactly one endpoint, as the inputs say."""
    if len(found) != 1:
        rig.bad("endpoints", f"{len(found)} {what}s: {[e.topic for e in found]}")
    e, c = found[0], rig.cur
    if e.topic != c["topic_name"] or e.msg_type is not mt:
        rig.bad("topic", f"{what} of {e.topic} ({e.msg_type}), expected {c['topic_name']} ({mt})")
    q = e.qos_profile
    got = (q.reliability, q.durability, q.depth)
    want = (REL.RELIABLE if c["reliable"] else REL.BEST_EFFORT, DUR.TRANSIENT_LOCAL if c["transient_local"] else DUR.VOLATILE, c["depth"])
    if got != want:
        rig.bad("qos", f"{what} has QoS {got}, expected {want}")


def subs(ros):
    return [s for s in ros.subscriptions_ if s.alive]


def pubs(ros):
    return [p for p in ros.publishers_ if p.alive]


def feed(rig, p_first=0.98, p_new=0.08, skip=()):
    rng = rig.rng
    for k in rig.dyn:
        if k in skip:
            continue
        if k not in rig.cur and rng.random() < p_first or k in rig.cur and rng.random() < p_new:
            rig.set(k, value(rng, k), flag=rng.random() < 0.1)


def setup(rig):
    if rig.setup().is_err():
        rig.bad("setup", "setup failed")
    if subs(rig.ros) or pubs(rig.ros):
        rig.bad("early", "setup connected to a topic")


def lifecycle(rig, op):
    """untick, reset or restart (shutdown + setup)."""
    r = rig.shutdown() if op == "restart" else getattr(rig, op)()
    if r.is_err():
        rig.bad(op, f"{op}: {r}")
    if str(rig.node.state) != (bt.SHUT if op == "restart" else IDLE):
        rig.bad(op, f"state {rig.node.state} after {op}")
    if op != "untick" and (subs(rig.ros) or pubs(rig.ros)):
        rig.bad("left", f"still connected after {op}")
    if op == "restart":
        setup(rig)


def recover(rig):
    if rig.recover().is_err() or subs(rig.ros) or pubs(rig.ros):
        rig.bad("recover", "not usable or still connected after an error")


def subscriber(ctx):
    rng = ctx.rng
    name = rng.choice(["TopicSubscriber", "TopicMemorySubscriber"])
    memory = name == "TopicMemorySubscriber"
    rig, mt = build(ctx, name)
    ros, bad = rig.ros, rig.bad
    delay = rig.cur.get("memory_delay")
    setup(rig)
    held, when, out, last, n = None, None, None, "setup", 0
    for step in range(rng.randint(4, 18)):
        feed(rig)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            topic, m = rng.choice(NAMES + [rig.cur.get("topic_name", "")] * 4), message(rng, mt)
            listening = [s.topic for s in subs(ros)]
            got = ros.deliver(topic, m)
            ctx.count("deliveries" if got else "unheard")
            if topic in listening:
                held, when, n = m, ros.clock.ns, n + 1
        if rng.random() < 0.5:
            ros.clock.advance(rng.choice([0.1, 0.3, 0.7, 3.1]))
        op = rng.choices(["tick", "untick", "reset", "restart"], [14, 1, 1, 1])[0]
        if op != "tick":
            lifecycle(rig, op)
            if op != "untick":
                held = when = out = None
            rig.expect_outputs({"message": out}, op)
            last = op
            continue
        missing = [k for k in rig.ci if k not in rig.cur]
        new = sorted(rig.upd & {*QOS, "topic_type"})
        r = rig.tick()
        if missing:
            if r.is_ok():
                bad("missing", f"{r} although {missing} have no value")
            recover(rig)
            held = when = out = None
            last = "setup"
            continue
        if new:
            held = when = None
            ctx.count("resubscribed")
        if r.is_err():
            bad("error", str(r))
        if held is None:
            want = RUNNING
        elif memory and (ros.clock.ns - when) / 1e9 > delay:
            want = FAIL
            ctx.count("expired")
        else:
            want, out = SUCC, held
            ctx.count("received")
            if not memory:
                held = when = None
        if str(r.unwrap()) != want:
            bad("result", f"tick gave {r}, expected {want} (new {new}, {n} messages, received at {when}, now {ros.clock.ns})")
        rig.expect_outputs({"message": out}, f"after {want}")
        check_endpoint(rig, mt, "subscription", subs(ros))
        ctx.sig(name, mt.__name__, last, bool(new), min(n, 3), want)
        n, last = 0, "tick"
    lifecycle(rig, "restart")


def publisher(ctx):
    rng = ctx.rng
    rig, mt = build(ctx, "TopicPublisher")
    ros, bad = rig.ros, rig.bad
    setup(rig)
    at, last = 0, "setup"
    for step in range(rng.randint(4, 18)):
        feed(rig, skip=("message",))
        if "message" not in rig.cur and rng.random() < 0.98 or rng.random() < 0.3:
            same = "message" in rig.cur and rng.random() < 0.3
            rig.set("message", copy.deepcopy(rig.cur["message"]) if same else message(rng, mt), flag=same and rng.random() < 0.5)
        op = rng.choices(["tick", "untick", "reset", "restart"], [14, 1, 1, 1])[0]
        at = len(ros.events)
        if op != "tick":
            lifecycle(rig, op)
            if [e for e in ros.events[at:] if e[0] == "publish"]:
                bad("published", f"{op} published a message")
            last = op
            continue
        missing = [k for k in rig.ci if k not in rig.cur]
        new, moved = "message" in rig.upd, bool(rig.upd & set(QOS))
        r = rig.tick()
        sent = [e for e in ros.events[at:] if e[0] == "publish"]
        if missing:
            if r.is_ok() or sent:
                bad("missing", f"{r} although {missing} have no value, sent {sent}")
            recover(rig)
            last = "setup"
            continue
        if r.is_err() or str(r.unwrap()) != SUCC:
            bad("result", f"tick gave {r}")
        check_endpoint(rig, mt, "publisher", pubs(ros))
        if len(sent) != (1 if new else 0) and not (moved and len(sent) == 1):
            bad("published", f"{len(sent)} messages were published (message updated: {new}, topic or QoS updated: {moved})")
        for e in sent:
            if e[1] is not pubs(ros)[0] or not vt.same(e[2], rig.cur["message"]):
                bad("message", f"published {e[2]} on {e[1].topic}, expected {rig.cur['message']} on {rig.cur['topic_name']}")
        ctx.count("published" if sent else "unchanged")
        ctx.sig("pub", mt.__name__, last, new, moved)
        last = "tick"
    lifecycle(rig, "restart")


def param(ctx):
    rng = ctx.rng
    kind = rng.choice([cat.BOOL, cat.INT, cat.INT9, cat.FLOAT, cat.LIST(cat.INT), cat.LIST(cat.FLOAT)])
    sp = vt.spec_of(kind)
    ok = [cat.BOOL, cat.INT, cat.FLOAT, cat.STR, cat.LIST(cat.INT)]
    names = ["p", "q", "r"]
    ros = FakeROSNode()
    default = sp.norm(cat.small(rng, sp))
    rig = Rig(ctx, cat.SHIPPED["RosParam"], types={"param_type": kind}, static={"param_name": rng.random() < 0.4, "default_value": rng.random() < 0.5},
              values={"param_name": rng.choice(names), "default_value": default}, ros=ros)
    bad = rig.bad
    setup(rig)
    out = None
    for step in range(rng.randint(3, 10)):
        for k in rig.dyn:
            if k not in rig.cur or rng.random() < 0.2:
                rig.set(k, rng.choice(names) if k == "param_name" else sp.norm(cat.small(rng, sp)))
        for p in names:
            if rng.random() < 0.4:
                x = rng.random()
                if x < 0.25:
                    ros.params.pop(p, None)
                else:
                    s = sp if x < 0.75 else vt.spec_of(rng.choice(ok))
                    ros.params[p] = None if x < 0.4 else cat.small(rng, s)
        op = rng.choices(["tick", "untick", "reset", "restart"], [14, 1, 1, 1])[0]
        if op != "tick":
            lifecycle(rig, op)
            out = None if op != "untick" else out
            continue
        p = rig.cur["param_name"]
        if p not in ros.params:
            want, v = FAIL, None
        else:
            v = ros.params[p]
            v = rig.cur["default_value"] if v is None else v
            a = sp.accept(v)
            if a is None:
                try:
                    a = sp.build().set_value(v).is_ok()
                except Exception:
                    a = False
            want = SUCC if a else "ERR"
        r = rig.tick()
        got = "ERR" if r.is_err() else str(r.unwrap())
        ctx.count("params")
        ctx.sig("param", kind["type_identifier"], type(v).__name__, want)
        if got != want:
            bad("result", f"tick gave {r}, expected {want} (parameter {p}: {ros.params.get(p, 'not there')!r})")
        if got == "ERR":
            recover(rig)
            out = None
            continue
        if want == SUCC:
            out = sp.norm(v)
        rig.expect_outputs({"param": out}, f"after {want}")
    lifecycle(rig, "restart")


# ---------------------------------------------------------------- messages arriving while the node is busy
def concurrent(ctx):
    rng = ctx.rng
    ros = FakeROSNode()
    s = sc.Sched(rng, rng.choice([0.02, 0.1, 0.3, 0.6]))
    name = rng.choice(["TopicSubscriber", "TopicMemorySubscriber"])
    cls = cat.SHIPPED[name]
    kept = {k: v for k, v in vars(cls).items() if isinstance(v, type(threading.Lock()))}
    try:
        with s.installed():
            for k in kept:  # locks made when the class was
                setattr(cls, k, s.classes()["Lock"]())
            race(ctx, rng, ros, s, name)
    finally:
        for k, v in kept.items():
            setattr(cls, k, v)


def race(ctx, rng, ros, s, name):
    memory = name == "TopicMemorySubscriber"
    rig = Rig(ctx, cat.SHIPPED[name], types={"topic_type": em.Int32}, static={"topic_name": False, "reliable": True, "transient_local": True, "depth": True},
              values={"reliable": True, "transient_local": False, "depth": 1, "memory_delay": 1000.0}, ros=ros)
    bad = rig.bad
    setup(rig)
    rig.set("topic_name", NAMES[0])
    if str(rig.tick().unwrap()) != RUNNING:
        bad("result", "no message yet, but not RUNNING")
    clock, given, ticks = [0], [], []

    def stamp():
        clock[0] += 1
        return clock[0]

    def sender():
        for _ in range(rng.randint(2, 6)):
            for _ in range(rng.choice([0, 1, 5, 30])):
                s.point(force=True)
            live = subs(ros)
            if not live:
                continue
            sub = live[0]
            d = types.SimpleNamespace(n=len(given) + 1, sub=sub, start=stamp(), end=None)
            given.append(d)
            sub.callback(em.Int32(data=d.n))
            d.end = stamp()

    def ticker():
        for _ in range(rng.randint(3, 8)):
            op = rng.choices(["tick", "rename", "reset", "untick"], [10, 2, 1, 1])[0]
            t = types.SimpleNamespace(op=op, start=stamp(), end=None, result=None, out=None, sub=None)
            if op == "rename":
                rig.set("topic_name", rng.choice([n for n in NAMES if n != rig.cur["topic_name"]]))
            r = rig.tick() if op in ("tick", "rename") else getattr(rig, op)()
            if r.is_err():
                bad(op, f"{op}: {r}")
            t.result = str(r.unwrap())
            t.out = getattr(rig.outputs()["message"], "data", None)
            t.end = stamp()
            t.sub = subs(ros)[0] if subs(ros) else None
            ticks.append(t)
            s.point(force=rng.random() < 0.3)

    s.spawn(sender, "sender")
    s.spawn(ticker, "ticker")
    s.run()
    if s.reason:
        bad("stuck", s.reason)
    for t in s.tasks:
        if t.error is not None:
            raise t.error if isinstance(t.error, Violation) else Violation(f"raises/{name}", f"{type(t.error).__name__}: {t.error}", ctx.trace[-14:])
    # a last tick with nothing going on
    t = types.SimpleNamespace(op="tick", start=stamp(), end=None, result=None, out=None, sub=None)
    r = rig.tick()
    t.result, t.out, t.end, t.sub = str(r.unwrap()), getattr(rig.outputs()["message"], "data", None), stamp(), subs(ros)[0]
    ticks.append(t)
    ctx.count("concurrent_ticks", len(ticks))
    ctx.count("concurrent_deliveries", len(given))
    ctx.count("overlaps", sum(any(d.start < t.end and t.start < d.end for t in ticks) for d in given))
    hist = [(t.op, t.result, t.out, t.start, t.end) for t in ticks], [(d.n, d.sub.topic, d.start, d.end) for d in given]
    ctx.sig("race", name, s.history)
    ctx.count("switches", s.switches)
    ctx.count("points", s.points)
    last_out = 0
    for t in ticks:
        if t.op == "reset" or t.op == "untick":
            continue
        # messages of the subscription in use when the tick ended
        mine = [d for d in given if d.sub is t.sub]
        if t.result == SUCC:
            d = [x for x in mine if x.n == t.out]
            if not d:
                bad("race-topic", f"the message {t.out} does not come from the topic the node is subscribed to: {hist}")
            if d[0].start > t.end:
                bad("race-future", f"message {t.out} before it was sent: {hist}")
            if t.out < last_out or t.out == last_out and not memory:
                bad("race-again", f"message {t.out} was handed on again: {hist}")
            newest = max((x.n for x in mine if x.end < t.start), default=0)
            if t.out < newest:
                bad("race-old", f"message {t.out} was handed on although {newest} had arrived: {hist}")
            last_out = t.out
        else:
            waiting = [x.n for x in mine if x.end < t.start and (memory or x.n > last_out)]
            if waiting:
                bad("race-lost", f"tick gave {t.result} although message {waiting[-1]} had arrived: {hist}")
    lifecycle(rig, "restart")
