"""C01: every node keeps to the node lifecycle, in any order of operations."""
import copy
import json
import random

import bt
import btshim
import catalog as cat
import vtypes as vt
from bt import BROKEN, FAIL, IDLE, SHUT, SUCC, UNINIT, FakeROSNode, Node, dt
from common import Violation
from rosnode import field, message

PROPERTY = "C01"
LEVEL = "exploration"
RULE = "distinct by (classes in the tree, operation, state before, state after or error)"
TIERS = {"quick": 2500, "thorough": 80000}
FLOORS = {"tick": 7800, "untick": 1900, "reset": 2700, "setup": 3600, "shutdown": 3600, "refused": 2200, "errors": 450, "twins": 1800, "twin_steps": 5000, "shutdown and setup": 1000}

SKIP = {"Subtree"}  # C22
FLOWS = [c for c in cat.SHIPPED.values() if c._node_config.max_children != 0 and c.__name__ not in SKIP]
LEAVES = [c for c in cat.SHIPPED.values() if c._node_config.max_children == 0 and c.__name__ not in SKIP]
S = bt.S
AFTER = {"setup": {IDLE}, "tick": {S.RUNNING, SUCC, FAIL}, "untick": {IDLE, S.PAUSED}, "reset": {IDLE}, "shutdown": {SHUT}}
OFF = (UNINIT, SHUT, BROKEN)


def number(t):
    """A type description with bounds as numbers."""
    if isinstance(t, dict):
        return {k: number(float(v) if isinstance(v, str) and t.get("type_identifier") == 3 else int(v) if isinstance(v, str) else v) if k in ("min_value", "max_value") else number(v)
                for k, v in t.items()}
    return t


def specs_of(node):
    types = {}
    for k, c in node.node_config.inputs.items():
        if isinstance(c, dt.GenericType):
            types[k] = vt.spec_of(number(json.loads(c.serialize_value())))
        elif c.is_static and c.get_value().is_ok() and hasattr(c.get_value().unwrap(), "get_fields_and_field_types"):
            types[k] = vt.Msg(c.get_value().unwrap())
    out = {}
    for k, c in node.node_config.inputs.items():
        if not c.is_static:
            try:
                out[k] = cat.spec_for(c, types)
            except KeyError:
                out[k] = None
    return out


class Side:
    """One instance of the tree with a ROS of its own."""

    def __init__(self, msgs, kids, ros):
        self.ros = ros
        self.nodes = []
        for m in msgs:
            r = Node.from_msg(copy.deepcopy(m), ros)
            if r.is_err():
                self.error = r
                return
            self.nodes.append(r.unwrap())
        self.error = None
        for i, ks in enumerate(kids):
            for k in ks:
                self.nodes[i].add_child(self.nodes[k]).unwrap()
        self.root = self.nodes[0]

    def state(self):
        return [str(n.state) for n in self.nodes]

    def outputs(self):
        return [{k: copy.deepcopy(c.get_value().ok()) for k, c in n.node_config.outputs.items()} for n in self.nodes]

    def flags(self):
        return [{k: c.is_updated() for k, c in n.node_config.outputs.items()} for n in self.nodes]

    def alive(self):
        r = self.ros
        return sorted([("subscription", s.topic) for s in r.subscriptions_ if s.alive] + [("publisher", p.topic) for p in r.publishers_ if p.alive]
                      + [("client", c.srv_name) for c in r.clients_ if c.alive] + [("action", a.action_name) for a in r.action_clients if a.alive]
                      + [("timer", "") for t in r.timers_ if not t.is_canceled()])


def build(ctx):
    rng = ctx.rng
    msgs, kids, depth = [], [], []
    total = rng.choice([1, 1, 1, 2, 3, 5, 8])

    def new(cls, dep):
        m = cat.make(rng, cls, name=rng.choice(["a", "b", "c", "x"]))
        m.node_id = str(bt.make_uuid(rng))
        msgs.append(m)
        kids.append([])
        depth.append(dep)
        return len(msgs) - 1

    new(rng.choice(FLOWS) if total > 1 else rng.choice(LEAVES), 0)
    for _ in range(total - 1):
        free = [i for i in range(len(msgs)) if depth[i] < 3 and (msgs[i].max_children < 0 or len(kids[i]) < msgs[i].max_children)]
        if not free:
            break
        p = rng.choice(free)
        cls = rng.choice(FLOWS) if rng.random() < 0.3 else rng.choice(LEAVES)
        kids[p].append(new(cls, depth[p] + 1))
    return msgs, kids


def env(rng, sides):
    """Something happens in ROS, to all sides alike; a description of it."""
    kind = rng.choice(["clock", "clock", "message", "service", "goal", "result", "feedback", "ready", "param"])
    seed = rng.random()
    for s in sides:
        r, ros = random.Random(seed), s.ros
        if kind == "clock":
            ros.clock.advance(r.choice([0.05, 0.3, 1.0, 3.0, 20.0]))
        elif kind == "message":
            for sub in sorted((x for x in ros.subscriptions_ if x.alive), key=lambda x: x.topic):
                if r.random() < 0.7:
                    sub.callback(message(random.Random(seed), sub.msg_type))
        elif kind == "service":
            for c in sorted((x for x in ros.clients_ if x.alive), key=lambda x: x.srv_name):
                for _, f in c.calls:
                    if not f.done() and not f.cancelled():
                        f.set_result(message(random.Random(seed), c.srv_type.Response))
        elif kind in ("goal", "result", "feedback"):
            for a in sorted((x for x in ros.action_clients if x.alive), key=lambda x: x.action_name):
                for g in a.goals:
                    if kind == "goal" and g["handle"] is None and not g["future"].done():
                        g["handle"] = btshim.SimGoalHandle(a, g["goal"], seed < 0.8)
                        g["future"].set_result(g["handle"])
                    elif kind == "feedback" and g["handle"] is not None and g["feedback"] is not None:
                        fb = type("F", (), {})()
                        fb.feedback = message(random.Random(seed), a.action_type.Feedback)
                        g["feedback"](fb)
                    elif kind == "result" and g["handle"] is not None:
                        for f in g["handle"].cancel_futures:
                            if not f.done():
                                f.set_result(None)
                        f = g["handle"].result_future
                        if f is not None and not f.done():
                            res = type("R", (), {})()
                            res.status = 4 if seed < 0.7 else 6
                            res.result = message(random.Random(seed), a.action_type.Result)
                            f.set_result(res)
        elif kind == "ready":
            for n in ("foo", "bar", "/foo", "a", "b", "srv", "x"):
                ros.services_ready[n] = r.random() < 0.5
        elif kind == "param":
            ros.params["a"] = r.randint(0, 9)
    return kind


def case(ctx):
    rng = ctx.rng
    msgs, kids = build(ctx)
    a = Side(msgs, kids, FakeROSNode())
    if a.error:
        ctx.count("not_instantiable")
        return
    names = [m.node_class for m in msgs]
    for n in set(names):
        ctx.count("class:" + n)
    specs = [specs_of(n) for n in a.nodes]

    def fill(sides, p, key):
        """New values for dynamic inputs, the same on all sides."""
        for i, sp in enumerate(specs):
            for k, s in sp.items():
                if s is None or rng.random() >= p:
                    continue
                v = cat.small(rng, s)
                if v is None:
                    continue
                for x in sides:
                    r = x.nodes[i].node_config.inputs[k].set_value(copy.deepcopy(v))
                    if r.is_err():
                        raise Violation("input", f"{names[i]}.{k} doesn't accept {v!r}: {r}")
        ctx.count("fills")

    def op(side, name, seed, judge=True):
        before = side.state()
        ins = [{k: copy.deepcopy(c.get_value().ok()) for k, c in n.node_config.inputs.items()} for n in side.nodes]
        random.seed(seed)
        try:
            r = getattr(side.root, name)()
        except Exception as e:
            raise Violation(f"raises/{name}-{type(e).__name__}", f"{name} of {names} in {before} raised {type(e).__name__}: {e}", ctx.trace[-20:]) from e
        after = side.state()
        ctx.log(name, before, after, "ok" if r.is_ok() else str(r)[:150])
        if not judge:
            return r
        ctx.count(name)
        ctx.sig(tuple(names), name, before[0], after[0], r.is_ok())
        what = f"{name} of {names} in state {before[0]}"

        def bad(key, msg):
            raise Violation(f"{key}/{name}", f"{what}: {msg}", ctx.trace[-20:])

        if r.is_ok() and str(r.unwrap()) != after[0]:
            bad("answer", f"answered {r}, but the state is {after[0]}")
        if r.is_ok() and side.root.state not in AFTER[name]:
            bad("state", f"ended in state {after[0]}")
        refuse = {"setup": before[0] not in (str(UNINIT), str(SHUT)), "shutdown": False}.get(name, before[0] in [str(x) for x in OFF])
        if refuse:
            ctx.count("refused")
            if r.is_ok() or before != after:
                bad("refuse", f"answered {str(r)[:100]}, states {before} -> {after}")
        elif r.is_err():
            ctx.count("errors")
            if after[0] != str(BROKEN):
                bad("error", f"failed with {str(r)[:200]}, but the state is {after[0]}")
        if name == "shutdown" and not refuse:
            if r.is_err():
                bad("shutdown", f"failed: {str(r)[:300]}")
            if any(s != str(SHUT) for s in after):
                bad("shutdown", f"left states {after}")
            if side.alive():
                bad("left-behind", f"still holds {side.alive()}")
        if name != "setup":
            for n, i, c in zip(names, ins, side.nodes):
                for k, v in i.items():
                    if not vt.same(c.node_config.inputs[k].get_value().ok(), v):
                        bad("input-changed", f"input {k} of {n} changed from {v!r} to {c.node_config.inputs[k].get_value()}")
        if r.is_ok() and name in ("setup", "reset"):
            for n, o in zip(names[:1], side.outputs()):
                for k, v in o.items():
                    if v is not None:
                        bad("output-kept", f"output {k} of {n} is {v!r}")
        if r.is_ok() and name in ("setup", "reset", "untick") and any(side.flags()[0].values()):
            bad("output-flag", f"outputs are flagged as updated: {side.flags()[0]}")
        if r.is_ok() and name == "tick":
            for k, c in side.root.node_config.inputs.items():
                if c.is_updated():
                    bad("input-flag", f"input {k} is still flagged as updated")
        return r

    # a life full of anything
    if rng.random() < 0.9:
        op(a, "setup", 0)
        fill([a], 0.95, "first")
    for _ in range(rng.randint(0, 12)):
        x = rng.random()
        if x < 0.25:
            ctx.log("env", env(rng, [a]))
        elif x < 0.4:
            fill([a], 0.5, "change")
        else:
            name = rng.choice(["tick"] * 6 + ["untick", "untick", "reset", "shutdown", "setup"])
            op(a, name, rng.random())
            if name == "setup":
                fill([a], 0.95, "again")
    # and back to the beginning
    # (RepeatNoAutoReset keeps its count over a reset, says its documentation, and Throttle its interval)
    if a.root.state in OFF or rng.random() < 0.4 or {"RepeatNoAutoReset", "Throttle"} & set(names):
        if a.root.state != UNINIT or rng.random() < 0.5:
            op(a, "shutdown", 0)
        r = op(a, "setup", 0)
        how = "shutdown and setup"
    else:
        r = op(a, "reset", 0)
        how = "reset"
    b_ros = FakeROSNode()
    b_ros.clock.advance((a.ros.clock.ns - b_ros.clock.ns) / 1e9)
    b_ros.clock.ns = a.ros.clock.ns
    b_ros.services_ready = dict(a.ros.services_ready)
    b_ros.params = copy.deepcopy(a.ros.params)
    b = Side(msgs, kids, b_ros)
    if r.is_err():
        if op(b, "setup", 0, judge=False).is_ok():
            raise Violation("again/setup", f"{names}: {how} failed though the setup of a new tree succeeds: {str(r)[:300]}", ctx.trace[-20:])
        return
    if op(b, "setup", 0, judge=False).is_err():
        return
    ctx.count("twins")
    ctx.count(how)
    fill([a, b], 1.0, "twin")
    for i, sp in enumerate(specs):
        for k in sp:
            if a.nodes[i].node_config.inputs[k].has_value() != b.nodes[i].node_config.inputs[k].has_value():
                return
    for x in a.nodes + b.nodes:
        for c in x.node_config.inputs.values():
            c.flag_updated()

    def same(why):
        # a node that isn't set up (again) is either uninitialized or shut down
        sa, sb = ([str(UNINIT) if x == str(SHUT) else x for x in y.state()] for y in (a, b))
        for what, p, q in (("states", sa, sb), ("resources", a.alive(), b.alive()), ("flags", a.flags(), b.flags())):
            if p != q:
                raise Violation(f"again/{what}", f"{names} after {how} and {why}: {what} {p}, a new tree has {q}", ctx.trace[-30:])
        for n, p, q in zip(names, a.outputs(), b.outputs()):
            for k in p:
                if not vt.same(p[k], q[k]):
                    raise Violation("again/outputs", f"{n} in {names} after {how} and {why}: output {k} is {p[k]!r}, in a new tree {q[k]!r}", ctx.trace[-30:])

    same("nothing else")
    for _ in range(rng.randint(2, 9)):
        x = rng.random()
        if x < 0.3:
            why = env(rng, [a, b])
            ctx.log("env", why)
        elif x < 0.45:
            fill([a, b], 0.5, "twin")
            why = "new inputs"
        else:
            why = rng.choice(["tick"] * 6 + ["untick", "reset"])
            seed = rng.random()
            p, q = op(a, why, seed), op(b, why, seed, judge=False)
            if p.is_ok() != q.is_ok():
                raise Violation("again/answer", f"{names} after {how}: {why} answered {str(p)[:200]}, in a new tree {str(q)[:200]}", ctx.trace[-30:])
            ctx.count("twin_steps")
        same(why)
        if a.root.state == BROKEN:
            break
    op(a, "shutdown", 0)
