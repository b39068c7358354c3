"""C17: service nodes make one call per request and report exactly its response."""
import bt
import catalog as cat
import rleaf
from bt import BROKEN, FAIL, IDLE, RUNNING, SUCC
from rosnode import Rig, field, fields, message

import example_interfaces.srv as es

PROPERTY = "C17"
LEVEL = "exploration"
RULE = "distinct by (class, service type, preceding operation, state before, what is new, fate of the pending call, outcome)"
TIERS = {"quick": 4000, "thorough": 120000}
FLOORS = {"calls": 8000, "responses": 2000, "timeouts": 400, "abandoned": 1500, "stale": 700, "kept": 1000, "waits": 500, "wait_timeouts": 200, "tick": 15000}
NAMES = ["/svc_a", "/svc_b", "svc_c"]
TYPES = [es.Trigger, es.SetBool, es.AddTwoInts, es.VerifLookup]


def case(ctx):
    (wait if ctx.rng.random() < 0.2 else call)(ctx)


class Calls:
    """What the node did to the middleware."""

    def __init__(self, rig):
        self.rig, self.ros, self.at = rig, rig.ros, 0

    def new(self):
        ev, self.at = self.ros.events[self.at:], len(self.ros.events)
        return [e for e in ev if e[0] == "service_call"]

    def alive(self):
        return [c for c in self.ros.clients_ if c.alive]


def call(ctx):
    rng = ctx.rng
    generic = rng.random() < 0.7
    timeout = rng.choice([0.0, 0.5, 2.0, 10.2])
    static = rng.random() < 0.4
    name = rng.choice(NAMES)
    values = {"service_name": name, "wait_for_response_seconds": timeout}
    if generic:
        srv = rng.choice(TYPES)
        rig = Rig(ctx, cat.SHIPPED["Service"], types={"service_type": srv}, static={"service_name": static}, values=values)
        req = list(fields(srv.Request))
        sample = {f: t for f, t in fields(srv.Request).items()}
    else:
        srv = es.SetBool
        rig = Rig(ctx, rleaf.SwitchService, static={"service_name": static, "flag": False, "unrelated": False}, values=values, name="ServiceBase")
        req, sample = ["flag"], {"flag": "boolean", "unrelated": "int8"}
    node, ros, bad = rig.node, rig.ros, rig.bad
    mw = Calls(rig)
    state = {"pending": None, "start": None, "abandoned": []}
    outs = {}

    def value(k):
        return rng.choice(NAMES) if k == "service_name" else field(rng, sample[k])

    def request():
        if generic:
            return srv.Request(**{f: rig.cur[f] for f in req})
        return es.SetBool.Request(data=rig.cur["flag"])

    def drop(why):
        if state["pending"] is not None:
            client, fut = state["pending"]
            if client.alive and not fut.cancelled() and not fut.done():
                bad("not-cancelled", f"the pending call is neither cancelled nor its client destroyed after {why}")
            state["abandoned"].append(fut)
            ctx.count("abandoned")
        state["pending"] = None

    def setup():
        if rig.setup().is_err():
            bad("setup", "setup failed")
        outs.clear()
        if mw.new() or mw.alive():
            bad("early", "setup contacted the service")

    setup()
    last = "setup"
    for step in range(rng.randint(4, 16)):
        # ---- new data
        for k in rig.dyn:
            if k not in rig.cur and rng.random() < 0.98 or rng.random() < 0.12:
                keep = k in rig.cur and rng.random() < 0.4
                rig.set(k, rig.cur[k] if keep else value(k), flag=keep and rng.random() < 0.3)
        # ---- the server
        fate = "none"
        if state["pending"] is not None:
            fate = "open"
            if rng.random() < 0.4:
                fate = "response"
                resp = message(rng, srv.Response)
                if not generic:
                    resp.message = rng.choice(["ok", "no", "error"]) if rng.random() < 0.5 else "fine"
                state["pending"][1].set_result(resp)
                state["resp"] = resp
        for fut in state["abandoned"]:
            if rng.random() < 0.3:
                fut.set_result(message(rng, srv.Response))
                ctx.count("stale")
        if rng.random() < 0.5:
            ros.clock.advance(rng.choice([0.1, 0.3, 0.7, 3.1, 11.0]))
        # ---- operation
        op = rng.choices(["tick", "untick", "reset", "restart"], [12, 1, 1, 1])[0]
        before = str(node.state)
        if op != "tick":
            r = rig.shutdown() if op == "restart" else getattr(rig, op)()
            if r.is_err():
                bad(op, f"{op}: {r}")
            if op != "restart" and before != BROKEN and str(node.state) != IDLE:
                bad(op, f"state {node.state} after {op}")
            drop(op)
            if mw.new():
                bad("call", f"{op} called the service")
            if op != "untick":
                if mw.alive():
                    bad("client-left", f"clients left after {op}: {[c.srv_name for c in mw.alive()]}")
                outs.clear() if op == "reset" else None
            if op == "restart":
                if str(node.state) != bt.SHUT:
                    bad(op, f"state {node.state} after shutdown")
                setup()
            last = op
            continue
        missing = [k for k in rig.ci if k not in rig.cur]
        new = sorted(rig.upd & {"service_name", *req})
        p = state["pending"]
        want, o = None, dict(outs)
        if missing:
            want = ("ERR", 0)
        elif new or (before == IDLE and p is None):
            want = (RUNNING, 1)
        elif p is None:
            want = (before, 0)
            ctx.count("kept")
        elif fate == "response" or p[1].done():
            resp = state["resp"]
            if generic:
                want = (SUCC, 0)
                o.update({f: getattr(resp, f) for f in fields(srv.Response)})
            elif resp.message == "error":
                want = ("ERR", 0)
            else:
                want = (SUCC if resp.success else FAIL, 0)
                o["message"] = resp.message
            late = (ros.clock.ns - state["start"]) / 1e9 > timeout
        elif (ros.clock.ns - state["start"]) / 1e9 > timeout:
            want = (FAIL, 0)
            ctx.count("timeouts")
        else:
            want = (RUNNING, 0)
        r = rig.tick()
        got = "ERR" if r.is_err() else str(r.unwrap())
        calls = mw.new()
        answered = p is not None and p[1].done() and not new and not missing
        if answered and late and got == FAIL != want[0]:  # too late, but there
            want, o = (FAIL, 0), dict(outs)
        ctx.sig(rig.label, srv.__name__, last, before, tuple(new)[:2], fate, want)
        if got != want[0]:
            bad("result", f"tick gave {r}, expected {want[0]} (new {new}, pending call {fate}, missing {missing})")
        if len(calls) != want[1]:
            bad("calls", f"the tick made {len(calls)} calls, expected {want[1]} (new {new}, state before {before}, pending {fate})")
        if missing:
            drop("an error") if False else None
            if calls:
                bad("call", "called without all inputs")
            state["abandoned"] += [p[1]] if p else []
            state["pending"] = None
            rig.recover()
            if mw.alive():
                bad("client-left", "client left after shutdown")
            outs.clear()
            mw.new()
            last = "setup"
            continue
        if want[1]:
            drop("a new call")
            _, client, q, fut = calls[0]
            if not client.alive or client.srv_type is not srv or client.srv_name != rig.cur["service_name"]:
                bad("service", f"called {client.srv_name} ({client.srv_type}), alive {client.alive}, expected {rig.cur['service_name']}")
            if q != request():
                bad("request", f"sent {q}, expected {request()}")
            if fut.cancelled():
                bad("cancelled", "the new call is already cancelled")
            state["pending"], state["start"] = (client, fut), ros.clock.ns
            ctx.count("calls")
        elif p is not None:
            if got == RUNNING:
                if p[1].cancelled() or not p[0].alive:
                    bad("lost-call", "RUNNING, but the pending call is cancelled")
            else:
                if answered:
                    ctx.count("responses")
                    state["pending"] = None
                else:
                    drop("the timeout")
        if len(mw.alive()) > 1:
            bad("clients", f"{len(mw.alive())} clients: {[c.srv_name for c in mw.alive()]}")
        outs = o
        rig.expect_outputs({k: o.get(k) for k in rig.co}, f"after {got}")
        if got == "ERR":
            rig.recover()
            if mw.alive():
                bad("client-left", "client left after shutdown")
            outs.clear()
            mw.new()
            last = "setup"
            continue
        last = "tick"
    if rig.shutdown().is_err() or mw.alive():
        bad("client-left", f"clients left after shutdown: {[c.srv_name for c in mw.alive()]}")


def wait(ctx):
    """WaitForService: SUCCEEDED as soon as it is there, FAILED after the wait time."""
    rng = ctx.rng
    limit = rng.choice([0.0, 0.5, 2.0, 10.2])
    srv = rng.choice(TYPES)
    rig = Rig(ctx, cat.SHIPPED["WaitForService"], types={"service_type": srv}, static={"service_name": rng.random() < 0.4},
              values={"service_name": rng.choice(NAMES), "wait_for_service_seconds": limit})
    node, ros, bad = rig.node, rig.ros, rig.bad
    mw = Calls(rig)
    if rig.setup().is_err():
        bad("setup", "setup failed")
    start, last = None, "setup"
    for step in range(rng.randint(4, 14)):
        for k in rig.dyn:
            if k not in rig.cur or rng.random() < 0.1:
                rig.set(k, rng.choice(NAMES))
        for n in NAMES:
            if rng.random() < 0.15:
                ros.services_ready[n] = not ros.services_ready.get(n, False)
        if rng.random() < 0.7:
            ros.clock.advance(rng.choice([0.1, 0.3, 0.7, 3.1, 11.0]))
        op = rng.choices(["tick", "untick", "reset", "restart"], [14, 1, 1, 1])[0]
        if op != "tick":
            r = rig.shutdown() if op == "restart" else getattr(rig, op)()
            if r.is_err():
                bad(op, f"{op}: {r}")
            if op != "untick" and mw.alive():
                bad("client-left", f"client left after {op}")
            if op == "restart":
                rig.setup()
            start, last = None, op
            continue
        if "service_name" in rig.upd:
            start = None
        new = "service_name" in rig.upd
        r = rig.tick()
        if r.is_err():
            bad("error", str(r))
        got = str(r.unwrap())
        if ros.services_ready.get(rig.cur["service_name"], False):
            want = SUCC
        else:
            if start is None:
                start = ros.clock.ns
            want = FAIL if (ros.clock.ns - start) / 1e9 > limit else RUNNING
            ctx.count("wait_timeouts" if want == FAIL else "waits")
        ctx.sig("wait", last, want, new)
        if got != want:
            bad("result", f"tick gave {got}, expected {want} (waiting since {start}, now {ros.clock.ns}, limit {limit}, ready {ros.services_ready})")
        a = mw.alive()
        if len(a) != 1 or a[0].srv_name != rig.cur["service_name"] or a[0].srv_type is not srv:
            bad("clients", f"clients {[(c.srv_name, c.srv_type) for c in a]}")
        if mw.new():
            bad("call", "WaitForService called the service")
        last = "tick"
    if rig.shutdown().is_err() or mw.alive():
        bad("client-left", "client left after shutdown")
