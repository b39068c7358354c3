"""C18: action nodes run one goal at a time, cancel what they give up, and report exactly the outcome of their goal."""
import copy
import types

import bt
import catalog as cat
import rleaf
import vtypes as vt
from bt import BROKEN, FAIL, IDLE, RUNNING, SUCC
from btshim import SimGoalHandle
from rosnode import Rig, field, fields, message

import example_interfaces.action as ea

PROPERTY = "C18"
LEVEL = "exploration"
RULE = "distinct by (class, action type, preceding operation, phase of the goal, new data, cancel requested, expired, outcome)"
TIERS = {"quick": 4000, "thorough": 120000}
FLOORS = {"goals": 8000, "results": 1200, "rejected": 300, "aborted": 150, "expired": 120, "cancelled": 1000, "late_accepts": 150, "feedbacks": 1000,
          "stale_feedback": 300, "early_feedback": 300, "replaced": 500, "kept": 500, "tick": 20000}
NAMES = ["/act_a", "/act_b", "act_c"]
TYPES = [ea.Fibonacci, ea.Progress]
PATIENCE = 5  # ticks the node may need for internal steps while the server owes nothing


class Goal:
    def __init__(self, client, g):
        self.client, self.g = client, g
        self.phase = "pending"  # pending, accepted, rejected, finished
        self.given_up = None  # why the node must cancel it
        self.accepted_at = self.noticed_at = None
        self.outcome = None  # (status, result) or "none"
        self.feedbacks, self.shown = [], 0  # index of the feedback visible at the outputs

    @property
    def handle(self):
        return self.g["handle"]

    def cancels(self):
        return self.handle.cancel_requests if self.handle is not None else 0

    def owes(self):
        """The server still has to answer something."""
        if self.phase == "pending":
            return True
        return self.handle is not None and any(not f.done() for f in self.handle.cancel_futures)


def case(ctx):
    rng = ctx.rng
    generic = rng.random() < 0.7
    timeout = rng.choice([0.0, 0.5, 3.0, 30.2])
    static = rng.random() < 0.4
    values = {"action_name": rng.choice(NAMES), "timeout_seconds": timeout}
    if generic:
        act = rng.choice(TYPES)
        rig = Rig(ctx, cat.SHIPPED["Action"], types={"action_type": act}, static={"action_name": static}, values=values)
        sample = dict(fields(act.Goal))
    else:
        act = ea.Progress
        rig = Rig(ctx, rleaf.CountAction, static={"action_name": static, "n": False, "unrelated": False}, values=values, name="ActionBase")
        sample = {"n": "int32", "unrelated": "int8"}
    watched = {"action_name", *(k for k in sample if k != "unrelated")}
    node, ros, bad = rig.node, rig.ros, rig.bad
    at = 0
    goals, cur = [], None
    due = True  # a goal has to be sent
    idle = 0  # ticks without visible progress while the server owes nothing
    shown_fb, shown_res = None, None
    prompt = rng.random() < 0.3  # a server that answers at once

    def fb_of(m):
        return {f"feedback.{f}": getattr(m, f) for f in fields(act.Feedback)} if generic else {"percent": m.percent}

    def res_of(m):
        return {f"result.{f}": getattr(m, f) for f in fields(act.Result)} if generic else {"total": m.total}

    def want_goal():
        return act.Goal(**{f: rig.cur[f] for f in sample}) if generic else act.Goal(target=rig.cur["n"], label="count")

    def now():
        return ros.clock.ns / 1e9

    def alive():
        return [c for c in ros.action_clients if c.alive]

    def new_goals():
        nonlocal at
        ev, at = ros.events[at:], len(ros.events)
        return [(e[1], e[2]) for e in ev if e[0] == "goal_sent"]

    def give_up(why, must=True):
        nonlocal cur
        if cur is None:
            return
        cur.given_up = cur.given_up or why
        if cur.phase == "accepted" and must and not cur.cancels():
            bad("not-cancelled", f"the running goal is not cancelled by {why}")
        cur = None

    def fresh():
        nonlocal due, idle, shown_fb, shown_res
        due, idle = True, 0
        shown_fb = shown_res = None

    def setup():
        if rig.setup().is_err():
            bad("setup", "setup failed")
        if new_goals() or alive():
            bad("early", "setup contacted the action server")
        fresh()

    # ---- the server
    def feedback(g):
        m = message(rng, act.Feedback)
        g.feedbacks.append(m)
        g.g["feedback"](types.SimpleNamespace(feedback=copy.deepcopy(m)))
        ctx.count("feedbacks" if g is cur else "stale_feedback")

    def serve():
        for g in goals:
            if g.phase == "pending" and (prompt or rng.random() < 0.4):
                ok = rng.random() < 0.85
                h = SimGoalHandle(g.client, g.g["goal"], ok)
                none = not ok and rng.random() < 0.3
                g.g["handle"] = h
                if ok and rng.random() < 0.15:
                    # feedback and responses take different ways
                    feedback(g)
                    ctx.count("early_feedback")
                g.phase, g.accepted_at = ("accepted", now()) if ok else ("rejected", None)
                g.g["future"].set_result(None if none else h)
                if not ok:
                    ctx.count("rejected")
                elif g.given_up in ("untick", "reset", "restart", "end"):
                    ctx.count("late_accepts")
                    if not h.cancel_requests:
                        bad("late-accept", f"a goal given up by {g.given_up} before it was accepted is not cancelled when it is")
            elif g.phase == "accepted":
                h = g.handle
                if rng.random() < 0.4 and not g.outcome:
                    feedback(g)
                for f in h.cancel_futures:
                    if not f.done() and (prompt or rng.random() < 0.5):
                        f.set_result(types.SimpleNamespace(return_code=0))
                        ctx.count("cancelled")
                if h.result_future is not None and rng.random() < (0.7 if prompt else 0.25):
                    status = 5 if h.cancel_requests and rng.random() < 0.8 else rng.choices([4, 6, 5], [8, 1, 1])[0]
                    m = message(rng, act.Result)
                    g.outcome = (status, m)
                    g.phase = "finished"
                    if rng.random() < 0.04:
                        g.outcome = "none"
                        h.result_future.set_result(None)
                    else:
                        h.result_future.set_result(types.SimpleNamespace(status=status, result=copy.deepcopy(m)))
            elif g.phase == "finished":
                for f in g.handle.cancel_futures:
                    if not f.done() and rng.random() < 0.7:
                        f.set_result(types.SimpleNamespace(return_code=3))

    setup()
    last = "setup"
    for step in range(rng.randint(6, 30)):
        for k in rig.dyn:
            if k not in rig.cur and rng.random() < 0.98 or rng.random() < 0.06:
                keep = k in rig.cur and rng.random() < 0.4
                v = rig.cur[k] if keep else rng.choice(NAMES) if k == "action_name" else field(rng, sample[k])
                rig.set(k, v, flag=keep and rng.random() < 0.3)
        serve()
        if rng.random() < 0.4:
            ros.clock.advance(rng.choice([0.1, 0.3, 0.7, 3.1]))
        op = rng.choices(["tick", "untick", "reset", "restart"], [16, 1, 1, 1])[0]
        before = str(node.state)
        if op != "tick":
            r = rig.shutdown() if op == "restart" else getattr(rig, op)()
            if r.is_err():
                bad(op, f"{op}: {r}")
            if op != "restart" and str(node.state) != IDLE:
                bad(op, f"state {node.state} after {op}")
            if cur is not None and cur.phase in ("accepted", "pending"):
                give_up(op)
            cur = None
            if new_goals():
                bad("goal", f"{op} sent a goal")
            if op == "untick":
                due, idle = True, 0
            elif alive():
                bad("client-left", f"clients left after {op}: {[c.action_name for c in alive()]}")
            else:
                fresh()
            if op == "restart":
                setup()
            last = op
            continue
        # ---- tick
        missing = [k for k in rig.ci if k not in rig.cur]
        new = sorted(rig.upd & watched)
        was_due = due
        fb_before, res_before = shown_fb, shown_res
        noticed = cur is not None and cur.noticed_at is not None
        cancels_before = cur.cancels() if cur is not None else 0
        if not missing and new:
            if cur is not None and not due:
                ctx.count("replaced")
            due = True
        expired = early = False
        if cur is not None and cur.phase == "accepted":
            early = now() - cur.accepted_at > timeout
            expired = noticed and now() - cur.noticed_at > timeout
        r = rig.tick()
        got = "ERR" if r.is_err() else str(r.unwrap())
        sent = new_goals()
        ctx.sig(rig.label, act.__name__, last, cur.phase if cur else None, bool(new), was_due, cancels_before, expired, got)
        if cur is not None and cur.phase != "pending" and cur.noticed_at is None and not missing:
            cur.noticed_at = now()
        if missing:
            if got != "ERR" or sent:
                bad("missing", f"{r} although {missing} have no value")
            rig_recover(rig, bad, alive, new_goals)
            if cur is not None and cur.phase in ("accepted", "pending"):
                give_up("restart")
            cur = None
            fresh()
            last = "setup"
            continue
        if len(alive()) > 1:
            bad("clients", f"{len(alive())} clients: {[c.action_name for c in alive()]}")
        # --- goals
        if len(sent) > 1 or sent and not due:
            bad("goals", f"the tick sent {len(sent)} goals (new {new}, goal due {due})")
        if was_due and not sent and last in ("setup", "untick", "reset", "restart"):
            bad("no-goal", f"no goal was sent by the first tick after {last}")
        if cur is not None and cur.phase == "accepted":
            if due and was_due and noticed and not cur.cancels() or due and sent and not cur.cancels():
                bad("not-cancelled", "new data has replaced the running goal, but it isn't cancelled")
            if cur.cancels() > cancels_before and not (due or early):
                bad("cancelled", "the running goal is cancelled without a reason")
            if cur.cancels() > 1:
                bad("cancelled", f"the goal is cancelled {cur.cancels()} times")
        if sent:
            client, g = sent[0]
            if not client.alive or client.action_name != rig.cur["action_name"] or client.action_type is not act:
                bad("server", f"the goal went to {client.action_name} (alive {client.alive}), expected {rig.cur['action_name']}")
            if g["goal"] != want_goal():
                bad("goal", f"sent {g['goal']}, expected {want_goal()}")
            if got != RUNNING:
                bad("result", f"{r} in the tick that sent a goal")
            if cur is not None and cur.phase == "pending":
                bad("goals", "a goal was sent although the one before isn't accepted or given up")
            cur = Goal(client, g)
            goals.append(cur)
            due, idle = False, 0
            ctx.count("goals")
        # --- result
        allowed = {RUNNING}
        res = [shown_res]
        if not sent:
            if cur is None:
                allowed = {before}
            elif cur.phase == "rejected":
                allowed |= {FAIL}
            elif cur.phase == "finished" and cur.outcome == "none":
                allowed |= {FAIL}
            elif cur.phase == "finished":
                status, m = cur.outcome
                if status == 4:
                    ok = SUCC if generic or m.done else FAIL
                    if not generic and m.total < 0:
                        ok = "ERR"
                    allowed |= {ok}
                    if ok == got:
                        res = [res_of(m)] if ok != "ERR" else [shown_res]
                    if cur.cancels():  # finished while being cancelled
                        allowed |= {FAIL}
                        res = [shown_res, res_of(m)]
                else:
                    allowed |= {FAIL} | ({"ERR"} if not generic and m.total < 0 else set())
                    res = [shown_res, res_of(m)] if not (not generic and m.total < 0) else [shown_res]
            elif cur.phase == "accepted" and cur.cancels() and cancels_before and not cur.owes():
                allowed |= {FAIL}
            if cur is None and not due:
                ctx.count("kept")
            if due and (cur is None or cur.phase in ("accepted", "finished")):
                # a goal that is being replaced has no result any more
                allowed = {RUNNING}
        if got not in allowed:
            bad("result", f"tick gave {r}, allowed {sorted(allowed)} (goal {cur and (cur.phase, cur.outcome, cur.given_up)}, new {new}, due {due}, cancels {cur and cur.cancels()}, expired {expired})")
        # --- outputs
        out = rig.outputs()
        o_res = {k: out[k] for k in out if k.startswith("result.") or k == "total"}
        o_fb = {k: out[k] for k in out if k.startswith("feedback.") or k == "percent"}
        if all(v is None for v in o_res.values()):
            o_res = None
        if all(v is None for v in o_fb.values()):
            o_fb = None
        if not o_res == {} and not any(vt.same(o_res, x) for x in res):
            bad("result-outputs", f"result outputs {o_res}, expected {res} (tick gave {got})")
        shown_res = o_res
        src = cur if not sent else None
        fbs = [fb_before] + ([fb_of(m) for m in src.feedbacks[src.shown:]] if src else [])
        ix = [i for i, x in enumerate(fbs) if vt.same(o_fb, x)]
        if o_fb != {} and not ix:
            bad("feedback", f"feedback outputs {o_fb}, expected one of {fbs}")
        if src is not None and src.phase == "accepted" and noticed and not new and not was_due and not cancels_before and not expired and not early and got == RUNNING:
            if src.feedbacks and not vt.same(o_fb, fb_of(src.feedbacks[-1])):
                bad("feedback-missing", f"feedback outputs {o_fb}, expected {fb_of(src.feedbacks[-1])}")
        if src is not None and ix:
            src.shown += max(0, ix[-1] - 1) if ix[-1] else 0
        shown_fb = o_fb
        # --- end of the goal
        if got == "ERR":
            rig_recover(rig, bad, alive, new_goals)
            cur = None
            fresh()
            last = "setup"
            continue
        if not sent and cur is not None and got in (SUCC, FAIL):
            if cur.phase == "finished":
                ctx.count("results")
                if cur.outcome != "none" and cur.outcome[0] in (5, 6):
                    ctx.count("aborted")
            elif cur.phase == "accepted":
                ctx.count("expired")
            cur.given_up = cur.given_up or "done"
            cur = None
            idle = 0
        elif not sent and cur is not None and due and not cur.owes() and cur.phase in ("accepted", "finished", "rejected"):
            pass
        # --- progress
        settled = cur is None or not cur.owes()
        busy = cur is not None and cur.phase == "accepted" and not due and not expired and not cur.cancels()
        waiting = not due and cur is None
        if got == RUNNING and settled and not busy and not waiting and not sent:
            idle += 1
            if idle > PATIENCE:
                bad("stuck", f"no progress for {idle} ticks although the server answered everything (goal {cur and (cur.phase, cur.cancels(), cur.outcome)}, due {due}, expired {expired})")
        else:
            idle = 0
        last = "tick"
    if rig.shutdown().is_err() or alive():
        bad("client-left", f"clients left after shutdown: {[c.action_name for c in alive()]}")
    if cur is not None and cur.phase in ("accepted", "pending"):
        give_up("end")
    for _ in range(6):
        serve()
    for g in goals:
        if g.phase == "accepted" and not g.cancels():
            bad("goal-left", "a goal is still running after shutdown and was never cancelled")


def rig_recover(rig, bad, alive, new_goals):
    if str(rig.node.state) != BROKEN:
        bad("error", f"state {rig.node.state} after an error")
    if rig.shutdown().is_err():
        bad("recover", "shutdown after an error failed")
    if alive():
        bad("client-left", "client left after shutdown")
    if rig.setup().is_err():
        bad("recover", "setup after an error failed")
    new_goals()
