"""Executing trees through the manager's services: workload and monitor shared by C14 and C16."""
import copy

import bt
import catalog as cat
import editmodel as em
import sched as sc
import vleaf
from bt import BROKEN, FAIL, FakeROSNode, IDLE, PAUSED, SHUT, SUCC, UNINIT
from bt import BTNodeState as S
from common import Violation
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import TreeState, TreeStructure

REQ = srv.ControlTreeExecution.Request
CMD = {"nothing": REQ.DO_NOTHING, "once": REQ.TICK_ONCE, "periodically": REQ.TICK_PERIODICALLY, "result": REQ.TICK_UNTIL_RESULT,
       "stop": REQ.STOP, "reset": REQ.RESET, "shutdown": REQ.SHUTDOWN, "setup_shutdown": REQ.SETUP_AND_SHUTDOWN, "bogus": 99}
EDIT, TIDLE, TICKING = TreeState.EDITABLE, TreeState.IDLE, TreeState.TICKING
WAIT, STOPREQ, ERROR = TreeState.WAITING_FOR_TICK, TreeState.STOP_REQUESTED, TreeState.ERROR
FLOW = ["Sequence", "Fallback", "MemorySequence", "Parallel", "Inverter", "Sequence", "Optional", "IgnoreRunning"]


def leaf_behaviour(rng, faults):
    seed = rng.random()
    w = [3, 2, 4] + ([0.5 * faults, 0.5 * faults] if faults else [0, 0])
    r = __import__("random").Random(seed)
    ticks = [r.choices([S.SUCCEEDED, S.FAILED, S.RUNNING, "ERR", "RAISE"], w)[0] for _ in range(200)]

    def stream(ok, p_err, p_raise=0.0):
        vals = [r.choices([ok, "ERR", "RAISE"], [1, p_err, p_raise])[0] for _ in range(200)]
        return lambda n: vals[n % 200]

    return vleaf.Behaviour(
        tick=lambda n: ticks[n % 200],
        setup=stream(S.IDLE, 0.06 * faults, 0.03 * faults),
        untick=lambda n: S.IDLE if not faults or r.random() > 0.06 * faults else "ERR",
        reset=stream(S.IDLE, 0.06 * faults),
        shutdown=stream(S.SHUTDOWN, 0.06 * faults),
    )


def tree_msgs(rng, faults):
    msgs, kids = [], {}

    def add(cls, parent, **kw):
        m = cat.make(rng, cls, name=f"n{len(msgs)}", **kw)
        m.node_id = uuid_to_ros(bt.make_uuid(rng))
        msgs.append(m)
        kids[m.node_id] = []
        if parent is not None:
            kids[parent.node_id].append(m.node_id)
        return m

    def leaf(parent):
        label = f"l{len(msgs)}"
        vleaf.BEHAVIOUR[label] = leaf_behaviour(rng, faults)
        return add(vleaf.ScriptLeaf, parent, values={"label": label})

    if rng.random() < 0.3:
        leaf(None)
    else:
        inner = [add(cat.SHIPPED[rng.choice(FLOW)], None, values={"needed_successes": 1})]
        for _ in range(rng.randint(1, 5)):
            free = [p for p in inner if p.max_children < 0 or len(kids[p.node_id]) < p.max_children]
            if not free:
                break
            p = rng.choice(free)
            if rng.random() < 0.25:
                inner.append(add(cat.SHIPPED[rng.choice(FLOW)], p, values={"needed_successes": 1}))
            else:
                leaf(p)
        for p in inner:
            if not kids[p.node_id] and p.max_children == 1:
                leaf(p)
    for m in msgs:
        m.child_ids = kids[m.node_id]
    return msgs

# No tree can be ticked at these rates, messages and requests can hold them anyway
ODD_RATES = [0.0, -0.0, -1.0, float("inf"), float("-inf"), 5e-324, -5e-324]


def run(ctx, faults):
    rng = ctx.rng
    vleaf.BEHAVIOUR.clear()
    vleaf.LOG.clear()
    ros = FakeROSNode()
    s = sc.Sched(rng, rng.choice([0.01, 0.05, 0.2, 0.5]))
    ros.sleep_hook = lambda rate: (ev.append(["sleep", "thread", rate.frequency, "", s.current]), ros.clock.advance(1.0 / rate.frequency), s.point(force=True))
    ev = []
    out = {"structures": [], "states": [], "data": []}
    shape = rng.choices(["ok", "empty", "two-roots"], [12, 1, 1])[0]
    with s.installed():
        m = TreeEditManager(
            ros_node=ros, name="run", tick_frequency_hz=rng.choice([10.0, 1.0, 50.0]),
            publish_tree_structure_callback=lambda x: out["structures"].append(copy.deepcopy(x)),
            publish_tree_state_callback=lambda x: out["states"].append(copy.deepcopy(x)),
            publish_tree_data_callback=lambda x: out["data"].append(copy.deepcopy(x)))
        msgs = [] if shape == "empty" else tree_msgs(rng, faults)
        if msgs:
            hz = rng.choice(ODD_RATES) if rng.random() < 0.15 else m.tick_frequency_hz
            r = m.load_tree(srv.LoadTree.Request(tree=TreeStructure(name="run", tick_frequency_hz=hz, nodes=msgs)), srv.LoadTree.Response())
            if not r.success:
                raise Violation("load", f"valid tree refused: {r.error_message}")
            if hz in ODD_RATES:
                ctx.count("odd_rates")
                if not 0 < m.tick_frequency_hz < float("inf"):
                    raise Violation("rate", f"a tree saved with a tick frequency of {hz} is to be ticked at {m.tick_frequency_hz} Hz")
        if shape == "two-roots":
            x = cat.make(rng, vleaf.ScriptLeaf, name="lost", values={"label": "lost"})
            vleaf.BEHAVIOUR["lost"] = leaf_behaviour(rng, faults)
            if not add_node(m, x, "").success:
                shape = "ok"
        if rng.random() < 0.3:
            m.enable_publish_data = True
        root = m.find_root().unwrap() if shape == "ok" else None
        if root is not None:
            watch(root, ev, s)
        client = Client(ctx, rng, s, m, root, ev, out, shape, faults)
        s.spawn(client.run, "client")
        s.run()
        ctx.count("switches", s.switches)
        ctx.sig("schedule", s.history)
        for t in s.tasks:
            if t.error is not None:
                if t in s.threads:
                    raise Violation("tick-thread-died", f"the tick thread ended with {type(t.error).__name__}: {t.error}; tree state is {m.state}") from t.error
                raise t.error
        if s.reason:
            raise Violation("stuck", f"{s.reason}; tree state {m.state}")
    ctx.sample({"nodes": [x.node_class for x in msgs], "commands": client.done})


def add_node(m, x, parent):
    return m.add_node(srv.AddNode.Request(parent_node_id=parent, node=x), srv.AddNode.Response())


def watch(root, ev, s):
    for op in ("setup", "tick", "untick", "reset", "shutdown"):
        def f(op=op, orig=getattr(root, op)):
            who = "thread" if s.current in s.threads else "client"
            i = len(ev)
            ev.append([op, who, None, str(root.state), s.current])
            try:
                r = orig()
            except Exception as e:
                ev[i][2] = e
                raise
            ev[i][2] = r
            return r

        setattr(root, op, f)


class Client:
    def __init__(self, ctx, rng, s, m, root, ev, out, shape, faults):
        self.ctx, self.rng, self.s, self.m, self.root, self.ev, self.out = ctx, rng, s, m, root, ev, out
        self.shape, self.faults = shape, faults
        self.done = []
        self.thread_mode = None
        self.seen = 0

    def alive(self):
        return any(not t.finished for t in self.s.threads)

    def new(self):
        e, self.seen = self.ev[self.seen:], len(self.ev)
        return e

    def bad(self, key, msg):
        raise Violation(key, f"{msg} (commands so far: {self.done[-6:]}, events: {[tuple(map(str, e[:4])) for e in self.ev[-8:]]})")

    def calls(self, ev, op, who=None):
        return [e for e in ev if e[0] == op and (who is None or e[1] == who)]

    def failed(self, e):
        return isinstance(e[2], Exception) or (hasattr(e[2], "is_err") and e[2].is_err())

    def run(self):
        for _ in range(self.rng.randint(6, 14)):
            self.step()
        # whatever happened, two shutdowns end everything
        for _ in range(2):
            self.command("shutdown")
        if not self.faults and self.m.state != EDIT:
            self.bad("end", f"tree is {self.m.state} after shutdown")
        self.s.block(lambda: not self.alive())
        self.lives()

    def step(self):
        rng = self.rng
        if self.alive() and rng.random() < 0.7:
            k = len(self.calls(self.ev, "tick")) + rng.randint(1, 4)
            self.s.block(lambda: not self.alive() or len(self.calls(self.ev, "tick")) >= k)
        for _ in range(rng.choice([0, 0, 1, 5])):
            self.s.point(force=True)
        if rng.random() < 0.2:
            return self.edit()
        cmd = rng.choices(list(CMD), [0.5, 4, 3, 3, 3, 1.5, 1.5, 0.7, 0.3])[0]
        self.command(cmd)

    def settle(self, what):
        """Monitor while nothing is asked for."""
        if not self.alive():
            n = len(vleaf.LOG)
            for _ in range(3):
                self.s.point(force=True)
            if len(vleaf.LOG) != n:
                self.bad("background", f"after {what} nodes are still called: {vleaf.LOG[n:][:3]}")
            st = self.m.state
            last = self.thread_mode is not None and all(x in ("nothing", "bogus") or isinstance(x, tuple) for x in self.done[self.thread_mode[2]:])
            r = self.ended(st, what)
            if r is not None and last and st != (ERROR if r == "error" else TIDLE):
                self.bad("run-state", f"the run {r}, tree is {st}")
            if st in (TICKING, STOPREQ):
                self.bad("state", f"tree claims to be {st} after {what}, but nothing is running")
            shown = [x for x in self.out["states"][-1].tree_states if x.tree_id == uuid_to_ros(self.m.tree_id.unwrap())][-1].state if self.out["states"] else None
            if shown != st:
                self.bad("published-state", f"tree is {st} after {what}, published is {shown}")

    def lives(self):
        """No node is ticked unless it was set up (again) since it was shut down."""
        up = set()
        for op, label, state in vleaf.LOG:
            if op == "setup":
                up.add(label)
            elif op == "shutdown":
                up.discard(label)
            elif op == "tick" and label not in up:
                self.bad("not-set-up", f"node {label} was ticked in state {state} without having been set up")
        self.ctx.count("calls", len(vleaf.LOG))

    def edit(self):
        m, rng = self.m, self.rng
        st = m.state
        live = self.alive()
        before = em.snap(m)
        kind = rng.choice(["name", "add", "clear?", "wire"])
        if kind == "name":
            r = m.change_tree_name(srv.ChangeTreeName.Request(name=f"name{len(self.done)}"), srv.ChangeTreeName.Response())
        elif kind == "add" and self.root is not None and self.root.node_config.max_children is None:
            x = cat.make(rng, vleaf.ScriptLeaf, name=f"e{len(self.done)}", values={"label": f"e{len(self.done)}"})
            vleaf.BEHAVIOUR[f"e{len(self.done)}"] = leaf_behaviour(rng, self.faults)
            r = add_node(m, x, uuid_to_ros(self.root.node_id))
        else:
            r = m.change_tree_name(srv.ChangeTreeName.Request(name="x"), srv.ChangeTreeName.Response())
        self.done.append(("edit", r.success))
        self.ctx.count("edits")
        if r.success != (st == EDIT):
            self.bad("edit", f"edit in state {st}: success={r.success}, {r.error_message}")
        if not r.success and em.snap(m) != before and not live:
            self.bad("edit", "refused edit changed the tree")
        self.ctx.sig("edit", st, r.success)

    def command(self, cmd):
        m, rng = self.m, self.rng
        self.settle("the last command")
        live, was, live_mode = self.alive(), m.state, self.thread_mode
        n_threads, n_timeouts = len(self.s.threads), self.s.timeouts
        freq = rng.choice([0.0, 0.0, 20.0, 2.5]) if cmd in ("periodically", "result") else 0.0
        if freq and rng.random() < 0.2:
            freq = rng.choice(ODD_RATES[2:])
        old_freq = m.tick_frequency_hz
        self.new()
        self.done.append(cmd)
        self.ctx.log(cmd, was, live)
        a = m.control_execution(REQ(command=CMD[cmd], tick_frequency_hz=freq), srv.ControlTreeExecution.Response())
        now, e = m.state, self.new()
        started = len(self.s.threads) - n_threads
        self.ctx.count("commands")
        self.ctx.count(f"cmd_{cmd}")
        self.ctx.sig(cmd, was, live, a.success, now)
        if a.success and a.tree_state and not self.alive() and a.tree_state != now and self.root is not None and cmd not in ("setup_shutdown", "periodically", "result"):
            self.bad("answer", f"{cmd} from {was} answers with state {a.tree_state}, tree is {now}")
        if not a.success and not a.error_message and cmd != "stop":
            self.bad("answer", f"{cmd} from {was} fails without a reason")
        if started > 1:
            self.bad("threads", f"{cmd} started {started} threads")
        mine = [x for x in e if x[1] == "client"]
        if live and not a.success and not mine and not started and (
                now == ERROR and cmd not in ("stop", "shutdown") or self.s.timeouts > n_timeouts and now in (TIDLE, WAIT, ERROR)):
            self.ctx.count("slow_joins")  # the thread was already done but took its time to end, or failed meanwhile
            return
        if was == ERROR and cmd != "shutdown":
            if a.success or now != ERROR or mine or started:
                self.bad("error-state", f"{cmd} in state ERROR: success={a.success}, state {now}, calls {mine}")
            return
        if cmd in ("nothing", "bogus"):
            if a.success != (cmd == "nothing") or mine or started or (not live and now != was):
                self.bad(cmd, f"success={a.success}, state {was} -> {now}, calls {mine}")
            return
        if cmd in ("once", "periodically", "result"):
            self.tick_command(cmd, a, was, live, live_mode, now, e, mine, started, freq, old_freq)
        elif cmd == "reset":
            self.reset_command(a, was, live, now, mine)
        elif cmd == "stop":
            self.stop_command(a, was, live, now, e, mine)
        else:
            self.shutdown_command(cmd, a, was, live, now, e, mine)

    # ---- the commands
    def tick_command(self, cmd, a, was, live, mode, now, e, mine, started, freq, old_freq):
        m = self.m
        if mine:
            self.bad("who", f"{cmd} called {mine} outside of the tick thread")
        if self.root is None:
            if started or (self.shape == "two-roots") == a.success or (not live and now != was):
                self.bad("no-root", f"{cmd} on a tree with shape {self.shape}: success={a.success}, state {was} -> {now}")
            return
        if live and was in (TICKING, STOPREQ) and not started:
            if a.success:
                self.bad("double-start", f"{cmd} while ticking succeeded")
            return
        if started != 1:
            self.bad("start", f"{cmd} in state {was} (running: {live}): success={a.success} {a.error_message!r}, no thread started")
        e = [x for x in e if x[4] is self.s.threads[-1]]
        if cmd == "once":
            ticks, setups = self.calls(e, "tick"), self.calls(e, "setup")
            if any(self.failed(x) for x in setups) or any(self.failed(x) for x in ticks):
                if a.success or now != ERROR:
                    self.bad("once-error", f"failing tick: success={a.success}, state {now}")
                self.ctx.count("failed_ticks")
                return
            if len(ticks) != 1 or not a.success or now != WAIT or self.alive():
                self.bad("once", f"{len(ticks)} ticks, success={a.success} {a.error_message!r}, state {now}, running={self.alive()}")
            self.ctx.count("single_ticks")
            return
        if not a.success:
            self.bad("start", f"{cmd} in state {was}: {a.error_message!r}")
        self.thread_mode = (cmd, self.s.threads[-1], len(self.done))
        want = freq or old_freq
        if m.tick_frequency_hz != want:
            if freq not in ODD_RATES[2:] or not 0 < m.tick_frequency_hz < float("inf"):
                self.bad("frequency", f"asked for {freq}, was {old_freq}, is {m.tick_frequency_hz}")
            self.ctx.count("odd_rates")
            want = m.tick_frequency_hz
        self.freq = want
        self.ctx.count("starts")

    def run_events(self):
        """Judge what the tick thread did since it was started."""
        cmd, task, _ = self.thread_mode
        self.thread_mode = None
        e = [x for x in self.ev if x[4] is task]
        body = [x[0] for x in e]
        i = 0
        if body[:1] == ["setup"]:
            i = 1
            if self.failed(e[0]):
                return "error"
        ticks = 0
        while i < len(e):
            x = e[i]
            if x[0] == "tick":
                ticks += 1
                if self.failed(x):
                    if i != len(e) - 1:
                        self.bad("after-error", f"after a failed tick the thread went on with {body[i + 1:]}")
                    return "error"
                done = cmd == "result" and str(x[2].unwrap()) in (SUCC, FAIL)
                nxt = body[i + 1] if i + 1 < len(e) else None
                if done and nxt != "untick":
                    self.bad("until-result", f"result {x[2]} was reached, but the thread went on with {nxt}")
                if not done and nxt != "sleep":
                    self.bad("cycle", f"tick without result {x[2]} is followed by {nxt}")
                i += 1
            elif x[0] == "sleep":
                if x[2] != self.freq:
                    self.bad("rate", f"ticks at {x[2]} Hz, {self.freq} Hz was requested")
                nxt = body[i + 1] if i + 1 < len(e) else None
                if nxt not in ("tick", "untick"):
                    self.bad("cycle", f"sleep is followed by {nxt}")
                i += 1
            elif x[0] == "untick":
                if i != len(e) - 1:
                    self.bad("after-stop", f"after stopping the thread did {body[i + 1:]}")
                self.ctx.count("ticks_in_runs", ticks)
                return "error" if self.failed(x) else "stopped"
            else:
                self.bad("cycle", f"the tick thread called {x[0]}")
        self.bad("cycle", f"the thread ended after {body[-3:]}")

    def ended(self, now, what):
        """The thread is gone: judge its run and the state it left."""
        if self.thread_mode is None:
            return None
        r = self.run_events()
        self.ctx.count(f"runs_{r}")
        return r

    def stop_command(self, a, was, live, now, e, mine):
        if self.root is None:
            return
        if was in (TICKING, STOPREQ):
            if self.alive() and now == ERROR and not a.success:
                self.ctx.count("slow_joins")  # it has just failed, its thread is about to end
                return
            if self.alive():
                self.bad("stop", f"stop returned (success={a.success}) while the tick thread is alive")
            mode = self.thread_mode
            r = self.ended(now, "stop")
            if r == "error":
                if a.success or now != ERROR:
                    self.bad("stop-error", f"the tree failed while stopping: success={a.success}, state {now}")
            elif not a.success and not a.error_message and mode and mode[0] == "result" and now == TIDLE:
                self.ctx.count("stops_too_late")  # it had just stopped on its own
            elif not a.success or now != TIDLE or str(self.root.state) not in (IDLE, PAUSED):
                self.bad("stop", f"success={a.success} {a.error_message!r}, state {now}, root {self.root.state}")
            self.ctx.count("stops")
        elif was == WAIT:
            u = self.calls(mine, "untick")
            if len(u) != 1:
                self.bad("stop-waiting", f"root was called {mine}")
            if self.failed(u[0]) or str(self.root.state) not in (IDLE, PAUSED):
                if a.success or now != ERROR:
                    self.bad("stop-error", f"untick failed: success={a.success}, state {now}")
            elif not a.success or now != TIDLE:
                self.bad("stop-waiting", f"success={a.success} {a.error_message!r}, state {now}")
            self.ctx.count("stops_waiting")
        elif mine or (not live and now != was):
            self.bad("stop-idle", f"state {was} -> {now}, calls {mine}")

    def shutdown_command(self, cmd, a, was, live, now, e, mine):
        m = self.m
        if cmd == "setup_shutdown" and (was in (TICKING,) and live):
            if a.success or mine:
                if was == now:
                    self.bad("setup-running", f"success={a.success} while ticking")
            return
        if self.root is None:
            if cmd == "shutdown" and (not a.success or now != EDIT):
                self.bad("shutdown", f"shape {self.shape}: success={a.success} {a.error_message!r}, state {now}")
            return
        if self.alive():
            self.bad("shutdown", f"{cmd} from {was} returned (success={a.success} {a.error_message!r}) while the tick thread is alive")
        if was in (TICKING, STOPREQ):
            r = self.ended(now, cmd)
            if r == "error":
                if not a.success and now == ERROR:
                    return
                if not self.calls(mine, "shutdown"):
                    self.bad("shutdown", f"the tree failed while stopping: success={a.success}, state {now}")
        errs = [x for x in mine if self.failed(x)]
        if errs:
            if a.success:
                self.bad("shutdown-error", f"{cmd} from {was} succeeded although {errs}")
            if now not in (ERROR, was, TIDLE):
                self.bad("shutdown-error", f"{cmd} from {was} failed, state {now}")
            self.ctx.count("failed_shutdowns")
            return
        if not a.success or now != EDIT:
            self.bad("shutdown", f"{cmd} from {was} (running: {live}): success={a.success} {a.error_message!r}, state {now}")
        left = [n.name for n in bt.walk(self.root) if str(n.state) != SHUT]
        if left and was != EDIT:
            self.bad("shutdown-nodes", f"{cmd} from {was}: {left} are not shut down")
        self.ctx.count("shutdowns")

    def reset_command(self, a, was, live, now, mine):
        if live and was in (TICKING, STOPREQ):
            if a.success and self.alive():
                self.bad("reset", "reset of a running tree succeeded")
            return
        if self.root is None:
            if (self.shape == "two-roots") == a.success:
                self.bad("reset", f"shape {self.shape}: success={a.success}")
            return
        r = self.calls(mine, "reset")
        if len(r) != 1 or len(mine) != 1:
            self.bad("reset", f"root was called {mine}: {a}")
        if self.failed(r[0]):
            if a.success or now != was:
                self.bad("reset-error", f"success={a.success}, state {was} -> {now}")
            return
        if not a.success or now != TIDLE or str(self.root.state) != IDLE:
            self.bad("reset", f"success={a.success} {a.error_message!r}, state {now}, root {self.root.state}")
        self.ctx.count("resets")
