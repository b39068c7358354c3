"""Nodes with data whose behaviour depends on where they are, how often they were called and what they read."""
import random

from bt import BehaviorTreeException, BTNodeState, Err, Leaf, Node, NodeConfig, Ok, define_bt_node, dt
from ros_bt_py_interfaces.msg import UtilityBounds

# id(node) -> path of the node in the tree of trees
PATH = {}
# path -> Plan
PLAN = {}
TRACE = []
RESULTS = {"SUCC": BTNodeState.SUCCEEDED, "FAIL": BTNodeState.FAILED, "RUN": BTNodeState.RUNNING}


class Plan:
    """What the node at one place does; the same for every run with the same seed."""

    def __init__(self, seed, path, weights, fails):
        self.seed, self.path, self.weights, self.fails = seed, path, weights, fails
        self.n = 0

    def rng(self, *what):
        return random.Random(f"{self.seed}/{self.path}/{what}")


class _E:
    def _say(self, op, *more):
        p = PATH[id(self)]
        TRACE.append((p, op, *more))
        plan = PLAN[p]
        plan.n += 1
        return plan

    def _data(self, between=lambda: None):
        seen = {k: self.inputs.get_value(k).unwrap() for k in self.node_config.inputs}
        plan = self._say("tick", repr(sorted(seen.items())))
        r = plan.rng(plan.n, sorted(seen.items()))
        ints = sum(v for v in seen.values() if isinstance(v, int)) + sum(len(v) for v in seen.values() if not isinstance(v, int))
        res = r.choices(["SUCC", "FAIL", "RUN", "ERR"], plan.weights)[0]
        between()
        for k, c in self.node_config.outputs.items():
            if r.random() < 0.9:
                v = (ints * 3 + r.randint(0, 5)) % 17
                v = v if isinstance(c, dt.IntType) else "abcdefghijklmnopq"[: v % 5] if isinstance(c, dt.StringType) else list(range(v % 4))
                assert self.outputs.set_value(k, v).is_ok()
        if res == "ERR":
            return Err(BehaviorTreeException("scripted"))
        return Ok(RESULTS[res])

    def _op(self, op, state):
        plan = self._say(op)
        if plan.rng(op, plan.n).random() < plan.fails:
            return Err(BehaviorTreeException("scripted"))
        for c in self.children:
            r = getattr(c, op)()
            if r.is_err():
                return r
        return Ok(state)

    def _do_setup(self):
        return self._op("setup", BTNodeState.IDLE)

    def _do_tick(self):
        return self._data()

    def _do_untick(self):
        plan = PLAN[PATH[id(self)]]
        paused = plan.rng("pause", plan.n).random() < 0.3
        return self._op("untick", BTNodeState.PAUSED if paused else BTNodeState.IDLE)

    def _do_reset(self):
        return self._op("reset", BTNodeState.IDLE)

    def _do_shutdown(self):
        self._say("shutdown")
        return Ok(BTNodeState.SHUTDOWN)

    def _do_calculate_utility(self):
        p = PATH.get(id(self))
        r = random.Random(f"{PLAN[p].seed}/{p}/utility/{PLAN[p].n // 3}")
        x = r.randint(0, 5)
        return Ok(UtilityBounds(
            can_execute=r.random() < 0.9, has_lower_bound_success=r.random() < 0.9, has_upper_bound_success=r.random() < 0.9,
            has_lower_bound_failure=r.random() < 0.9, has_upper_bound_failure=r.random() < 0.9, lower_bound_success=float(x),
            upper_bound_success=float(x + 2), lower_bound_failure=float(x + 1), upper_bound_failure=float(x + 7)))


def _leaf(name, inputs, outputs):
    cls = type(name, (_E, Leaf), {"__module__": __name__, "__doc__": "Node with data."})
    cls = define_bt_node(NodeConfig(inputs=inputs, outputs=outputs, max_children=0))(cls)
    globals()[name] = cls
    return cls


I, S = dt.IntType, dt.StringType


def L(**k):
    return dt.ListType(element_type=dt.IntType(), **k)


LEAVES = [
    _leaf("ESrc", {}, {"i": I(), "s": S(), "l": L()}),
    _leaf("EInt", {"i": I()}, {"i": I()}),
    _leaf("EMix", {"s": S(), "i": I()}, {"i": I(), "s": S()}),
    _leaf("EList", {"l": L()}, {"l": L(), "s": S()}),
    _leaf("ESink", {"i": I()}, {}),
    _leaf("EIdle", {}, {}),
]


@define_bt_node(NodeConfig(inputs={}, outputs={"i": dt.IntType()}, max_children=None))
class EFlow(_E, Node):
    """Ticks all its children."""

    def _do_tick(self):
        bad = []

        def between():
            for c in self.children:
                r = c.tick()
                if r.is_err():
                    bad.append(r)
                    return

        r = self._data(between)
        return bad[0] if bad else r
