"""Scripted leaf: the workload decides what every call returns; every call is logged.

Registered like any user-defined node class (module ``vleaf``), so it can also
be loaded from tree descriptions.
"""

from bt import (
    BehaviorTreeException,
    BTNodeState,
    Err,
    Leaf,
    NodeConfig,
    Ok,
    WorkloadFault,
    define_bt_node,
    dt,
)
from ros_bt_py_interfaces.msg import UtilityBounds

# label -> Behaviour.  Trees loaded from messages find their behaviour here.
BEHAVIOUR = {}
# (op, label, state before) in call order
LOG = []


class Behaviour:
    """Scripted results.  Each stream is a callable (n-th call) -> outcome."""

    def __init__(self, tick, setup=None, untick=None, reset=None, shutdown=None,
                 utility=None, on_tick=None):
        self.streams = {
            "tick": tick,
            "setup": setup,
            "untick": untick,
            "reset": reset,
            "shutdown": shutdown,
        }
        self.n = {k: 0 for k in self.streams}
        self.utility = utility
        self.on_tick = on_tick

    def next(self, op):
        f = self.streams[op]
        i = self.n[op]
        self.n[op] += 1
        return None if f is None else f(i)


@define_bt_node(
    NodeConfig(
        inputs={"label": dt.StringType(allow_dynamic=False)},
        outputs={},
        max_children=0,
    )
)
class ScriptLeaf(Leaf):
    def _b(self):
        return BEHAVIOUR[self._label()]

    def _label(self):
        return self.node_config.inputs["label"].get_value().unwrap()

    def _run(self, op, default):
        before = str(self.state)
        LOG.append((op, self._label(), before))
        if op in ("untick", "reset") and before == "IDLE":
            return Ok(default)
        out = self._b().next(op)
        if out is None:
            return Ok(default)
        if out == "ERR":
            return Err(BehaviorTreeException(f"scripted error in {op}"))
        if out == "RAISE":
            raise WorkloadFault(f"scripted exception in {op}")
        return Ok(out)

    def _do_setup(self):
        return self._run("setup", BTNodeState.IDLE)

    def _do_tick(self):
        if self._b().on_tick is not None:
            self._b().on_tick(self)
        return self._run("tick", BTNodeState.SUCCEEDED)

    def _do_untick(self):
        return self._run("untick", BTNodeState.IDLE)

    def _do_reset(self):
        return self._run("reset", BTNodeState.IDLE)

    def _do_shutdown(self):
        return self._run("shutdown", BTNodeState.SHUTDOWN)

    def _do_calculate_utility(self):
        u = self._b().utility
        if u is None:
            return super()._do_calculate_utility()
        if u == "ERR":
            return Err(BehaviorTreeException("scripted error in utility"))
        return Ok(UtilityBounds(**u))
