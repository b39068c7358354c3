"""Nodes with data, whose behaviour the workload scripts (module ``dleaf`` like any user-defined node module)."""
from bt import BehaviorTreeException, BTNodeState, Err, Leaf, Node, NodeConfig, Ok, define_bt_node, dt

# node name -> callable() -> (result, [(output key, value)], poison) ; poison: mutate what was read
SCRIPT = {}
# called with (node, {key: (value or None, updated)}) at the start of a tick
SEEN = []
# called with (node, key, value) for every assignment
SET = []

RESULTS = {"SUCC": BTNodeState.SUCCEEDED, "FAIL": BTNodeState.FAILED, "RUN": BTNodeState.RUNNING}


class _Data:
    def _tick_data(self, between=lambda: None):
        seen = {}
        for k, c in self.node_config.inputs.items():
            v = self.inputs.get_value(k).unwrap()
            seen[k] = (v, c.is_updated())
        for f in SEEN:
            f(self, seen)
        res, sets, poison = SCRIPT[self.name]()
        if poison:
            for v, _ in seen.values():
                if isinstance(v, list):
                    v.append(999)
                elif isinstance(v, dict):
                    v["poison"] = 999
        late = len(sets) // 2
        early, sets = sets[:late], sets[late:]
        for part in (early, None, sets):
            if part is None:
                between()
                continue
            for k, v in part:
                r = self.outputs.set_value(k, v)
                assert r.is_ok(), r
                for f in SET:
                    f(self, k, v)
                if poison and isinstance(v, list):
                    v.append(998)
        if res == "ERR":
            return Err(BehaviorTreeException("scripted"))
        return Ok(RESULTS[res])

    def _do_setup(self):
        for c in self.children:
            r = c.setup()
            if r.is_err():
                return r
        return Ok(BTNodeState.IDLE)

    def _do_tick(self):
        return self._tick_data()

    def _do_untick(self):
        for c in self.children:
            r = c.untick()
            if r.is_err():
                return r
        return Ok(BTNodeState.IDLE)

    def _do_reset(self):
        for c in self.children:
            r = c.reset()
            if r.is_err():
                return r
        return Ok(BTNodeState.IDLE)

    def _do_shutdown(self):
        return Ok(BTNodeState.SHUTDOWN)


def _leaf(name, inputs, outputs):
    cls = type(name, (_Data, Leaf), {"__module__": __name__, "__doc__": "Scripted node with data."})
    cls = define_bt_node(NodeConfig(inputs=inputs, outputs=outputs, max_children=0))(cls)
    globals()[name] = cls
    return cls


I, F, S = dt.IntType, dt.FloatType, dt.StringType


def L(**k):
    return dt.ListType(element_type=dt.IntType(), **k)


def D(**k):
    return dt.DictType(element_type=dt.StringType(), **k)


CLASSES = [
    _leaf("DSrc", {}, {"i": I(), "s": S()}),
    _leaf("DBig", {}, {"l": L(), "d": D(), "f": F()}),
    _leaf("DInt", {"i": I()}, {"i": I()}),
    _leaf("DPair", {"a": I(), "b": I()}, {"a": I(), "b": I()}),
    _leaf("DMix", {"s": S(), "f": F()}, {"f": F(), "s": S()}),
    _leaf("DList", {"l": L()}, {"l": L(), "n": I()}),
    _leaf("DDict", {"d": D(), "i": I()}, {"d": D(), "s": S()}),
    _leaf("DSink", {"i": I(), "s": S(), "l": L()}, {}),
]


@define_bt_node(NodeConfig(inputs={"i": dt.IntType()}, outputs={"i": dt.IntType(), "l": L()}, max_children=None))
class DFlow(_Data, Node):
    """Ticks all its children in its own tick."""

    def _do_tick(self):
        bad = []

        def between():
            for c in self.children:
                r = c.tick()
                if r.is_err():
                    bad.append(r)
                    return

        r = self._tick_data(between)
        return bad[0] if bad else r


@define_bt_node(NodeConfig(inputs={}, outputs={"s": dt.StringType()}, max_children=None))
class DRoot(DFlow):
    """Like DFlow, without inputs."""


CLASSES += [DFlow, DRoot]
