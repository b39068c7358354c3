"""One node of the code under test next to a simulated ROS: drives its lifecycle and checks what holds for every node."""
import copy

import bt
import catalog as cat
import vtypes as vt
from bt import BROKEN, IDLE, FakeROSNode, Node
from common import Violation

INTS = {"int8": 7, "int16": 15, "int32": 31, "int64": 63}


def field(rng, t):
    """A value for a message field of type t."""
    import rosidl_runtime_py.utilities as ru

    if t.startswith("sequence<"):
        body = t[9:-1]
        n = 4
        if "," in body:
            body, n = body.split(",")[0], int(body.split(",")[1])
        return [field(rng, body.strip()) for _ in range(rng.randint(0, n))]
    if t.endswith("]"):
        return [field(rng, t[: t.index("[")]) for _ in range(int(t[t.index("[") + 1 : -1]))]
    if t == "boolean":
        return rng.random() < 0.5
    if t in INTS:
        return rng.choice([0, 1, -1, rng.randint(-9, 9), 2 ** INTS[t] - 1, -(2 ** INTS[t])])
    if t == "octet":
        return bytes([rng.choice([0, 1, 10, 127, 128, 255, rng.randrange(256)])])
    if t.startswith("uint"):
        return rng.choice([0, 1, rng.randint(0, 9), 2 ** int(t[4:]) - 1])
    if t in ("double", "float"):
        return rng.choice([0.0, 1.5, -2.25, float(rng.randint(-99, 99))])
    if t.startswith("string") or t.startswith("wstring"):
        n = int(t[t.index("<") + 1 : -1]) if "<" in t else 8
        return rng.choice(["", "a", "b", "foo", "äöü", "long text"])[:n]
    pkg, name = t.split("/")[0], t.split("/")[-1]
    return message(rng, ru.get_message(f"{pkg}/msg/{name}"))


def message(rng, cls):
    m = cls()
    for f, t in cls.get_fields_and_field_types().items():
        setattr(m, f, field(rng, t))
    return m


def fields(cls):
    return cls.get_fields_and_field_types()


class Rig:
    """A node of a shipped class (or of a class of the harness) in a simulated ROS."""

    def __init__(self, ctx, cls, types=None, static=None, values=None, ros=None, name=None, msg=None):
        self.ctx, self.cls, self.rng = ctx, cls, ctx.rng
        self.ros = ros or FakeROSNode()
        self.label = name or cls.__name__
        if msg is None:
            msg = cat.make(ctx.rng, cls, types=types, static=static, values=values)
        msg.node_id = str(bt.make_uuid(ctx.rng))
        r = Node.from_msg(msg, self.ros)
        if r.is_err():
            raise Violation(f"not-built/{self.label}", f"valid {self.label} could not be created: {r}", repr(msg)[:2000])
        self.node = r.unwrap()
        self.ci, self.co = self.node.node_config.inputs, self.node.node_config.outputs
        self.dyn = [k for k, c in self.ci.items() if not c.is_static]
        self.cur, self.upd = {}, set()
        for k, c in self.ci.items():
            if c.is_static:
                self.cur[k] = c.get_value().ok()

    def bad(self, key, msg):
        raise Violation(f"{key}/{self.label}", msg + f" (inputs { {k: c.get_value().ok() for k, c in self.ci.items()} }, state {self.node.state})", self.ctx.trace[-14:])

    # ---- operations; each returns what the node returned
    def _call(self, op):
        before = {k: copy.deepcopy(c.get_value().ok()) for k, c in self.ci.items()}
        try:
            r = getattr(self.node, op)()
        except Exception as e:
            if getattr(e, "_workload_fault", False):
                raise
            self.bad(f"{op}-raises-{type(e).__name__}", f"{op} raised {type(e).__name__}: {e}")
        self.ctx.log(op, str(r)[:120], self.node.state)
        self.ctx.count(op)
        if r.is_ok() and str(r.unwrap()) != str(self.node.state):
            self.bad("answer", f"{op} answered {r} in state {self.node.state}")
        if r.is_err() and op != "setup" and self.node.state != BROKEN:
            self.bad("answer", f"{op} answered {r} in state {self.node.state}")
        if op != "setup":
            for k, v in before.items():
                if not vt.same(self.ci[k].get_value().ok(), v):
                    self.bad("input-changed", f"{op} changed input {k} from {v!r}")
        return r

    def setup(self):
        r = self._call("setup")
        self.upd = set(self.ci)
        for k in self.dyn:
            self.cur.pop(k, None)
        if r.is_ok() and self.node.state != IDLE:
            self.bad("setup", f"state {self.node.state} after setup")
        for k, c in self.co.items():
            if c.get_value().is_ok():
                self.bad("setup-output", f"output {k} has a value after setup")
        return r

    def untick(self):
        return self._call("untick")

    def reset(self):
        r = self._call("reset")
        self.upd = set(self.ci)
        return r

    def shutdown(self):
        return self._call("shutdown")

    def tick(self):
        r = self._call("tick")
        if r.is_ok():
            for k, c in self.ci.items():
                if c.is_updated():
                    self.bad("input-updated", f"input {k} is still flagged as updated after the tick")
            self.upd = set()
        return r

    def set(self, key, value, flag=False):
        """New data on an input; flag: flagged as updated even if equal."""
        had = self.ci[key].get_value().ok()
        r = self.ci[key].set_value(value)
        if r.is_err():
            self.bad("input", f"{key} doesn't accept {value!r}: {r}")
        self.cur[key] = copy.deepcopy(value)
        if had is None or not vt.same(had, value):
            self.upd.add(key)
        if flag:
            self.ci[key].flag_updated()
            self.upd.add(key)
        self.ctx.log("set", key, repr(value)[:80], key in self.upd)

    def outputs(self):
        return {k: copy.deepcopy(c.get_value().ok()) for k, c in self.co.items()}

    def expect_outputs(self, want, why):
        got = self.outputs()
        for k in set(want) | set(got):
            if not vt.same(got.get(k), want.get(k)):
                self.bad("outputs", f"output {k} is {got.get(k)!r}, expected {want.get(k)!r} ({why})")

    def recover(self):
        """shutdown + setup after an error."""
        if self.shutdown().is_err():
            self.bad("recover", "shutdown after an error failed")
        return self.setup()
