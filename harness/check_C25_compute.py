"""C25: data processing nodes compute what they are documented to, on every tick."""
import importlib
import math

import bt
import catalog as cat
import vleaf
import vtypes as vt
from bt import BROKEN, FAIL, FakeROSNode, IDLE, RUNNING, S, SUCC, Node, dt
from common import Violation
from ros_bt_py_interfaces.msg import UtilityBounds

PROPERTY = "C25"
LEVEL = "exploration"
RULE = "distinct by (class, data types, operator, outcome of the tick, which inputs are static, kind of the preceding operation)"
TIERS = {"quick": 6000, "thorough": 200000}
FLOORS = {"ticks": 8000, "values": 4000, "errors": 500, "failures": 800, "stale": 60, "iterated": 300, "modes": 200, "random_ranges": 20, "examples": 10}

NONE = object()
POOL = [cat.BOOL, cat.INT, cat.INT9, cat.FLOAT, cat.STR, cat.STR3, cat.LIST(cat.INT), cat.LIST(cat.STR), cat.DICT(cat.INT), cat.DICT(cat.STR), cat.MSG,
        cat.LIST(cat.LIST(cat.INT)), cat.LIST(cat.INT, 3)]
NUMERIC = [cat.BOOL, cat.INT, cat.INT9, cat.FLOAT]


class Undefined(Exception):
    pass


def undef():
    raise Undefined


# ---------------------------------------------------------------- arithmetic
def whole(x):
    return x if isinstance(x, int) else undef()


def nz(x):
    return x if x else undef()


def in_range(f, ok):
    return lambda x: f(x) if ok(x) else undef()


def py_floordiv(a, b):
    return a // nz(b)


def py_pow(a, b):
    if a == 0 and b < 0:
        undef()
    return a**b


def shift(f):
    def g(a, b):
        whole(a), whole(b)
        return f(a, b) if b >= 0 else undef()

    return g


def logic(f):
    return lambda a, b: f(whole(a), whole(b))


BIN = {}
for names, f in (
    (("add", "+"), lambda a, b: a + b),
    (("sub", "-"), lambda a, b: a - b),
    (("mul", "*"), lambda a, b: a * b),
    (("div", "/", "truediv"), lambda a, b: a / nz(b)),
    (("floordiv", "//"), py_floordiv),
    (("mod", "%"), lambda a, b: a % nz(b)),
    (("pow", "**"), py_pow),
    (("lshift", "<<"), shift(lambda a, b: a << b)),
    (("rshift", ">>"), shift(lambda a, b: a >> b)),
    (("and", "&"), logic(lambda a, b: a & b)),
    (("or", "|"), logic(lambda a, b: a | b)),
    (("xor", "^"), logic(lambda a, b: a ^ b)),
):
    for n in names:
        BIN[n] = f

UN = {
    "not": lambda x: not x,
    "inv": lambda x: -whole(x) - 1,
    "~": lambda x: -whole(x) - 1,
    "neg": lambda x: 0 - x,
    "-": lambda x: 0 - x,
    "pos": lambda x: 0 + x,
    "+": lambda x: 0 + x,
    "fabs": lambda x: float(abs(x)),
    "ceil": lambda x: -((-x) // 1),
    "floor": lambda x: x // 1,
    "factorial": lambda x: math.prod(range(1, x + 1)) if isinstance(x, int) and x >= 0 else undef(),
    "sqrt": in_range(lambda x: x**0.5, lambda x: x >= 0),
    "degrees": lambda x: x * 180 / math.pi,
    "radians": lambda x: x * math.pi / 180,
    "exp": lambda x: math.e**x,
    "expm1": lambda x: math.e**x - 1,
    "log": in_range(lambda x: math.log2(x) * math.log(2), lambda x: x > 0),
    "log10": in_range(lambda x: math.log(x) / math.log(10), lambda x: x > 0),
    "log1p": in_range(lambda x: math.log(1 + x), lambda x: x > -1),
    "sin": lambda x: math.cos(x - math.pi / 2),
    "cos": lambda x: math.sin(x + math.pi / 2),
    "tan": lambda x: math.sin(x) / math.cos(x),
    "asin": in_range(lambda x: math.atan2(x, math.sqrt(max(0.0, (1 - x) * (1 + x)))), lambda x: -1 <= x <= 1),
    "acos": in_range(lambda x: math.atan2(math.sqrt(max(0.0, (1 - x) * (1 + x))), x), lambda x: -1 <= x <= 1),
    "atan": lambda x: math.atan2(x, 1),
    "sinh": lambda x: (math.e**x - math.e**-x) / 2,
    "cosh": lambda x: (math.e**x + math.e**-x) / 2,
    "tanh": lambda x: (math.e**x - math.e**-x) / (math.e**x + math.e**-x),
    "asinh": lambda x: math.copysign(math.log(abs(x) + math.sqrt(x * x + 1)), x),
    "acosh": in_range(lambda x: math.log(x + math.sqrt(max(0.0, x * x - 1))), lambda x: x >= 1),
    "atanh": in_range(lambda x: math.log((1 + x) / (1 - x)) / 2, lambda x: -1 < x < 1),
    "erf": None, "erfc": None, "gamma": None, "lgamma": None,
}


def erf(x):  # Maclaurin series / limits
    if abs(x) > 5:
        return math.copysign(1.0, x)
    s, t = 0.0, x
    for n in range(200):
        s += t / (2 * n + 1)
        t *= -x * x / (n + 1)
    return 2 / math.sqrt(math.pi) * s


def gamma(x):
    if x <= 0 and x == int(x):
        undef()
    if x < 0.5:
        return math.pi / (math.sin(math.pi * x) * gamma(1 - x))
    g = [0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313, -176.61502916214059, 12.507343278686905, -0.13857109526572012,
         9.9843695780195716e-6, 1.5056327351493116e-7]
    x -= 1
    a = g[0] + sum(g[i] / (x + i) for i in range(1, 9))
    t = x + 7.5
    return math.sqrt(2 * math.pi) * t ** (x + 0.5) * math.e**-t * a


UN["erf"], UN["erfc"] = erf, lambda x: 1 - erf(x)
UN["gamma"] = gamma
UN["lgamma"] = lambda x: math.log(abs(gamma(x)))


def close(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isfinite(a) and math.isfinite(b):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    return vt.same(a, b)


# ---------------------------------------------------------------- format strings
def gen_format(rng, d):
    """(format string, its meaning: keys -> text)."""
    s, parts = "", []
    bad = rng.random() < 0.15
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        if r < 0.4:
            t = rng.choice(["", "foo ", "{{", "}}", "{{x}}", "%s", "ü", "!r", ":"])
            s += t
            parts.append(("lit", t.replace("{{", "{").replace("}}", "}")))
        else:
            k = rng.choice(list(d)) if d and not (bad and rng.random() < 0.6) else "missing"
            conv = rng.choice(["", "", "", "u", "l", "c", "s", "r", "a"]) if not (bad and rng.random() < 0.3) else "q"
            width = rng.choice(["", "", "", ">7", "<5", "^6"]) if conv not in ("",) else ""
            s += "{" + k + ("!" + conv if conv else "") + (":" + width if width else "") + "}"
            parts.append(("f", k, conv, width))
    return s, parts


def do_format(parts, d):
    out = ""
    for p in parts:
        if p[0] == "lit":
            out += p[1]
            continue
        _, k, conv, width = p
        if k not in d or conv == "q":
            return None
        v = d[k]
        t = {"u": lambda: str(v).upper(), "l": lambda: str(v).lower(), "c": lambda: str(v).capitalize(), "r": lambda: repr(v), "a": lambda: ascii(v)}.get(conv, lambda: str(v))()
        if width:
            n = int(width[1:]) - len(t)
            if n > 0:
                left = {">": n, "<": 0, "^": n // 2}[width[0]]
                t = " " * left + t + " " * (n - left)
        out += t
    return out


# ---------------------------------------------------------------- models
# model(node state, inputs, updated, memory) -> (outcome, {output: value}) ; Undefined -> error
def truth(b):
    return (SUCC, {}) if b else (FAIL, {})


def out(**kw):
    return SUCC, kw


def splitext(p):
    cut = p.rfind("/") + 1
    base = p[cut:]
    i = base.rfind(".")
    if i <= 0 or not base[:i].strip("."):
        return p, ""
    return p[: cut + i], base[i:]


def conv_of(i, o):
    t = {1: bool, 2: int, 3: float, 4: str, 5: list, 6: dict, 7: bytes, 12: "msg"}
    a, b = t[i["type_identifier"]], t[o["type_identifier"]]
    if a == b and (a != "msg" or i["ros_msg_type"] == o["ros_msg_type"]):
        return lambda v: v
    if b is str:
        return str
    return {(int, bool): lambda v: v != 0, (bool, int): lambda v: 1 if v else 0, (int, float): float, (float, int): math.trunc}.get((a, b))


def put_attr(obj, path, v):
    part = obj
    for p in path.split(".")[:-1]:
        part = getattr(part, p)
    setattr(part, path.split(".")[-1], v)
    return obj


def get_attr(obj, path):
    for p in path.split("."):
        obj = getattr(obj, p)
    return obj


def has_attr(obj, path):
    try:
        get_attr(obj, path)
        return True
    except AttributeError:
        return False


MODELS = {
    "Compare": lambda i, u, t: truth(i["a"] == i["b"]),
    "CompareNewOnly": lambda i, u, t: truth(i["a"] == i["b"]) if u("a", "b") else (RUNNING, {}),
    "ALessThanB": lambda i, u, t: truth(i["a"] < i["b"]),
    "Constant": lambda i, u, t: out(constant=i["constant_value"]),
    "PassthroughNode": lambda i, u, t: out(out=i["in"]),
    "IOInput": lambda i, u, t: out(out=i["in"]),
    "IOOutput": lambda i, u, t: out(out=i["in"]),
    "StringConcatenation": lambda i, u, t: out(formatted_string=i["a"] + i["b"]),
    "GetFileExtension": lambda i, u, t: out(**dict(zip(("filename", "extension"), splitext(i["path"])))),
    "ListLength": lambda i, u, t: out(length=sum(1 for _ in i["list"])),
    "InsertInList": lambda i, u, t: out(list=i["list"][: i["index"]] + [i["element"]] + i["list"][i["index"]:]),
    "AppendListItem": lambda i, u, t: out(new_list=[*i["list"], i["value"]]),
    "IsInList": lambda i, u, t: truth(any(e == i["in"] for e in i["list"])),
    "SetDictItem": lambda i, u, t: out(new_object={**i["object"], i["attr_name"]: i["attr_value"]}),
    "SetAttr": lambda i, u, t: out(new_object=put_attr(i["object"], i["attr_name"], i["attr_value"])) if has_attr(i["object"], i["attr_name"]) else undef(),
    "Operation": lambda i, u, t: out(result=BIN[i["operator"]](i["a"], i["b"])),
    "UnaryOperation": lambda i, u, t: out(result=UN[i["operator"]](i["in"])),
    "Convert": lambda i, u, t: out(out=conv_of(t["input_type"], t["output_type"])(i["in"])),
    "GetListItem": lambda i, u, t: fresh(i, u, ("list", "index"), lambda: {"item": i["list"][i["index"]]} if i["index"] < len(i["list"]) else None),
    "GetDictItem": lambda i, u, t: fresh(i, u, ("dict", "key"), lambda: {"value": i["dict"][i["key"]]} if i["key"] in i["dict"] else None),
    "GetMultipleDictItems": lambda i, u, t: fresh(
        i, u, ("dict", "keys"), lambda: {"values": [i["dict"][k] for k in i["keys"]]} if all(k in i["dict"] for k in i["keys"]) else None),
    "GetAttr": lambda i, u, t: fresh(i, u, ("object", "attr_name"), lambda: {"attr": get_attr(i["object"], i["attr_name"])} if has_attr(i["object"], i["attr_name"]) else None),
    "FormatString": None, "FormatStringList": None, "RandomInt": None, "IterateList": None,
}
GROWING = {"lshift", "<<", "pow", "**"}
GETTERS = {"GetListItem", "GetDictItem", "GetMultipleDictItems", "GetAttr"}
ATTR = [("example_interfaces/msg/String", "data", cat.STR), ("ros_bt_py_interfaces/msg/Wiring", "source.data_key", cat.STR), ("ros_bt_py_interfaces/msg/Wiring", "target.node_id", cat.STR),
        ("ros_bt_py_interfaces/msg/UtilityBounds", "can_execute", cat.BOOL), ("ros_bt_py_interfaces/msg/UtilityBounds", "lower_bound_success", cat.FLOAT)]


def fresh(i, u, keys, f):
    r = f()
    if r is None:
        return FAIL, {}
    if not u(*keys) and not i["succeed_on_stale_data"]:
        return "STALE", {}
    return SUCC, r


def types_for(cls, rng):
    n = cls.__name__
    if n in ("Operation", "UnaryOperation"):
        return {"operand_type": rng.choice(NUMERIC)}
    if n == "ALessThanB":
        return {"operand_type": rng.choice([cat.INT, cat.INT9, cat.FLOAT])}
    if n == "Convert":
        return {"input_type": rng.choice(POOL), "output_type": rng.choice(POOL)} if rng.random() < 0.4 else {
            "input_type": rng.choice(POOL[:6]), "output_type": rng.choice(POOL[:6])}
    if n in ("GetAttr", "SetAttr"):
        return None
    return {k: rng.choice(POOL) for k, c in cls._node_config.inputs.items() if isinstance(c, dt.GenericType)}


def value(rng, sp, key, cls, cur, fmt):
    n = cls.__name__
    if n in ("FormatString", "FormatStringList") and key.startswith("format"):
        d = cur.get("dict") or {}
        k = [gen_format(rng, d) for _ in range(rng.randint(0, 3) if key.endswith("s") else 1)]
        for s, p in k:
            fmt[s] = p
        return [s for s, _ in k] if key.endswith("s") else k[0][0]
    if n in ("FormatString", "FormatStringList"):
        return {k: rng.randint(-99, 99) if rng.random() < 1 else None for k in rng.sample(["a", "b", "first", "x_1"], rng.randint(0, 4))} if not cur.get("_str") else {
            k: rng.choice(["", "Bar", "foo bar", "ÄÖ", "{a}", "'"]) for k in rng.sample(["a", "b", "first", "x_1"], rng.randint(0, 4))}
    if n == "GetFileExtension":
        return "/".join(rng.choice(["a", "b.c", ".x", "..", "x.tar.gz", "", ".a.b", "n.", "..a", "ü.é"]) for _ in range(rng.randint(1, 3)))
    if key == "index":
        return rng.choice([0, 0, 1, 2, 3, 5, rng.randint(0, 9), 2**63, 2**64 - 1])
    if key == "key" or (key == "attr_name" and n == "SetDictItem"):
        return rng.choice(list(cur.get("dict") or cur.get("object") or {}) + ["nope", ""])
    if key == "keys":
        return [rng.choice(list(cur.get("dict") or {}) * 3 + ["nope"] * (rng.random() < 0.3 or not cur.get("dict"))) for _ in range(rng.randint(0, 3))]
    if key == "attr_name":
        return rng.choice([cur["_attr"]] * 4 + ["nope", "data.nope", cur["_attr"] + ".x", "", "."])
    if n in ("Compare", "CompareNewOnly") and key in "ab" and rng.random() < 0.5 and cur.get("ab"[key == "a"]) is not None:
        return cur["ab"[key == "a"]]
    if key == "in" and n == "IsInList" and cur.get("list") and rng.random() < 0.5:
        return rng.choice(cur["list"])
    if n == "RandomInt":
        return rng.choice([-3, -1, 0, 1, 2, 3, 2**63 - 1, -(2**63)])
    if n == "Operation" and key == "operator":
        return rng.choice([o for o in BIN if not cur["_big"] or o not in GROWING])
    if n == "Operation" and key in "ab":
        if not cur["_big"]:
            return cat.small(rng, vt.Int(-9, 9)) if isinstance(sp, vt.Int) else cat.small(rng, sp)
        if isinstance(sp, vt.Float) and rng.random() < 0.2:
            return rng.choice([1e308, -1e308, 1e-300, 0.0, 0.5])
        if isinstance(sp, vt.Int) and sp.h > 9 and rng.random() < 0.2:
            return rng.choice([sp.l, sp.h, 2**53 + 1, -1, 0])
    if n == "UnaryOperation" and key == "in":
        if isinstance(sp, vt.Float):
            return rng.choice([-3.5, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.5, 4.0])
    if n == "Convert" and key == "in" and isinstance(sp, vt.Float):
        return rng.choice([-2.75, -0.5, 0.0, 0.999, 3.0, 1e15, 1e300, -1e300])
    if n == "Convert" and key == "in" and isinstance(sp, vt.Int) and sp.h > 9 and rng.random() < 0.3:
        return rng.choice([sp.l, sp.h, 2**53 + 1])
    v = cat.small(rng, sp)
    if key == "list" and isinstance(v, list) and n in ("IterateList", "GetListItem", "InsertInList") and not v and rng.random() < 0.8:
        v = [cat.small(rng, sp.elem) for _ in range(rng.randint(1, 3))]
    return v


def case(ctx):
    rng = ctx.rng
    name = rng.choice(sorted(MODELS) + ["Operation", "UnaryOperation", "IterateList", "GetListItem", "Convert", "FormatString"])
    cls = cat.SHIPPED[name]
    ros = FakeROSNode()
    types = types_for(cls, rng)
    cur, fmt = {}, {}
    if types is None:
        import rosidl_runtime_py.utilities as ru

        mt, attr, ty = rng.choice(ATTR)
        types = {"object_type": ru.get_message(mt), "attr_type": ty if rng.random() < 0.8 else rng.choice(POOL)}
        cur["_attr"] = attr
    cur["_big"] = rng.random() < 0.5
    cur["_str"] = False
    if name in ("FormatString", "FormatStringList"):
        types = {}
    static = {k: rng.random() < 0.3 for k in cls._node_config.inputs}
    if name in ("FormatString", "FormatStringList"):
        formats_text(ctx)
        if rng.random() < 0.1:
            return documented_example(ctx, name, ros)
    specs0 = {k: vt.spec_of(v) if isinstance(v, dict) else vt.Msg(v) for k, v in types.items()}
    specs = {k: cat.spec_for(c, specs0) for k, c in cls._node_config.inputs.items() if k not in types}
    specs.update({k: specs0[c._reference] for k, c in cls._node_config.inputs.items() if type(c) is dt.ReferenceType})
    order = sorted(specs, key=lambda k: (k in ("operator",) and -1) or (k in ("dict", "list", "object") and -1) or 0)
    if name.startswith("Format"):
        specs["dict"] = vt.Dict(vt.Str() if cur["_str"] else vt.Int())
        order = ["dict"] + [k for k in specs if k != "dict"]
    values = {}
    for k in order:
        if specs[k] is None:
            continue
        values[k] = cur[k] = specs[k].norm(value(rng, specs[k], k, cls, cur, fmt))
    msg = cat.make(rng, cls, types=types, static=static, values=values)
    msg.node_id = str(bt.make_uuid(rng))
    r = Node.from_msg(msg, ros)
    if r.is_err():
        raise Violation(f"not-built/{name}", f"valid {name} could not be created: {r}", repr(msg)[:2000])
    node = r.unwrap()
    ci = node.node_config.inputs
    dyn = [k for k in specs if not ci[k].is_static]
    stat = [k for k in specs if ci[k].is_static]
    for k in stat:
        if not vt.same(ci[k].get_value().ok(), specs[k].norm(values[k])):
            if specs[k].accept(values[k]) is not True:
                return  # dropped: violates its type
            raise Violation(f"static/{name}", f"static {k} should be {values[k]!r}, is {ci[k].get_value()}")
    child, mode = None, None
    vleaf.BEHAVIOUR.clear()
    vleaf.LOG.clear()
    plan = []
    if cls._node_config.max_children == 1 and rng.random() < 0.6:
        vleaf.BEHAVIOUR["c"] = vleaf.Behaviour(tick=lambda n: plan[-1])
        child = vleaf.ScriptLeaf(name="c", ros_node=ros)
        bt.set_input(child, "label", "c")
        assert node.add_child(child).is_ok()
        ctx.count("modes")
    outs = node.node_config.outputs
    ospec = {k: cat.spec_for(c, specs0) for k, c in outs.items()}
    label = " ".join(str(t.get("type_identifier", t) if isinstance(t, dict) else t.__name__) for t in types.values())

    def bad(key, m):
        raise Violation(f"{key}/{name}", m + f" (inputs { {k: show(k) for k in ci} }, child plan {plan})", ctx.trace[-12:])

    def show(k):
        return ci[k].get_value().ok()

    state = None
    upd, prev = set(), {}
    it = None  # IterateList: [position, announced]
    seen_random = {}

    def do_setup():
        nonlocal state, it
        r = node.setup()
        upd.clear()
        upd.update(ci)
        prev.clear()
        it = [0, False]
        conv = conv_of(types["input_type"], types["output_type"]) if name == "Convert" else True
        ctx.log("setup", str(r)[:80])
        if conv is None:
            if r.is_ok() or node.state != BROKEN:
                bad("conversion", f"impossible conversion was set up: {r}")
            ctx.count("errors")
            return False
        if r.is_err() or node.state != IDLE:
            bad("setup", f"setup: {r}, state {node.state}")
        for k in dyn:
            if ci[k].get_value().is_ok():
                bad("setup-input", f"{k} still has its old value after setup")
        for k, c in outs.items():
            if c.get_value().is_ok():
                bad("setup-output", f"output {k} has a value after setup")
        return True

    if not do_setup():
        ctx.sig(name, label, "no conversion")
        return
    cur.update({k: values[k] for k in values})
    pending = set(dyn)
    last = "setup"
    for step in range(rng.randint(3, 9)):
        # --- new data
        for k in [x for x in order if x in dyn]:
            if k in pending and rng.random() < 0.97 or rng.random() < 0.4:
                v = value(rng, specs[k], k, cls, cur, fmt) if rng.random() < 0.8 or k not in cur else cur[k]
                had = ci[k].get_value().ok()
                r = ci[k].set_value(v)
                if r.is_err():
                    if specs[k].accept(v) is True:
                        bad("input", f"{k} does not accept {v!r}: {r}")
                    continue
                cur[k] = specs[k].norm(v)
                pending.discard(k)
                if had is None or not vt.same(had, cur[k]):
                    upd.add(k)
                if rng.random() < 0.1:
                    ci[k].flag_updated()
                    upd.add(k)
                ctx.log("set", k, v)
        op = rng.random()
        if op < 0.06 and step:
            r = node.untick()
            ctx.log("untick", str(r)[:60], node.state)
            if r.is_err():
                bad("untick", str(r))
            last = "untick"
            continue
        if op < 0.12 and step:
            r = node.reset()
            ctx.log("reset", str(r)[:60])
            if r.is_err() or node.state != IDLE:
                bad("reset", f"{r} {node.state}")
            upd |= set(ci)
            prev.clear()
            it = [0, False]
            last = "reset"
            continue
        if op < 0.17 and step:
            r = node.shutdown()
            if r.is_err():
                bad("shutdown", str(r))
            if not do_setup():
                return
            pending = set(dyn)
            last = "setup"
            continue
        # --- tick
        inp = {k: ci[k].get_value().ok() for k in ci}
        for k in specs:
            if k not in pending and not vt.same(inp[k], specs[k].norm(cur[k])):
                bad("input-value", f"{k} should hold {cur[k]!r}")
        unset = [k for k in ci if inp[k] is None]
        if child is not None:
            plan.append(rng.choice([SUCC, SUCC, SUCC, FAIL, RUNNING] + ["ERR"] * (rng.random() < 0.1)))
        vleaf.LOG.clear()
        before = {k: c.get_value().ok() for k, c in outs.items()}

        def u(*keys):
            return any(k in upd for k in keys)

        try:
            if unset:
                undef()
            want = expected(name, {k: ci[k].get_value().ok() for k in ci}, u, types, child, plan[-1] if plan else None, it, fmt)
        except Undefined:
            want = ("ERR", {})
        except (OverflowError, ZeroDivisionError, AssertionError):
            want = ("ERR", {})
        if name in ("UnaryOperation",) and want[0] == SUCC and isinstance(want[1]["result"], float) and isinstance(ospec["result"], vt.Int):
            # a function whose result is whole only by rounding
            want = ("ERR", {}) if inp["operator"] not in ("ceil", "floor") else want
        if name == "UnaryOperation" and want[0] == SUCC and inp["operator"] in ("ceil", "floor"):
            want = (SUCC, {"result": int(want[1]["result"])})
        try:
            r = node.tick()
        except Exception as e:
            bad(f"raises-{type(e).__name__}", f"tick raised {type(e).__name__}: {e}")
        ctx.count("ticks")
        ctx.log("tick", str(r)[:200], want)
        called = len([x for x in vleaf.LOG if x[0] == "tick"])
        if want[0] == SUCC:
            for k, v in want[1].items():
                if v is NONE:
                    continue
                ok = ospec[k].accept(v)
                if ok is None and refused(ospec[k], v):
                    ok = False
                if ok is False:
                    want = ("ERR", {})
                    break
        if want[0] == "ERR":
            if r.is_ok() or node.state != BROKEN:
                bad("no-error", f"expected an error, got {r} in state {node.state}, outputs { {k: c.get_value().ok() for k, c in outs.items()} }")
            ctx.count("errors")
            ctx.sig(name, label, inp.get("operator"), "ERR", tuple(stat), bool(unset))
            assert node.shutdown().is_ok()
            if not do_setup():
                return
            pending = set(dyn)
            last = "setup"
            continue
        if r.is_err():
            bad("error", f"expected {want}, got {r}")
        state = r.unwrap()
        if str(state) != (RUNNING if want[0] == "STALE" else want[0]) or node.state != state:
            bad("result", f"expected {want}, got {state}")
        if child is not None and name in GETTERS and called != 1:
            bad("child", f"child was ticked {called} times")
        for k, v in inp.items():
            if not vt.same(ci[k].get_value().ok(), v):
                bad("input-changed", f"the tick changed its own input {k} from {v!r}")
            if ci[k].is_updated():
                bad("input-updated", f"input {k} is still flagged as updated after the tick")
        upd.clear()
        for k, c in outs.items():
            v = c.get_value().ok()
            if k in want[1]:
                if want[1][k] is NONE:
                    continue
                w = ospec[k].norm(want[1][k])
                if not (close(v, w) if name == "UnaryOperation" else vt.same(v, w)):
                    bad("value", f"output {k} is {v!r}, expected {w!r}")
                ctx.count("values")
            elif not vt.same(v, before[k]):
                bad("output", f"output {k} changed from {before[k]!r} to {v!r} although the result is {want[0]}")
            if v is not None and ospec[k].accept(v) is False:
                bad("output-type", f"output {k} holds {v!r}, which its type doesn't allow")
        if name == "RandomInt":
            v = outs["random_number"].get_value().unwrap()
            if not inp["min"] <= v <= inp["max"]:
                bad("random", f"{v} is outside of {inp['min']}..{inp['max']}")
            if inp["max"] - inp["min"] <= 3:
                got = {v}
                for _ in range(120):
                    assert node.tick().is_ok()
                    got.add(outs["random_number"].get_value().unwrap())
                if got != set(range(inp["min"], inp["max"] + 1)):
                    bad("random", f"120 draws from {inp['min']}..{inp['max']} gave only {sorted(got)}")
                ctx.count("random_ranges")
        if want[0] == FAIL:
            ctx.count("failures")
        if want[0] == "STALE":
            ctx.count("stale")
        if name == "IterateList":
            ctx.count("iterated")
        ctx.sig(name, label, inp.get("operator"), want[0], tuple(stat), last, plan[-1] if plan else None, u())
        last = "tick"


def formats_text(ctx):
    """The conversions of text, which the nodes cannot be given (see the known findings)."""
    cls = getattr(importlib.import_module("ros_bt_py.nodes.format"), "ExtendedFormatter", None)
    if cls is None:
        return
    rng = ctx.rng
    d = {k: rng.choice(["", "Bar", "foo bar", "FOO bAR", "ÄÖ x", "{a}", "'", "straße", 7, -1.5, [1, "a"], None, True]) for k in rng.sample(["a", "b", "first", "x_1"], rng.randint(1, 4))}
    s, parts = gen_format(rng, d)
    want = do_format(parts, d)
    try:
        got = cls().format(s, **d)
    except Exception:
        got = None
    ctx.count("texts")
    if got != want:
        raise Violation("value/text", f"{s!r} with {d} is {got!r}, expected {want!r}")


def documented_example(ctx, name, ros):
    """The example in the class documentation."""
    ctx.count("examples")
    node = cat.SHIPPED[name](name="n", ros_node=ros)
    many = name == "FormatStringList"
    assert node.setup().is_ok()
    try:
        r = node.node_config.inputs["dict"].set_value({"first": "bar", "second": "not_printed"})
    except Exception as e:
        r = bt.Err(repr(e))
    if r.is_err():
        raise Violation(f"documented-example/{name}", f"the dict of the documented example is refused: {r}")
    bt.set_input(node, "format_strings" if many else "format_string", ["foo {first}", "bar {first}"] if many else "foo {first}")
    r = node.tick()
    got = node.node_config.outputs["formatted_strings" if many else "formatted_string"].get_value().ok()
    if r.ok() != S.SUCCEEDED or got != (["foo bar", "bar bar"] if many else "foo bar"):
        raise Violation(f"documented-example/{name}", f"the documented example gives {r}, {got!r}")


def refused(ospec, v):
    """Whether a value of another Python type (bool for int) is refused."""
    try:
        return ospec.build().set_value(v).is_err()
    except Exception:
        return True


def expected(name, i, u, t, child, plan, it, fmt):
    if name in GETTERS and child is not None:
        if plan == "ERR":
            undef()
        if plan in (FAIL, RUNNING):
            return plan, {}
    if name == "FormatString":
        if i["format_string"] not in fmt:
            undef()
        s = do_format(fmt[i["format_string"]], i["dict"])
        return (FAIL, {}) if s is None else out(formatted_string=s)
    if name == "FormatStringList":
        x = [do_format(fmt[s], i["dict"]) for s in i["format_strings"]]
        return (FAIL, {}) if any(s is None for s in x) else out(formatted_strings=x)
    if name == "RandomInt":
        if i["min"] >= i["max"]:
            undef()
        return out(random_number=NONE)
    if name == "IterateList":
        if u("list"):
            it[:] = [0, False]
        li = i["list"]
        if not li:
            return SUCC, {}
        o = {"list_item": li[it[0]]}
        if child is None:
            it[0] += 1
            if it[0] == len(li):
                it[:] = [0, False]
                return SUCC, o
            return RUNNING, o
        if not it[1]:
            it[1] = True
            return RUNNING, o
        if plan == "ERR":
            undef()
        if plan == SUCC:
            it[:] = [it[0] + 1, False]
            if it[0] == len(li):
                it[:] = [0, False]
                return SUCC, o
            return RUNNING, o
        return plan, o
    return MODELS[name](i, u, t)
