"""Specifications of data types: what a container has to accept, written without
looking at the containers.

A spec is built from a constructor of the public type and the constraints it was
given; ``accept`` says which values satisfy them, ``narrower`` is the documented
compatibility order ("constraints at least as narrow").
"""
import array

import bt
from bt import dt

I64 = (-(2**63), 2**64 - 1)
DBL = (-1.7976931348623157e308, 1.7976931348623157e308)
BIG = 2**64 - 1616


class Sp:
    kind = ""
    container = False

    def build(self, **flags):
        raise NotImplementedError

    def accept(self, v):
        """True / False for values of the declared Python type; None: any other."""
        raise NotImplementedError

    def sample(self, rng):
        """A value inside the constraints (None if there is none)."""
        raise NotImplementedError

    def near(self, rng):
        """A value of the right Python type, at or beyond the constraints."""
        raise NotImplementedError

    def norm(self, v):
        """The value as the container has to hand it out."""
        return v

    def narrower(self, o):
        """Are the constraints of ``o`` at least as narrow as ours?"""
        return type(self) is type(o) and self._narrower(o)

    def _narrower(self, o):
        return True

    def key(self):
        return (self.kind,)


class Bool(Sp):
    kind = "bool"

    def build(self, **f):
        return dt.BoolType(**f)

    def accept(self, v):
        return True if type(v) is bool else None

    def sample(self, rng):
        return rng.random() < 0.5

    near = sample


class Int(Sp):
    kind = "int"

    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi
        self.l = I64[0] if lo is None else lo
        self.h = I64[1] if hi is None else hi

    def build(self, **f):
        return dt.IntType(min_value=self.lo, max_value=self.hi, **f)

    def accept(self, v):
        return self.l <= v <= self.h if type(v) is int else None

    def sample(self, rng):
        c = [self.l, self.h, max(self.l, min(self.h, 0)), max(self.l, min(self.h, rng.randint(-9, 9)))]
        return rng.choice(c) if rng.random() < 0.6 else rng.randint(self.l, self.h)

    def near(self, rng):
        return rng.choice([self.l - 1, self.h + 1, self.l, self.h, 0, 1, -1, 2**64, -(2**63) - 1, 10**30, rng.randint(-300, 300)])

    def _narrower(self, o):
        return o.l >= self.l and o.h <= self.h

    def key(self):
        return ("int", self.l, self.h)


class Float(Sp):
    kind = "float"

    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi
        self.l = DBL[0] if lo is None else lo
        self.h = DBL[1] if hi is None else hi

    def build(self, **f):
        return dt.FloatType(min_value=self.lo, max_value=self.hi, **f)

    def accept(self, v):
        if type(v) is int:
            v = float(v)
        if type(v) is not float or v != v:
            return None
        return self.l <= v <= self.h

    def norm(self, v):
        return float(v)

    def sample(self, rng):
        c = [self.l, self.h, max(self.l, min(self.h, 0.0)), max(self.l, min(self.h, rng.uniform(-9, 9)))]
        return rng.choice(c)

    def near(self, rng):
        e = 1e-3
        return rng.choice([self.l - e if abs(self.l) < 1e9 else float("-inf"), self.h + e if abs(self.h) < 1e9 else float("inf"),
                           self.l, self.h, 0.0, -0.0, 1, -7, float("inf"), float("-inf"), rng.uniform(-300, 300)])

    def _narrower(self, o):
        return o.l >= self.l and o.h <= self.h

    def key(self):
        return ("float", self.l, self.h)


ALPHA = ["", "a", "b", "ab", "abc", "x y", "ü", "日本", '"q"', "\\", "\n", "null", "{}", "[1]", "0", "a" * 40, "Zz"]


class Str(Sp):
    kind = "str"

    def __init__(self, n=None, options=None):
        self.n, self.options = n, options
        self.m = BIG if n is None else n

    def build(self, **f):
        return dt.StringType(
            max_length=self.n, valid_values=None if self.options is None else list(self.options), **f
        )

    def accept(self, v):
        if type(v) is not str:
            return None
        return len(v) <= self.m and (self.options is None or v in self.options)

    def sample(self, rng):
        c = [s for s in (self.options if self.options is not None else ALPHA) if len(s) <= self.m]
        return rng.choice(c) if c else None

    def near(self, rng):
        return rng.choice(ALPHA + ["z" * min(self.m, 50), "z" * (min(self.m, 50) + 1)] + list(self.options or []))

    def _narrower(self, o):
        if o.m > self.m:
            return False
        return self.options is None or (o.options is not None and set(o.options) <= set(self.options))

    def key(self):
        return ("str", self.m, None if self.options is None else tuple(sorted(self.options)))


class Path(Sp):
    kind = "path"

    def build(self, **f):
        return dt.PathType(**f)

    def accept(self, v):
        if type(v) is not str:
            return None
        return v.startswith("file://") or v.startswith("package://")

    def sample(self, rng):
        return rng.choice(["file://", "package://"]) + rng.choice(["/tmp/x", "pkg/a.yaml", "", "ü/ö"])

    def near(self, rng):
        return rng.choice([self.sample(rng), "/tmp/x", "http://x", "", "file:/x", "File:///x", " file:///x", "xpackage://a"])


class Bytes(Sp):
    kind = "bytes"

    def __init__(self, n=None):
        self.n = n
        self.m = 1 if n is None else n

    def build(self, **f):
        return dt.BytesType(max_length=self.n, **f)

    def accept(self, v):
        return len(v) <= self.m if type(v) is bytes else None

    def sample(self, rng):
        return bytes(rng.randrange(256) for _ in range(rng.randint(0, min(self.m, 6))))

    def near(self, rng):
        k = rng.choice([0, 1, self.m, self.m + 1, self.m + 3])
        return bytes(rng.randrange(256) for _ in range(min(k, 20)))

    def _narrower(self, o):
        return o.m <= self.m

    def key(self):
        return ("bytes", self.m)


class _Iter(Sp):
    container = True
    depth = 0

    def __init__(self, elem, n=None, strict=False):
        self.elem, self.n, self.strict = elem, n, strict
        self.m = BIG if n is None else n

    def _len_ok(self, k):
        return k == self.m if self.strict else k <= self.m

    def _count(self, rng):
        if self.strict:
            return self.m
        return rng.randint(0, min(self.m, 4))

    def _items(self, rng, k):
        out = [self.elem.sample(rng) for _ in range(k)]
        return None if any(x is None for x in out) else out

    def _narrower(self, o):
        if o.m > self.m:
            return False
        if self.strict and not (o.strict and o.m == self.m):
            return False
        return self.elem.narrower(o.elem)

    def key(self):
        return (self.kind, self.m, self.strict, self.elem.key())

    def _near_items(self, rng):
        k = rng.choice([0, 1, 2, min(self.m, 5), min(self.m, 5) + 1, max(0, min(self.m, 5) - 1)])
        out = [self.elem.sample(rng) for _ in range(k)]
        out = [x for x in out if x is not None]
        if out and rng.random() < 0.5:
            out[rng.randrange(len(out))] = self.elem.near(rng)
        return out


class List(_Iter):
    kind = "list"

    def build(self, **f):
        return dt.ListType(element_type=self.elem.build(), max_length=self.n, strict_length=self.strict, **f)

    def accept(self, v):
        if type(v) is not list:
            return None
        a = [self.elem.accept(x) for x in v]
        if None in a:
            return None
        return self._len_ok(len(v)) and all(a)

    def sample(self, rng):
        return self._items(rng, self._count(rng))

    def near(self, rng):
        return self._near_items(rng)


class Dict(_Iter):
    kind = "dict"

    def build(self, **f):
        return dt.DictType(element_type=self.elem.build(), max_length=self.n, strict_length=self.strict, **f)

    def accept(self, v):
        if type(v) is not dict:
            return None
        a = [self.elem.accept(x) for x in v.values()]
        if None in a or len({str(k) for k in v}) != len(v):
            return None
        return self._len_ok(len(v)) and all(a)

    def norm(self, v):
        return {str(k): x for k, x in v.items()}

    def _keys(self, rng, k):
        pool = ["a", "b", "c", "", "ü", "a.b", "k6", "k7", "zz"] + ([3, 4, 5] if self.depth == 0 else [])
        rng.shuffle(pool)
        return pool[:k]

    def sample(self, rng):
        it = self._items(rng, self._count(rng))
        return None if it is None else dict(zip(self._keys(rng, len(it)), it))

    def near(self, rng):
        it = self._near_items(rng)
        return dict(zip(self._keys(rng, len(it)), it))


def messages():
    import example_interfaces.msg as m
    from ros_bt_py_interfaces.msg import NodeDataLocation, NodeDataType, UtilityBounds, Wiring

    return [m.String, m.Int32, m.Bool, m.Float64, m.Byte, m.Empty, m.Int32MultiArray, m.VerifMix,
            Wiring, NodeDataLocation, NodeDataType, UtilityBounds]


def fill(msg, rng, depth=0):
    """Random valid content for a ROS message."""
    for f, t in msg.get_fields_and_field_types().items():
        setattr(msg, f, field_value(t, rng))
    return msg


def field_value(t, rng):
    import re

    import btshim

    m = re.match(r"(.*)\[(\d+)\]$", t)
    if m:
        return [field_value(m.group(1), rng) for _ in range(int(m.group(2)))]
    m = re.match(r"sequence<(.*?)(?:, (\d+))?>$", t)
    if m:
        k = rng.randint(0, min(3, int(m.group(2) or 3)))
        return [field_value(m.group(1), rng) for _ in range(k)]
    m = re.match(r"w?string(?:<(\d+)>)?$", t)
    if m:
        c = [s for s in ALPHA if len(s) <= int(m.group(1) or 99)]
        return rng.choice(c)
    if t == "boolean":
        return rng.random() < 0.5
    if t == "octet":
        return bytes([rng.randrange(256)])
    if t in btshim._INT_RANGE:
        lo, hi = btshim._INT_RANGE[t]
        return rng.choice([lo, hi, rng.randint(lo, hi), max(lo, min(hi, rng.randint(-3, 3)))])
    if t == "float":
        return float(rng.randint(-100, 100)) / 4
    if t == "double":
        return rng.choice([0.0, -1.5, 1e300, 0.1, rng.uniform(-9, 9)])
    return fill(btshim.get_interface_cls(t)(), rng)


class Msg(Sp):
    kind = "msg"

    def __init__(self, cls):
        self.cls = cls

    def build(self, **f):
        return dt.RosMessageType(message_type=self.cls, **f)

    def accept(self, v):
        return isinstance(v, self.cls)

    def sample(self, rng):
        return fill(self.cls(), rng)

    def near(self, rng):
        return fill(rng.choice(messages())(), rng) if rng.random() < 0.7 else rng.choice([1, "a", [], {}, self.cls])

    def _narrower(self, o):
        return o.cls is self.cls

    def key(self):
        return ("msg", self.cls.__name__)


class Name(Sp):
    kind = "rosname"

    def __init__(self, which, iid=0):
        self.which, self.iid = which, iid

    def build(self, **f):
        return getattr(dt, self.which)(interface_id=self.iid, **f)

    def accept(self, v):
        return True if type(v) is str else None

    def sample(self, rng):
        return rng.choice(["/foo", "bar", "~/x", "a/b"])

    near = sample

    def _narrower(self, o):
        return (self.which, self.iid) == (o.which, o.iid)

    def key(self):
        return ("rosname", self.which, self.iid)


TYPE_MAP = {bool: 1, int: 2, float: 3, str: 4, bytes: 7, list: 5, dict: 6, object: 12}


class Generic(Sp):
    """Holds the description of a type, restricted to some builtins."""

    kind = "generic"
    static_only = True

    def __init__(self, types=None):
        self.types = types
        self.t = list(TYPE_MAP) if types is None else types

    def build(self, **f):
        f.pop("allow_dynamic", None)
        return dt.GenericType(**({} if self.types is None else {"valid_types": list(self.types)}), **f)

    def describe(self, rng, depth=0, types=None):
        t = rng.choice(types or self.t)
        d = {"type_identifier": TYPE_MAP[t]}
        if t is int:
            d.update(min_value=rng.choice([-(2**63), -5, 0]), max_value=rng.choice([2**63 - 1, 5, 7]))
        elif t is float:
            d.update(min_value=rng.choice([DBL[0], -0.5, 0.0]), max_value=rng.choice([DBL[1], 1.5]))
        elif t in (str, bytes):
            d.update(max_length=rng.choice([1, 3, BIG]))
        elif t in (list, dict):
            inner = [x for x in (types or self.t) if depth < 2 or x not in (list, dict)]
            if not inner:
                return None
            e = self.describe(rng, depth + 1, inner)
            if e is None:
                return None
            d.update(max_length=rng.choice([2, BIG]), strict_length=False, element_type=e)
        elif t is object:
            d.update(ros_msg_type=rng.choice(["example_interfaces/msg/Empty", "example_interfaces/msg/String",
                                              "ros_bt_py_interfaces/msg/Wiring"]))
        return d

    def sample(self, rng):
        return self.describe(rng)

    def _ok(self, v):
        names = {
            1: (bool, set()), 2: (int, {"min_value", "max_value"}), 3: (float, {"min_value", "max_value"}),
            4: (str, {"max_length"}), 7: (bytes, {"max_length"}),
            5: (list, {"max_length", "strict_length", "element_type"}),
            6: (dict, {"max_length", "strict_length", "element_type"}), 12: (object, {"ros_msg_type"}),
        }
        if v.get("type_identifier") not in names:
            return False
        t, keys = names[v["type_identifier"]]
        if t not in self.t or set(v) - {"type_identifier"} != keys:
            return False
        return self._ok(v["element_type"]) if "element_type" in v else True

    def accept(self, v):
        return self._ok(v) if type(v) is dict else None

    def near(self, rng):
        v = Generic().describe(rng)
        k = rng.random()
        if k < 0.2:
            v.pop(rng.choice(list(v)))
        elif k < 0.3:
            v["extra"] = 1
        elif k < 0.4:
            v["type_identifier"] = rng.choice([0, 9, 99])
        return v

    def _narrower(self, o):
        return set(o.t) <= set(self.t)

    def key(self):
        return ("generic", tuple(sorted(x.__name__ for x in self.t)))


class RosType(Sp):
    kind = "rostype"
    static_only = True

    def __init__(self, which, iid=0):
        self.which, self.iid = which, iid

    def build(self, **f):
        f.pop("allow_dynamic", None)
        return getattr(dt, self.which)(interface_id=self.iid, **f)

    def _pool(self):
        import example_interfaces.action as a
        import example_interfaces.msg as m
        import example_interfaces.srv as s
        from ros_bt_py_interfaces.srv import LoadTree

        msgs = messages() + [s.SetBool.Request, a.Fibonacci.Goal]
        return {"RosTopicType": msgs, "RosComponentType": msgs,
                "RosServiceType": [s.Trigger, s.SetBool, s.AddTwoInts, LoadTree],
                "RosActionType": [a.Fibonacci, a.Progress]}

    def accept(self, v):
        if not isinstance(v, type):
            return None
        return v in self._pool()[self.which]

    def sample(self, rng):
        return rng.choice(self._named(self.which))

    def _named(self, which):
        return self._pool()[which]

    def near(self, rng):
        return rng.choice(self._named(rng.choice(list(self._pool()))) + [int, dict])

    def _narrower(self, o):
        return (self.which, self.iid) == (o.which, o.iid)

    def key(self):
        return ("rostype", self.which, self.iid)


def gen(rng, depth=0, static_types=True, iterables=True):
    """A random spec."""
    k = rng.random()
    if iterables and k < (0.45, 0.25, 0.0)[min(depth, 2)]:
        return gen_iter(rng, depth)
    pool = ["bool", "int", "float", "str", "bytes", "msg", "path", "name"]
    w = [1, 3, 3, 4, 2, 2, 1, 1]
    if static_types and depth == 0:
        pool += ["generic", "rostype"]
        w += [2, 2]
    return one(rng.choices(pool, w)[0], rng)


def gen_iter(rng, depth):
    n = rng.choice([None, 0, 1, 2, 3, 5])
    sp = (List if rng.random() < 0.6 else Dict)(
        gen(rng, depth + 1), n, strict=n is not None and rng.random() < 0.3
    )
    sp.depth = depth
    return sp


def one(kind, rng):
    if kind == "bool":
        return Bool()
    if kind == "int":
        a, b = sorted(rng.choice([-200, -5, -1, 0, 1, 3, 10, 2**40, 2**63]) for _ in range(2))
        return Int(*rng.choice([(None, None), (a, None), (None, b), (a, b), (a, a)]))
    if kind == "float":
        a, b = sorted(rng.choice([-1e30, -5.5, -1.0, 0.0, 0.25, 3.0, 1e6]) for _ in range(2))
        return Float(*rng.choice([(None, None), (a, None), (None, b), (a, b)]))
    if kind == "str":
        opts = None
        if rng.random() < 0.45:
            opts = rng.sample(["a", "b", "ab", "abc", "Zz", "x y", "ü"], rng.randint(1, 4))
        return Str(rng.choice([None, 0, 1, 2, 3, 40]), opts)
    if kind == "bytes":
        return Bytes(rng.choice([None, 0, 1, 2, 5]))
    if kind == "path":
        return Path()
    if kind == "msg":
        return Msg(rng.choice(messages()))
    if kind == "name":
        return Name(rng.choice(["RosTopicName", "RosServiceName", "RosActionName"]), rng.choice([0, 0, 1, 2]))
    if kind == "generic":
        return Generic(rng.choice([None, rng.sample(list(TYPE_MAP), rng.randint(1, 5))]))
    if kind == "rostype":
        return RosType(rng.choice(["RosTopicType", "RosServiceType", "RosActionType", "RosComponentType"]),
                       rng.choice([0, 0, 1, 2]))
    raise KeyError(kind)


def variation(sp, rng):
    """A spec of the same shape with other constraints."""
    if isinstance(sp, _Iter):
        n = rng.choice([sp.n, sp.n, None, 0, 1, 2, 3, 5])
        e = sp.elem if rng.random() < 0.4 else variation(sp.elem, rng)
        out = type(sp)(e, n, strict=n is not None and (sp.strict if rng.random() < 0.7 else rng.random() < 0.5))
        out.depth = sp.depth
        return out
    if isinstance(sp, Str) and sp.options is not None and rng.random() < 0.7:
        o = [x for x in sp.options if rng.random() < 0.7]
        o += [x for x in ["a", "b", "q"] if rng.random() < 0.25 and x not in o]
        return Str(sp.n if rng.random() < 0.7 else None, o or sp.options)
    k = {"bool": "bool", "int": "int", "float": "float", "str": "str", "bytes": "bytes", "path": "path",
         "msg": "msg", "rosname": "name", "generic": "generic", "rostype": "rostype"}[sp.kind]
    return sp if rng.random() < 0.2 else one(k, rng)


def spec_of(d):
    """Spec of the value field described by a generic type value."""
    t = d["type_identifier"]
    if t == 1:
        return Bool()
    if t == 2:
        return Int(d["min_value"], d["max_value"])
    if t == 3:
        return Float(d["min_value"], d["max_value"])
    if t == 4:
        return Str(d["max_length"])
    if t == 7:
        return Bytes(d["max_length"])
    if t == 12:
        import btshim

        return Msg(btshim.get_interface_cls(d["ros_msg_type"]))
    return (List if t == 5 else Dict)(spec_of(d["element_type"]), d["max_length"], d["strict_length"])


def same(a, b):
    """Equality of values, also inside numpy / array / message fields."""
    if hasattr(a, "tolist"):
        a = a.tolist()
    if hasattr(b, "tolist"):
        b = b.tolist()
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(map(str, a)) == list(map(str, b)) and all(same(x, y) for x, y in zip(a.values(), b.values()))
    if hasattr(type(a), "get_fields_and_field_types") and type(a) is type(b):
        return all(same(getattr(a, f), getattr(b, f)) for f in a.get_fields_and_field_types())
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b


def mutate(v, rng):
    """Change a mutable value in place (True if it could be changed)."""
    if isinstance(v, list):
        if v and rng.random() < 0.5 and mutate(v[0], rng):
            return True
        v.append("poison")
        return True
    if isinstance(v, dict):
        for x in v.values():
            if rng.random() < 0.4 and mutate(x, rng):
                return True
        v["poison"] = "poison"
        return True
    if hasattr(type(v), "get_fields_and_field_types"):
        for f in v.get_fields_and_field_types():
            x = getattr(v, f)
            if isinstance(x, str):
                setattr(v, f, "p" if x != "p" else "q")
                return True
            if isinstance(x, bool):
                setattr(v, f, not x)
                return True
            if isinstance(x, array.array):
                x.append(1)
                return True
            if isinstance(x, list) or hasattr(type(x), "get_fields_and_field_types"):
                if mutate(x, rng):
                    return True
            if isinstance(x, int):
                setattr(v, f, 1 if x != 1 else 2)
                return True
    return False
