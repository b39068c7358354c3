"""C06: containers hold only values inside their constraints, isolated from the outside.

Online model of one container (value, updated flag, constraints) next to the
real one, under random set / get / reset / mutate-what-you-got operations.
"""
import bt
import vtypes as vt
from bt import dt
from common import Violation

PROPERTY = "C06"
LEVEL = "exploration"
RULE = (
    "random type (nested iterables up to depth 3, random constraints) and 40 random operations on one container of it: "
    "assigning values inside, at and beyond the constraints and of other Python types, reading, mutating what was "
    "passed in or handed out, resetting; judged against a model of value and update flag; distinct by (type, "
    "operation, verdict)"
)
TIERS = {"quick": 12000, "thorough": 300000}
FLOORS = {"accepted": 20000, "rejected": 8000, "mutations": 5000, "wrong_type": 3000}

FOREIGN = [None, 1, 1.5, "a", b"a", True, [1], {"a": 1}, object(), (1,), {1, 2}, int]


def case(ctx):
    rng = ctx.rng
    sp = vt.gen(rng)
    static_only = getattr(sp, "static_only", False)
    static = True if static_only else rng.random() < 0.3
    c = sp.build(allow_dynamic=not static_only, is_static=static)
    ref = None
    value, updated, known = None, False, False
    ctx.log("type", sp.key(), "static", static)
    held = []  # values we passed in or got, with what they must still not influence

    def bad(key, msg):
        raise Violation(f"{key}/{sp.kind}", f"{sp.key()} static={static}: {msg}")

    def check():
        """The container agrees with the model."""
        if c.is_updated() != updated:
            bad("flag", f"updated flag is {c.is_updated()}, expected {updated}")
        if known:
            g = c.get_value()
            if value is None:
                if g.is_ok() or c.has_value():
                    bad("reset", f"holds {g} after reset_value()")
                return
            if g.is_err() or not vt.same(g.unwrap(), value):
                bad("value", f"holds {g}, expected {value!r}")
            if not c.has_value():
                bad("value", "has_value() is False")
            if sp.accept(g.unwrap()) is False:
                bad("constraint", f"holds {g.unwrap()!r}, which its constraints forbid")

    # a fresh container: its default (whatever it is) is not an update
    check()
    if static and isinstance(c, dt.NumericContainer):
        # only the numeric types promise that the automatic default keeps to the limits
        g = c.get_value()
        if g.is_ok():
            ctx.count("defaults")
            if sp.accept(g.unwrap()) is False:
                bad("default", f"holds {g.unwrap()!r} from the beginning, which its limits forbid")
    for _ in range(40):
        if static and updated and rng.random() < 0.5:
            c.reset_updated()
            updated = False
        op = rng.random()
        if op < 0.62:
            k = rng.random()
            v = sp.sample(rng) if k < 0.45 else sp.near(rng) if k < 0.85 else rng.choice(FOREIGN)
            if v is None and k < 0.45:
                continue
            if isinstance(v, (list, dict)) and sp.kind in ("list", "dict") and rng.random() < 0.05:
                # nothing, which no element can be
                v = _copy(v)
                if isinstance(v, list):
                    v.insert(rng.randint(0, len(v)), None)
                else:
                    v["nothing"] = None
                ctx.count("nothings")
            if k > 0.3 and known and value is not None and rng.random() < 0.3:
                v = c.get_value().unwrap()
            want = sp.accept(v)
            probe = _copy(v)
            before = c.get_value()
            try:
                r = c.set_value(v)
                ok = r.is_ok()
            except Exception as e:
                if want is True:
                    raise
                # a value of another Python type may be refused by raising
                r, ok = f"{type(e).__name__}: {e}", False
                if want is False and not isinstance(e, TypeError):
                    bad("raises", f"set_value({v!r}) raised {r} instead of answering Err")
            ctx.log("set", repr(v)[:120], "->", str(r)[:80])
            ctx.sig(sp.key(), "set", want, ok, static and updated)
            if static and updated:
                ctx.count("static_refused")
                if ok:
                    bad("static", f"accepted {v!r} although the static value is already assigned")
                after = c.get_value()
                if before.is_ok() and (after.is_err() or not vt.same(after.unwrap(), before.unwrap())):
                    bad("static", f"changed to {after}")
            elif want is True:
                if not ok:
                    bad("refused", f"refused {v!r}: {r}")
                ctx.count("accepted")
                n = sp.norm(v)
                if before.is_err() or before.unwrap() != n:
                    updated = True
                if not vt.same(probe, v):
                    bad("argument", f"changed the value it was given: {v!r}")
                if updated or known:
                    value, known = _copy(c.get_value().unwrap()), True
                    if not _eq(value, n):
                        bad("value", f"holds {value!r} after set_value({v!r})")
                held.append(v)
            elif want is False:
                if ok:
                    bad("constraint", f"accepted {v!r}")
                ctx.count("rejected")
                after = c.get_value()
                if after.is_ok() != before.is_ok() or (
                    before.is_ok() and not vt.same(after.unwrap(), before.unwrap())
                ):
                    bad("partial", f"refused {v!r} but changed from {before} to {after}")
            else:
                ctx.count("wrong_type")
                if ok:
                    # bool for int and the like: whatever is accepted must be what is held
                    g = c.get_value()
                    if g.is_err():
                        bad("value", f"set_value({v!r}) Ok but no value")
                    value, known, updated = _copy(g.unwrap()), True, c.is_updated()
                    if sp.accept(value) is False:
                        bad("constraint", f"holds {value!r} after accepting {v!r}")
                    if not isinstance(value, type(c.get_value().unwrap())):
                        bad("value", "unstable type")
        elif op < 0.75:
            g = c.get_value()
            if g.is_ok():
                v = g.unwrap()
                if known and not vt.same(v, value):
                    bad("value", f"get_value() is {v!r}, expected {value!r}")
                held.append(v)
                ga = c.get_value_as(type(v))
                if ga.is_err() or not vt.same(ga.unwrap(), v):
                    bad("get-as", f"get_value_as({type(v)}) is {ga}")
                other = rng.choice([int, str, list, dict, bytes])
                ga = c.get_value_as(other)
                if ga.is_ok() != isinstance(v, other):
                    bad("get-as", f"get_value_as({other}) is {ga} for {v!r}")
        elif op < 0.85:
            if held and not isinstance(held[-1], type):
                before = c.get_value()
                was = _copy(before.unwrap()) if before.is_ok() else None
                if vt.mutate(held[-1] if rng.random() < 0.7 else rng.choice(held), rng):
                    ctx.count("mutations")
                    after = c.get_value()
                    if was is not None and not vt.same(after.unwrap(), was):
                        bad("aliasing", f"mutating a value outside changed the container to {after}")
        elif op < 0.9:
            c.reset_updated()
            updated = False
        elif op < 0.93:
            c.flag_updated()
            updated = True
        elif op < 0.97:
            c.reset_value()
            if not static:
                value, known = None, True
        else:
            other = sp.build(allow_dynamic=not static_only, is_static=static)
            # containers of one type do not share anything
            o = other.get_value()
            s = sp.sample(rng)
            if s is not None:
                was = c.get_value()
                other.set_value(s)
                if was.is_ok() and not vt.same(c.get_value().unwrap(), was.unwrap()):
                    bad("shared", "assigning another container changed this one")
        check()
    ctx.sample({"type": repr(sp.key()), "final": repr(c.get_value())[:200]})


def _copy(v):
    import copy

    return v if isinstance(v, type) else copy.deepcopy(v)


def _eq(a, b):
    try:
        return bool(vt.same(a, b)) or (not isinstance(a, (list, dict)) and bool(a == b)) or a == b
    except Exception:
        return False
