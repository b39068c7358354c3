"""C29: nodes and tools that read files give the contents of the file or say why they can't."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import yaml

import bt
import catalog as cat
import vtypes as vt
from bt import BROKEN, FAIL, FakeROSNode, SUCC
from common import Violation
from rosnode import Rig
from importlib import metadata

from ros_bt_py import migrate_tree_files
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py.tree_exec_manager import TreeExecManager
from ros_bt_py_interfaces import srv
import editmodel as em

PROPERTY = "C29"
LEVEL = "exploration"
RULE = "distinct by (class, element type, kind of path, kind of file, preceding operation, cached, outcome)"
TIERS = {"quick": 2000, "thorough": 60000}
FLOORS = {"loads": 2500, "contents": 900, "refused": 1200, "cached": 2500, "mismatch": 250, "migrated": 250, "kept_files": 800, "tick": 5000}

# ways for a file to be no usable YAML document
BROKEN_FILES = {
    "latin1": "[ä]".encode("latin1"), "binary": b"\xff\xfe[1", "control": b"[a\x00b]", "open": b"[1, 2", "alias": b"[&a 1, *b]", "tag": b"[!foo 1]",
    "object": b"!!python/object/apply:os.getcwd []", "two": b"[1]\n---\n[2]\n", "timestamp": b"[2020-99-99]", "bad-int": b'[!!int "x"]', "bad-bool": b'{a: !!bool "x"}',
    "bad-float": b'[!!float "x"]', "bad-time": b'[!!timestamp "x"]', "unhashable": b"{[1]: 2}", "merge": b"{<<: 3}", "tabs": b"a:\n\t- b\n", "deep": b"[" * 700 + b"]" * 700,
    "quote": b'["abc]', "colon": b"a: b: c\n",
}
SCALARS = {"number": b"7\n", "text": b"just text\n", "nothing": b"", "comment": b"# empty\n", "null": b"~\n", "end": b"---\n...\n"}


def case(ctx):
    d = tempfile.mkdtemp(prefix="verif_c29_")
    old = os.environ.get("AMENT_PREFIX_PATH")
    try:
        os.environ["AMENT_PREFIX_PATH"] = d + "/prefix"
        (nodes if ctx.rng.random() < 0.8 else migrate)(ctx, d)
    finally:
        if old is None:
            del os.environ["AMENT_PREFIX_PATH"]
        else:
            os.environ["AMENT_PREFIX_PATH"] = old
        shutil.rmtree(d)


def data(rng, spec, kind, n=None):
    n = rng.randint(1, 5) if n is None else n
    if kind == "list":
        return [sample(rng, spec) for _ in range(n)]
    return {rng.choice(["", "a", "b", "key ", "ü", "1", "true", "x: y"]) + (str(i) if i else ""): sample(rng, spec) for i in range(n)}


def sample(rng, sp):
    v = text_keys(sp.sample(rng))
    return rng.choice([1.5, -0.25, 3.0]) if isinstance(v, float) and rng.random() < 0.5 else v


def text_keys(v):
    if isinstance(v, dict):
        return {str(k): text_keys(x) for k, x in v.items()}
    return [text_keys(x) for x in v] if isinstance(v, list) else v


def dump(rng, v):
    s = yaml.safe_dump(v, sort_keys=False, default_flow_style=rng.choice([None, True, False]), allow_unicode=rng.random() < 0.6, width=rng.choice([20, 80, 1000]), explicit_start=rng.random() < 0.3)
    if rng.random() < 0.3:
        s = "# comment\n" + s
    if rng.random() < 0.2:
        s += "# end"
    b = s.encode()
    if rng.random() < 0.1 and "\\\n" not in s:
        b = b.replace(b"\n", b"\r\n")
    return b


def nodes(ctx, d):
    rng = ctx.rng
    name = rng.choice(["YamlList", "YamlDict"])
    kind = "list" if name == "YamlList" else "dict"
    cls = cat.SHIPPED[name]
    types = [cat.BOOL, cat.INT, cat.INT9, cat.FLOAT, cat.STR, cat.LIST(cat.INT), cat.LIST(cat.STR), cat.DICT(cat.INT)]
    et = rng.choice(types)
    spec = vt.spec_of(et)
    pre = d + "/prefix"
    for p in ("pkg_a", "pkg_b"):
        os.makedirs(f"{pre}/share/ament_index/resource_index/packages", exist_ok=True)
        open(f"{pre}/share/ament_index/resource_index/packages/{p}", "w").close()
        os.makedirs(f"{pre}/share/{p}/sub")
    os.makedirs(d + "/dir with space")
    good = {
        "file": [f"file://{d}/a.yaml", f"file://{d}/b.yaml", f"file://{d}/dir with space/ü.yaml", f"file://{d}/prefix/share/pkg_a/x.yaml"],
        "package": ["package://pkg_a/x.yaml", "package://pkg_b/x.yaml", "package://pkg_b/sub/y.yaml"],
    }
    real = {p: p[len("file://"):] for p in good["file"]}
    real.update({p: f"{pre}/share/{p[len('package://'):]}" for p in good["package"]})
    lost = [f"file://{d}/nope.yaml", f"file://{d}/dir with space", "file://", f"file://{d}/a\x00b", f"file://{d}/" + "x" * 300, f"file://{d}/a.yaml/b", "package://pkg_c/x.yaml",
            "package://", "package:///x.yaml", "package://bad name/x", "package://pkg_a", "package://pkg_a/nope", "package://a\x00b/c", "package://ü/x", "package://pkg_a/x.yaml/"]
    disk = {}

    def write(f):
        """New contents of file f; remembers what they mean."""
        r = rng.random()
        other = "dict" if kind == "list" else "list"
        if r < 0.5:
            v = data(rng, spec, kind)
            b, m = dump(rng, v), ("good", v)
        elif r < 0.62:
            k = rng.choice(sorted(BROKEN_FILES))
            b, m = BROKEN_FILES[k], (k, None)
        elif r < 0.7:
            k = rng.choice(sorted(SCALARS))
            b, m = SCALARS[k], (k, None)
        elif r < 0.78:
            b, m = dump(rng, data(rng, spec, other)), ("other", None)
        elif r < 0.82:
            b, m = dump(rng, [] if kind == "list" else {}), ("empty", None)
        elif r < 0.93:
            wrong = vt.spec_of(rng.choice([t for t in types if accepts_none(spec, vt.spec_of(t))]))
            v = data(rng, spec, kind)
            bad = data(rng, wrong, kind, 1)
            v = v + bad if kind == "list" else {**v, **{f"wrong{k}": x for k, x in bad.items()}}
            b, m = dump(rng, v), ("mismatch", None)
        else:
            if os.path.exists(f):
                os.remove(f)
            disk[f] = ("gone", None)
            return
        with open(f, "wb") as h:
            h.write(b)
        disk[f] = m
        ctx.log("write", os.path.basename(f), m[0], b[:60])

    for f in set(real.values()):
        write(f)

    def some_path():
        r = rng.random()
        if r < 0.2:
            return rng.choice(lost)
        return rng.choice(good["file" if r < 0.7 else "package"])

    first = some_path()
    static = rng.random() < 0.3 and "\x00" not in first
    rig = Rig(ctx, cls, types={"element_type": et}, static={"file_path": static}, values={"file_path": first})
    bad = rig.bad
    if rig.setup().is_err():
        bad("setup", "setup failed")
    cached, shown, op = None, {}, "setup"
    for _ in range(rng.randint(2, 9)):
        if rng.random() < 0.35:
            write(rng.choice(sorted(set(real.values()))))
        r = rng.random()
        if r < 0.08:
            rig.untick()
            op = "untick"
        elif r < 0.16:
            rig.reset()
            op, cached, shown = "reset", None, {}
        elif r < 0.2:
            rig.shutdown()
            rig.setup()
            op, cached, shown = "shutdown", None, {}
        if not static and ("file_path" not in rig.cur or rng.random() < 0.3):
            if "file_path" not in rig.cur or rng.random() < 0.8:
                rig.set("file_path", some_path())
            else:
                rig.set("file_path", rig.cur["file_path"], flag=True)
        new = "file_path" in rig.upd
        path = rig.cur["file_path"]
        r = rig.tick()
        ctx.count("ticks")
        got = rig.outputs()
        if cached is not None and not new:
            ctx.count("cached")
            if r.is_err() or r.unwrap() != cached:
                bad("cached", f"tick gave {r}, the file was loaded with {cached} and nothing is new")
            rig.expect_outputs(shown, "nothing is new")
            ctx.sig(name, et["type_identifier"], "cached", cached, op)
            op = "tick"
            continue
        ctx.count("loads")
        m = disk[real[path]] if path in real else ("lost", None)
        ctx.sig(name, et["type_identifier"], path.split(":")[0], m[0], op, cached)
        if m[0] == "good":
            ctx.count("contents")
            if r.is_err() or r.unwrap() != SUCC:
                bad("not-loaded", f"{path} holds {m[1]!r}, tick gave {r}, {got}")
            want = {"load_success": True, "load_error_msg": "", "content": normal(spec, m[1])}
            if kind == "list":
                want["line_count"] = len(m[1])
            rig.expect_outputs(want, f"contents of {path}")
            cached, shown = SUCC, got
        elif m[0] == "empty" and r.is_ok() and r.unwrap() == SUCC:
            if got["load_success"] is not True or got["content"] or got.get("line_count"):
                bad("empty", f"empty file gives {got}")
            cached, shown = SUCC, got
        elif m[0] == "mismatch" and r.is_err():
            ctx.count("mismatch")
            if not vt.same(got["content"], shown.get("content")):
                bad("mismatch", f"content became {got['content']!r} although the tick failed with {r}")
            rig.recover()
            cached, shown, op = None, {}, "recover"
            continue
        else:
            ctx.count("refused")
            if r.is_err() or r.unwrap() != FAIL:
                bad("not-refused", f"{path} ({m[0]}) can't be loaded, tick gave {r}, {got}")
            if got["load_success"] is not False or not got["load_error_msg"]:
                bad("no-reason", f"{path} ({m[0]}) can't be loaded, outputs are {got}")
            for k in ("content", "line_count"):
                if got.get(k) and not vt.same(got[k], shown.get(k)):
                    bad("refused-content", f"{path} ({m[0]}) can't be loaded, but {k} became {got[k]!r}")
            cached, shown = FAIL, got
        op = "tick"


def accepts_none(spec, wrong):
    """No value of ``wrong`` belongs to ``spec``."""
    k = {spec.kind, wrong.kind}
    return len(k) == 2 and not k <= {"bool", "int", "float"} or k == {"int", "float"} and spec.kind == "int" and False


def normal(spec, v):
    if isinstance(v, list):
        return [spec.norm(x) for x in v]
    return {k: spec.norm(x) for k, x in v.items()}


# ---------------------------------------------------------------- the migration tool
def migrate(ctx, d):
    rng = ctx.rng
    ros = FakeROSNode()
    files = {}
    for i in range(rng.randint(1, 3)):
        mo = em.random_model(ros, rng, rng.randint(1, 6))
        t = em.tree_msg(mo, rng)
        import rosidl_runtime_py

        x = rosidl_runtime_py.message_to_ordereddict(t)
        v = rng.choice(["1.0.0", "1.1.0", "1.0.0rc1", metadata.version("ros_bt_py"), metadata.version("ros_bt_py"), "0.5.0", None])
        tree = yaml.safe_load(yaml.safe_dump(to_plain(x)))
        doc = {**({"version": v} if v else {}), **tree}
        ok = v is not None and not v.startswith("0.") and v != "1.0.0rc1"
        f = f"{d}/t{i}" + rng.choice([".yaml", ".yaml", "", ".tar.yaml"])
        with open(f, "wb") as h:
            h.write(dump(rng, doc))
        files[f] = (tree, ok)
        for c in ("", "_1", "_2"):
            if rng.random() < 0.35:
                n, e = os.path.splitext(f)
                if not os.path.exists(f"{n}_new{c}{e}"):
                    with open(f"{n}_new{c}{e}", "w") as h:
                        h.write("mine")
    inplace = rng.random() < 0.5
    before = {f: open(f, "rb").read() for f in (os.path.join(d, x) for x in os.listdir(d)) if os.path.isfile(f)}
    args = list(files)
    if inplace:
        args.insert(rng.randint(0, len(args)), "--inplace")
    ctx.log("migrate", [os.path.basename(a) for a in args], {os.path.basename(f): k for f, (_, k) in files.items()})
    old = sys.argv
    sys.argv = ["migrate"] + args
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            migrate_tree_files.main()
    finally:
        sys.argv = old
    after = {f: open(f, "rb").read() for f in (os.path.join(d, x) for x in os.listdir(d)) if os.path.isfile(f)}
    touched = [f for f in before if after.get(f) != before[f]]
    new = [f for f in after if f not in before]
    expect = [f for f, (_, ok) in files.items() if ok]
    ctx.count("kept_files", len(before) - len(touched))
    wrong = [f for f in touched if not inplace or f not in expect]
    if wrong:
        raise Violation("migrate-overwrites", f"migrating {files.keys()} (in place: {inplace}) changed {wrong}: {out.getvalue()}")
    if inplace and new or not inplace and len(new) != len(expect):
        raise Violation("migrate-files", f"migrating {list(files)} (in place: {inplace}, valid: {expect}) created {new}: {out.getvalue()}")
    for f in expect:
        n, e = os.path.splitext(f)
        res = f if inplace else next((x for x in new if x.startswith(n + "_new") and x.endswith(e)), None)
        if res is None:
            raise Violation("migrate-files", f"no result for {f}: {new}")
        x = yaml.safe_load(after[res])
        tree = files[f][0]
        ver = x.pop("version", None)
        if ver != metadata.version("ros_bt_py") or x != tree:
            raise Violation("migrate-contents", f"{f} became version {ver}, {x}, expected {tree}")
        m, _ = em.new_manager(ros=FakeROSNode())
        r = m.load_tree_from_path(srv.LoadTreeFromPath.Request(path="file://" + res), srv.LoadTreeFromPath.Response())
        if not r.success:
            raise Violation("migrate-load", f"the migrated {f} can't be loaded: {r.error_message}")
        ctx.count("migrated")
        ctx.sig("migrate", inplace, len(files), e, len(new))


def to_plain(x):
    if isinstance(x, dict):
        return {k: to_plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_plain(v) for v in x]
    if hasattr(x, "tolist"):
        return x.tolist()
    return x
