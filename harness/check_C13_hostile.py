"""C13: whatever a tree message or tree file contains, loading it is answered."""
import copy
import os
import shutil
import tempfile
import time

import yaml

import bt
import catalog as cat
import editmodel as em
from bt import FakeROSNode, dt
from common import Violation
from ros_bt_py.package_manager import PackageManager
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import TreeStructure

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("mutations of tree files (bytes, lines, scalars, structure, documents) and of tree messages (types, values, ids, keys), hostile paths; "
        "distinct by (kind of mutation, verdict, start of the reason)")
TIERS = {"quick": 700, "thorough": 40000}
FLOORS = {"requests": 2500, "file_compared": 100, "file_refused": 500, "file_ok": 100, "msg_refused": 300, "msg_ok": 60, "path_refused": 150}

SCALARS = [None, True, 0, 1, -1, 2**31, 2**40, 2**70, -2**70, 1.5, float("inf"), float("nan"), "", "x", "true", "1", "{}", "[]", "null", "[1, 2",
           '{"type_identifier": 2}', '{"type_identifier": 99}', '{"type_identifier": "x"}', '{"element_type": 1, "type_identifier": 5}',
           '"example_interfaces/msg/String"', '"a/b/c"', '"a"', "\x00", "ü" * 20, [], [1], ["x"], [[]], {}, {"a": 1}, {"type_identifier": 3},
           "00000000-0000-0000-0000-000000000000", b"\xff", 255, 256, "ros_bt_py.nodes.sequence", "Sequence", "Subtree", "IOInput"]


def junk(rng):
    return copy.deepcopy(rng.choice(SCALARS))


def paths(v, at=()):
    yield at
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], at + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from paths(v[i], at + (i,))


def mutate(doc, rng):
    at = rng.choice([p for p in paths(doc) if p])
    cur = doc
    for k in at[:-1]:
        cur = cur[k]
    k, op = at[-1], rng.random()
    if op < 0.5:
        cur[k] = junk(rng)
    elif op < 0.65:
        if isinstance(cur, list):
            cur.insert(rng.randrange(len(cur) + 1), copy.deepcopy(rng.choice([cur[k], junk(rng)])))
        else:
            cur[rng.choice(["extra", "", 1, None, "nodes", "__class__", "_fields"])] = copy.deepcopy(rng.choice([cur[k], junk(rng)]))
    elif op < 0.8:
        del cur[k]
    else:
        other = rng.choice([p for p in paths(doc) if p])
        o = doc
        for x in other:
            o = o[x]
        cur[k] = copy.deepcopy(o)


def text_mutate(s, rng):
    lines = s.split("\n")
    for _ in range(rng.randint(1, 3)):
        i = rng.randrange(len(lines))
        op = rng.randrange(8)
        if op == 0:
            lines[i] = " " * rng.randint(1, 3) + lines[i]
        elif op == 1:
            lines[i] = lines[i].strip()
        elif op == 2:
            del lines[i]
            lines = lines or [""]
        elif op == 3:
            lines.insert(i, rng.choice(lines))
        elif op == 4:
            lines.insert(i, rng.choice(["---", "...", "&a", "*a", "!!python/object:os.system x", "? a", "<<: *x", "\t", "%YAML 9", "- -", "}", "'", '"', "@", "2001-99-99",
                                        "version: 99.0.0", "version: x", "version: 1.5", "version: 0.1.0", "version: [1]"]))
        elif op == 5 and lines[i]:
            j = rng.randrange(len(lines[i]))
            lines[i] = lines[i][:j] + rng.choice("\x00\x07:{}[]!&*#|>'\"\t\x85\u2028é") + lines[i][j + 1:]
        elif op == 6:
            lines = lines[:i] or [""]
        else:
            lines[i] = lines[i].replace(":", rng.choice(["", "::", ": -"]))
    return "\n".join(lines)


def valid(ctx, ros):
    mo = em.random_model(ros, ctx.rng, ctx.rng.randint(1, 6))
    return mo, em.tree_msg(mo, ctx.rng)


def hostile_message(t, rng):
    """Change fields of the message to other values they can hold."""
    for _ in range(rng.choice([1, 1, 2, 4])):
        n = rng.choice(list(t.nodes)) if t.nodes else None
        k = rng.randrange(9)
        if n is None or k == 0:
            em.spoil(t, rng)
        elif k in (1, 2, 3) and n.inputs:
            io = rng.choice(n.inputs)
            ty = io.type
            f = rng.choice(["type_identifier", "value_type_identifier", "serialized_value_options", "min_value", "max_value", "string_max_length",
                            "iterable_max_length", "iterable_strict_length", "reference_target", "ros_interface_kind", "ros_msg_type", "interface_id",
                            "is_static", "allow_static", "allow_dynamic"])
            v = {"type_identifier": rng.randrange(20), "value_type_identifier": [rng.randrange(20) for _ in range(rng.randrange(3))],
                 "serialized_value_options": [rng.choice(["", "x", "1", "{}", '"x"', "[1"])] * rng.randrange(3),
                 "min_value": rng.choice(["x", "9", "", "1e999", "nan", "-"]), "max_value": rng.choice(["x", "-9", "", "1e999", "nan"]),
                 "string_max_length": rng.choice([0, 1, 2**64 - 1]), "iterable_max_length": rng.choice([[], [0], [1, 2], [2**64 - 1]]),
                 "iterable_strict_length": rng.choice([[], [True], [False, True]]), "reference_target": rng.choice(["", "nope", io.key] + [x.key for x in n.inputs]),
                 "ros_interface_kind": rng.randrange(6), "ros_msg_type": rng.choice(["", "a", "a/b", "example_interfaces/msg/String", "//", "os/path/x"]),
                 "interface_id": rng.randrange(4), "is_static": not ty.is_static, "allow_static": not ty.allow_static, "allow_dynamic": not ty.allow_dynamic}[f]
            setattr(ty, f, v)
        elif k in (4, 5) and n.inputs:
            io = rng.choice(n.inputs)
            io.serialized_value = str(junk(rng))
        elif k == 6 and n.inputs:
            io = rng.choice(n.inputs)
            io.key = rng.choice(["", "x", "in", rng.choice(n.inputs).key])
        elif k == 7:
            n.inputs = rng.sample(list(n.inputs), rng.randint(0, len(n.inputs)))
        else:
            f = rng.choice(["module", "node_class", "name", "node_id", "max_children", "tree_ref"])
            if f == "max_children":
                n.max_children = rng.choice([-1, 0, 1, 2, -5, 2**31 - 1])
            else:
                setattr(n, f, rng.choice([str(junk(rng)), "", "ros_bt_py.nodes.constant", "Constant", "Node", "ros_bt_py.node", ".", "..x", "a b", "ü"]))


def judge(ctx, m, out, kind, call, detail=""):
    before, rbefore = em.snap(m), em.rest(m)
    t0 = time.monotonic()
    ctx.count("requests")
    try:
        a = call()
    except Exception as e:
        raise Violation(f"raises/{kind}/{type(e).__name__}", f"{kind}: {type(e).__name__}: {e}", detail[:3000])
    if time.monotonic() - t0 > 10:
        raise Violation(f"slow/{kind}", f"took {time.monotonic() - t0:.1f} s", detail[:3000])
    ctx.count(f"{kind}_{'ok' if a.success else 'refused'}")
    ctx.sig(kind, a.success, a.error_message[:40])
    if m.state != "EDITABLE":
        raise Violation(f"state/{kind}", f"tree is {m.state} after loading")
    if not a.success:
        if not a.error_message:
            raise Violation(f"no-reason/{kind}", "refused without a reason", detail[:3000])
        if em.snap(m) != before or em.rest(m) != rbefore:
            raise Violation(f"changed/{kind}", f"refused ({a.error_message}) but the tree changed: {em.diff(before, em.snap(m))}", detail[:3000])
    else:
        if not m.nodes:
            raise Violation(f"empty/{kind}", "reported as loaded, but there is no tree", detail[:3000])
        em.well_formed(m, kind)
        em.check_published(m, out, kind)
        for n in m.nodes.values():
            for k, c in n.node_config.inputs.items():
                if isinstance(c, dt.ReferenceContainer):
                    continue
                if c.is_static and c.get_value().is_ok() and c.get_value().unwrap() is not None:
                    fresh = dt.get_iotype_for_msg(c.serialize_type()).unwrap()
                    if fresh.get_value().ok() == c.get_value().unwrap():
                        continue  # no value was assigned
                    v = c.serialize_value()
                    r = dt.get_iotype_for_msg(c.serialize_type()).and_then(lambda x: x.deserialize_value(v))
                    if r.is_err():
                        raise Violation(f"value/{kind}", f"{type(n).__name__}.{k} holds {v}, which it doesn't accept: {r}", detail[:3000])
    return a


def case(ctx):
    rng = ctx.rng
    ros = FakeROSNode()
    m, out = em.new_manager(ros)
    if rng.random() < 0.8:
        judge(ctx, m, out, "valid", lambda: m.load_tree(srv.LoadTree.Request(tree=valid(ctx, ros)[1]), srv.LoadTree.Response()))
    d = tempfile.mkdtemp(prefix="verif-C13-")
    try:
        for i in range(4):
            mo, t = valid(ctx, ros)
            r = rng.random()
            if r < 0.35:
                hostile_message(t, rng)
                d0 = repr(t)
                if rng.random() < 0.7:
                    judge(ctx, m, out, "msg", lambda: m.load_tree(srv.LoadTree.Request(tree=t, permissive=rng.random() < 0.2), srv.LoadTree.Response()), d0)
                elif t.nodes:
                    n = rng.choice(list(t.nodes))
                    n.child_ids = []
                    par = em.pick(mo, rng) if m.nodes and rng.random() < 0.5 else uuid_to_ros(em.NIL)
                    judge(ctx, m, out, "node_msg", lambda: m.add_node(srv.AddNode.Request(node=n, parent_node_id=par), srv.AddNode.Response()), repr(n)) \
                        if m.nodes or par == uuid_to_ros(em.NIL) else None
            elif r < 0.85:
                PackageManager([d]).save_tree_to_path(srv.SaveTree.Request(storage_path=d, filepath="t.yaml", tree=t, allow_overwrite=True), srv.SaveTree.Response())
                p = os.path.join(d, "t.yaml")
                s = open(p).read()
                k = rng.random()
                if k < 0.45:
                    doc = yaml.safe_load(s)
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        mutate(doc, rng)
                    s = yaml.dump(doc, allow_unicode=True, sort_keys=False)
                elif k < 0.8:
                    s = text_mutate(s, rng)
                elif k < 0.9:
                    s = rng.choice(["", "\n", "---\n", "---\n---\n", "null", "[]", "1", "x", "nodes: []", f"{s}\n---\n{s}", f"{s}\n---\n", f"---\n{s}", f"---\n---\n{s}", f"{s}\n---\nx", f"{s}\n---\nname: x", f"{s}\n---\n[]", f"{s}\n---\n0", f"null\n---\n{s}",
                                    "[" * 3000, "a: " * 2000, "{" * 200, s.replace("version:", "v:"), "\ufeff" + s])
                elif k < 0.95:
                    # a tree that contains itself
                    n = cat.make(rng, cat.SHIPPED["Subtree"], values={"subtree_path": "file://" + p})
                    n.node_id = uuid_to_ros(bt.make_uuid(rng))
                    PackageManager([d]).save_tree_to_path(srv.SaveTree.Request(storage_path=d, filepath="t.yaml", allow_overwrite=True,
                                                                              tree=TreeStructure(name="t", nodes=[n], tick_frequency_hz=10.0)), srv.SaveTree.Response())
                    s = open(p).read()
                data = s.encode("utf-8", "surrogatepass")
                if rng.random() < 0.05:
                    data = bytes(rng.choice([b"\xff\xfe", b"\x00", b"\xc3"])) + data
                with open(p, "wb") as f:
                    f.write(data)
                ctx.log("file", s[:2000])
                a = judge(ctx, m, out, "file", lambda: m.load_tree_from_path(srv.LoadTreeFromPath.Request(path="file://" + p), srv.LoadTreeFromPath.Response()), s)
                if a.success:
                    docs = [x for x in yaml.safe_load_all(data) if x is not None]
                    ctx.count("file_compared")
                    if len(docs) != 1:
                        raise Violation("documents", f"a file with {len(docs)} documents was loaded as one tree", s[:3000])
                    if len(docs[0].get("nodes", [])) != len(m.nodes):
                        raise Violation("file-nodes", f"the file has {len(docs[0].get('nodes', []))} nodes, the tree {len(m.nodes)}", s[:3000])
            else:
                os.makedirs(os.path.join(d, "dir"), exist_ok=True)
                q = rng.choice(["", "/", "x", "file:/x", "file://", "file:///", "file://" + d, f"file://{d}/dir", f"file://{d}/none.yaml", "file://\x00", "file://" + "a" * 5000,
                                "package://", "package:///", "package://nope/x.yaml", "package://p", "package://example_interfaces/../..", "package://ros_bt_py",
                                "package://ü/x", "http://x/y", "file://relative.yaml", f"FILE://{d}/t.yaml", "package://../x", "package://a b/c", "{}", "\n"])
                ctx.log("path", q)
                judge(ctx, m, out, "path", lambda: m.load_tree_from_path(srv.LoadTreeFromPath.Request(path=q, permissive=rng.random() < 0.3), srv.LoadTreeFromPath.Response()), q)
    finally:
        shutil.rmtree(d, ignore_errors=True)
