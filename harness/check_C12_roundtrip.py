"""C12: trees survive being described by messages, saved to files and loaded again."""
import copy
import json
import os
import shutil
import tempfile

import bt
import catalog as cat
import editmodel as em
import vtypes as vt
from bt import FakeROSNode, Node
from common import Violation
from ros_bt_py.package_manager import PackageManager
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import NodeDataLocation, TreeStructure

PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("random trees over all shipped node classes with random names, types, static values and wirings, sent through node messages, "
        "tree messages and tree files; distinct by (class, which inputs are static, kinds of values) per node")
TIERS = {"quick": 700, "thorough": 25000}
FLOORS = {"nodes": 2500, "static_values": 2500, "held": 500, "files": 300, "wirings": 200}

NAMES = ["", "n", "yes", "null", "1e3", "- x", ": a", "a: b", "# c", "{x}", "ü€😀", " lead", "tail ", "two\nlines", "tab\t", "'q'", '"dq"',
         "~", "0x10", "1_000", "2001-01-01", "\\n", "%a", "@b", "`", "a\u2028b", "é" * 40, "long " * 40]
ENUM = {"ros_message_type": "example_interfaces/msg/VerifMix"}
WORDS = NAMES + ["[1, 2]", "true", "\x7f", "\u0085x", "\ufeffb"]


def hostile(rng, sp):
    if isinstance(sp, vt.Str) and not sp.options and rng.random() < 0.5:
        w = rng.choice(WORDS)
        return w if len(w) <= sp.m else cat.small(rng, sp)
    return cat.small(rng, sp) if rng.random() < 0.5 else sp.sample(rng)


def describe(n):
    """A node as its user sees it: independent of how messages are built."""
    d = {"class": (type(n).__module__, type(n).__name__), "name": n.name, "max": n.node_config.max_children}
    for kind, ios in (("in", n.node_config.inputs), ("out", n.node_config.outputs)):
        for k, c in ios.items():
            v = c.get_value() if c.is_static and kind == "in" else None
            d[kind, k] = (em.tmsg(c), None if v is None else ("err",) if v.is_err() else vt_norm(v.unwrap()))
    return d


def jnorm(s):
    """JSON of a value; bounds of types may be numbers or strings."""
    def go(v):
        if isinstance(v, dict):
            t = "type_identifier" in v
            return {k: str(float(x)) if t and k in ("min_value", "max_value") else go(x) for k, x in v.items()}
        return [go(x) for x in v] if isinstance(v, list) else v

    return go(json.loads(s))


def jsame(what, got, want):
    try:
        return jnorm(got) == jnorm(want)
    except ValueError:
        raise Violation("instance/not-json", f"{what} is written as {got!r}, asked for {want!r}") from None


def vt_norm(v):
    if isinstance(v, dict):
        return {str(k): vt_norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [vt_norm(x) for x in v]
    if isinstance(v, float) and v != v:
        return "nan"
    return v


def same(a, b, what):
    if a.keys() != b.keys():
        raise Violation(f"{what}/keys", f"{a['class']}: {sorted(map(str, set(a) ^ set(b)))} appeared or vanished")
    for k in a:
        try:
            eq = a[k] == b[k]
        except Exception:
            eq = repr(a[k]) == repr(b[k])
        if not eq:
            raise Violation(f"{what}/{k if isinstance(k, str) else k[0]}", f"{a['class']} {k}: {str(a[k])[:500]} became {str(b[k])[:500]}")


def subtree_file(ctx, d):
    """A tree with public data to be used by Subtree nodes."""
    rng = ctx.rng
    ros = FakeROSNode()
    mo = em.Model(ros)
    seq = None
    for cls in ["Sequence"] + rng.choices(["IOInput", "IOOutput", "Constant"], k=rng.randint(0, 4)):
        m = cat.make(rng, cat.SHIPPED[cls])
        i = bt.make_uuid(rng)
        m.node_id = uuid_to_ros(i)
        mo.nodes[i], mo.children[i] = mo.shadow(m), []
        if seq is None:
            seq = i
        else:
            mo.children[seq].append(i)
    PackageManager([d]).save_tree_to_path(srv.SaveTree.Request(storage_path=d, filepath="sub.yaml", tree=em.tree_msg(mo)), srv.SaveTree.Response())


def node_of(r):
    n = r.unwrap()
    if not isinstance(n, Node):
        raise Violation("node-message/no-node", f"Node.from_msg succeeded with {n!r}")
    return n


def instance(ctx, ros, scratch, need):
    rng = ctx.rng
    for _ in range(30):
        if need:
            cls = cat.SHIPPED[rng.choice(em.FLOWS)]
        else:
            cls = cat.SHIPPED[rng.choice(list(cat.SHIPPED))]
        m = cat.make(rng, cls, name=rng.choice(NAMES), pick=hostile, types=ENUM if cls.__name__.startswith("Enum") else None,
                     values={"subtree_path": "file://" + os.path.join(scratch, "sub.yaml")} if cls.__name__ == "Subtree" else None)
        m.node_id = uuid_to_ros(bt.make_uuid(rng))
        r = Node.from_msg(copy.deepcopy(m), ros)
        if r.is_err():
            ctx.count("not_instantiable")
            continue
        n = node_of(r)
        # what was asked for is what there is
        want = {io.key: io for io in m.inputs}
        for k, io in want.items():
            c = n.node_config.inputs.get(k)
            if c is None:
                raise Violation("instance/input-missing", f"{cls.__name__} lost its input {k}")
            if c.is_static != io.type.is_static:
                raise Violation("instance/static", f"{cls.__name__}.{k}: static is {c.is_static}, asked for {io.type.is_static}")
            if io.type.is_static and io.serialized_value:
                ctx.count("static_values")
                if not jsame(f"{cls.__name__}.{k}", c.serialize_value(), io.serialized_value):
                    raise Violation("instance/value", f"{cls.__name__}.{k} holds {c.serialize_value()!r} instead of {io.serialized_value!r}")
        if n.name != (m.name or cls.__name__):
            raise Violation("instance/name", f"node is named {n.name!r}, asked for {m.name!r}")
        if uuid_to_ros(n.node_id) != m.node_id:
            raise Violation("instance/id", f"node has id {n.node_id}, asked for {m.node_id}")
        # give inputs a value that only exist because of other inputs
        extra = [k for k in n.node_config.inputs if k not in want]
        if extra:
            s = n.to_structure_msg()
            for io in s.inputs:
                c = n.node_config.inputs[io.key]
                if io.key in extra and c.allow_static and not c.is_static and rng.random() < 0.6:
                    io.type.is_static = True
                    try:
                        sp = cat.spec_for(c, {})
                    except KeyError:
                        sp = None
                    x = None if sp is None else hostile(rng, sp)
                    if x is not None:
                        t = sp.build()
                        t.set_value(x)
                        io.serialized_value = t.serialize_value()
            r = Node.from_msg(copy.deepcopy(s), ros)
            if r.is_err():
                raise Violation("instance/extra-inputs", f"{cls.__name__} with static values for {extra} refused: {r.unwrap_err()}")
            n = node_of(r)
            for io in s.inputs:
                c = n.node_config.inputs[io.key]
                if c.is_static != io.type.is_static or (io.serialized_value and not jsame(f"{cls.__name__}.{io.key}", c.serialize_value(), io.serialized_value)):
                    raise Violation("instance/extra-value", f"{cls.__name__}.{io.key} holds {c.serialize_value()!r} instead of {io.serialized_value!r}")
            ctx.count("extra_inputs", len(extra))
        return n
    return None


def case(ctx):
    d = tempfile.mkdtemp(prefix="verif-C12-")
    try:
        subtree_file(ctx, d)
        run(ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx, d):
    rng = ctx.rng
    ros = FakeROSNode()
    nodes, top = [], None
    for _ in range(rng.randint(1, 14)):
        n = instance(ctx, ros, d, len(nodes) == 0 or rng.random() < 0.15)
        if n is None:
            continue
        par = [p for p in nodes if p.node_config.max_children is None or len(p.children) < p.node_config.max_children]
        if nodes and par:
            p = rng.choice(par)
            p.add_child(n, rng.choice([None, 0, 1])).unwrap()
        elif nodes:
            continue
        ctx.count("nodes")
        ctx.sig(type(n).__name__, tuple((k, c.is_static, type(c).__name__) for k, c in n.node_config.inputs.items()))
        nodes.append(n)
    if not nodes:
        return
    # node messages
    msgs = [copy.deepcopy(n.to_structure_msg()) for n in nodes]
    for n, m in zip(nodes, msgs):
        r = Node.from_msg(copy.deepcopy(m), ros)
        if r.is_err():
            raise Violation("node-message/refused", f"message of {type(n).__name__} refused: {r.unwrap_err()}", repr(m)[:2000])
        same(describe(n), describe(node_of(r)), "node-message")
        if list(m.child_ids) != [uuid_to_ros(c.node_id) for c in n.children]:
            raise Violation("node-message/children", f"children {m.child_ids} in the message")
        if m.max_children != (-1 if n.node_config.max_children is None else n.node_config.max_children):
            raise Violation("node-message/max_children", f"{type(n).__name__}: {m.max_children}")
    # tree message
    mo = em.Model(ros)
    mo.nodes = {n.node_id: n for n in nodes}
    mo.children = {n.node_id: [c.node_id for c in n.children] for n in nodes}
    for _ in range(rng.randint(0, 6)):
        w = em.rand_wiring(mo, rng)
        if mo.wire_ok(w) and w not in mo.wirings:
            mo.wirings.append(w)
    ctx.count("wirings", len(mo.wirings))
    rng.shuffle(msgs)
    tree = TreeStructure(name=rng.choice(NAMES), tick_frequency_hz=rng.choice([1.0, 10.0, 0.1, 33.3]), nodes=msgs,
                         data_wirings=[cat.wiring(*w) for w in mo.wirings])
    ids = list(mo.nodes)
    tree.public_outputs = [NodeDataLocation(node_id=uuid_to_ros(rng.choice(ids)), data_key="x")] if rng.random() < 0.3 else []
    want = {n.node_id: (describe(n), [c.node_id for c in n.children], n.parent and n.parent.node_id) for n in nodes}
    # the instances above are not part of any tree manager; the trees are built from messages only
    m1, out = em.new_manager(ros)
    load(ctx, m1, tree, "message")
    compare(m1, want, mo, tree, "message")
    # data that nodes hold while running is not part of the tree
    before = copy.deepcopy(m1.structure_to_msg())
    for n in m1.nodes.values():
        for c in [*n.node_config.inputs.values(), *n.node_config.outputs.values()]:
            if c.is_static or rng.random() < 0.5:
                continue
            try:
                sp = cat.spec_for(c, {})
            except KeyError:
                continue
            x = hostile(rng, sp)
            if x is not None and c.set_value(x).is_ok():
                ctx.count("held")
    if m1.structure_to_msg() != before:
        raise Violation("message/data", "the description of a tree changes with the data its nodes hold",
                        repr([(a, b) for a, b in zip(before.nodes, m1.structure_to_msg().nodes) if a != b])[:2000])
    s = copy.deepcopy(out["structures"][-1].tree_structures[-1])
    pm = PackageManager([d])
    r = pm.save_tree_to_path(srv.SaveTree.Request(storage_path=d, filepath="t.yaml", tree=copy.deepcopy(s)), srv.SaveTree.Response())
    if not r.success:
        raise Violation("file/save", f"saving failed: {r.error_message}")
    ctx.count("files")
    m2, _ = em.new_manager(ros)
    a = m2.load_tree_from_path(srv.LoadTreeFromPath.Request(path="file://" + os.path.join(d, "t.yaml")), srv.LoadTreeFromPath.Response())
    if not a.success:
        raise Violation("file/load", f"loading a saved tree failed: {a.error_message}", open(os.path.join(d, "t.yaml")).read()[:3000])
    compare(m2, want, mo, tree, "file")
    # and again
    first = open(os.path.join(d, "t.yaml")).read()
    r = pm.save_tree_to_path(srv.SaveTree.Request(storage_path=d, filepath="t2.yaml", tree=copy.deepcopy(m2.structure_to_msg())), srv.SaveTree.Response())
    drop = lambda t: [x for x in t.splitlines() if "tree_ref" not in x and "min_value" not in x and "max_value" not in x]  # noqa: E731
    second = open(os.path.join(d, "t2.yaml")).read()
    if r.success and drop(first) != drop(second):
        raise Violation("file/unstable", "saving a loaded tree gives a different file: "
                        + str([x for x in zip(drop(first), drop(second)) if x[0] != x[1]][:3]))
    ctx.sample({"nodes": [type(n).__name__ for n in nodes], "wirings": len(mo.wirings)})


def load(ctx, m, tree, what):
    a = m.load_tree(srv.LoadTree.Request(tree=copy.deepcopy(tree)), srv.LoadTree.Response())
    if not a.success:
        raise Violation(f"{what}/load", f"valid tree refused: {a.error_message}", repr(tree)[:3000])


def compare(m, want, mo, tree, what):
    if set(m.nodes) != set(want):
        raise Violation(f"{what}/nodes", f"nodes {sorted(map(str, set(want) ^ set(m.nodes)))} appeared or vanished")
    for i, (d, kids, par) in want.items():
        n = m.nodes[i]
        same(d, describe(n), what)
        if [c.node_id for c in n.children] != kids or (n.parent and n.parent.node_id) != par:
            raise Violation(f"{what}/topology", f"children of {n.name}: {[str(c.node_id) for c in n.children]}, expected {kids}")
    if sorted(em.wkey(w) for w in m.wirings) != sorted(mo.wirings):
        raise Violation(f"{what}/wirings", f"wirings {[em.wkey(w) for w in m.wirings]}, expected {mo.wirings}")
    s = m.structure_to_msg()
    if m.name != tree.name or s.tick_frequency_hz != tree.tick_frequency_hz:
        raise Violation(f"{what}/settings", f"{m.name!r} at {s.tick_frequency_hz}, expected {tree.name!r} at {tree.tick_frequency_hz}")
    if list(s.public_outputs) != list(tree.public_outputs) or list(s.public_inputs) != list(tree.public_inputs):
        raise Violation(f"{what}/public", "public data changed")
