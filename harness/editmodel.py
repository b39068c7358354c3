"""Editing trees: workload, reference model and monitors shared by C09, C10 and C11."""
import copy
import uuid

import bt
import catalog as cat
import vtypes as vt
from bt import FakeROSNode, Node
from common import Violation
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import NodeDataType, NodeIO, NodeStructure, TreeStructure, Wiring

NIL = uuid.UUID(int=0)
LEAVES = ["Constant", "PassthroughNode", "Compare", "StringConcatenation", "ListLength", "AppendListItem", "Wait",
          "FormatString", "Operation", "RandomInt", "IOInput", "Service", "TopicPublisher", "FieldsToMessage"]
DECOS = ["Inverter", "Repeat", "IgnoreRunning", "Watch", "GetListItem", "IterateList", "Throttle", "Optional"]
FLOWS = ["Sequence", "Fallback", "MemorySequence", "Parallel", "NameSwitch", "ParallelFailureTolerance", "EnumSwitch"]
TYPES = [cat.INT, cat.STR, cat.INT9, cat.LIST(cat.INT)]


def new_manager(ros=None):
    out = {"structures": [], "states": []}
    m = TreeEditManager(
        ros_node=ros or FakeROSNode(),
        name="edited",
        publish_tree_structure_callback=lambda x: out["structures"].append(copy.deepcopy(x)),
        publish_tree_state_callback=lambda x: out["states"].append(copy.deepcopy(x)),
        publish_diagnostic_callback=lambda x: out.update(status=copy.deepcopy(x)),
    )
    return m, out


def status(m, out):
    """What the diagnostics say about the tree."""
    m.diagnostic_callback()
    return [(x.name, x.level, x.message) for x in out["status"].status]


def tmsg(c):
    """Serialized type; '0' and '0.0' are the same bound."""
    t = copy.deepcopy(c.serialize_type())
    if t.type_identifier == t.FLOAT_TYPE:
        t.min_value, t.max_value = (str(float(x)) if x else x for x in (t.min_value, t.max_value))
    return repr(t)


def rec(n):
    """What defines a node, apart from its place in the tree."""
    return (
        type(n).__module__, type(n).__name__, n.name,
        tuple((k, tmsg(c), c.serialize_value() if c.is_static else "") for k, c in sorted(n.node_config.inputs.items())),
        tuple((k, tmsg(c)) for k, c in sorted(n.node_config.outputs.items())),
        n.node_config.max_children,
    )


def wkey(w):
    return (w.source.node_id, w.source.data_key, w.target.node_id, w.target.data_key)


def snap(m):
    return {
        "nodes": {i: (rec(n), tuple(c.node_id for c in n.children), n.parent.node_id if n.parent is not None else None)
                  for i, n in m.nodes.items()},
        "wirings": sorted(wkey(w) for w in m.wirings),
        "name": m.name,
    }


def rest(m):
    """What else belongs to a tree."""
    t = m.structure_to_msg()
    return (t.path, t.tick_frequency_hz, t.tree_id, t.root_id, sorted(map(repr, t.public_inputs)), sorted(map(repr, t.public_outputs)), m.state)


def published(m, out):
    """The tree as everybody else sees it."""
    if not out["structures"]:
        return None
    t = [s for s in out["structures"][-1].tree_structures if s.tree_id == uuid_to_ros(m.tree_id.unwrap())][-1]
    return {
        "nodes": {n.node_id: (n.module, n.node_class, n.name, tuple(n.child_ids),
                              tuple(sorted((io.key, repr(io.type), io.serialized_value) for io in n.inputs))) for n in t.nodes},
        "count": len(t.nodes),
        "wirings": sorted(wkey(w) for w in t.data_wirings),
        "name": t.name, "root": t.root_id, "path": t.path, "freq": t.tick_frequency_hz,
    }


def well_formed(m, where):
    nodes = m.nodes
    seen = {}
    for i, n in nodes.items():
        def bad(what, msg):
            raise Violation(f"malformed/{what}", f"after {where}: {msg}")
        if n.node_id != i:
            bad("id", f"node {n.name} has id {n.node_id} but is known as {i}")
        mc = n.node_config.max_children
        if mc is not None and len(n.children) > mc:
            bad("capacity", f"{n.name} has {len(n.children)} children, at most {mc} are allowed")
        for c in n.children:
            if nodes.get(c.node_id) is not c:
                bad("dangling-child", f"child {c.name} of {n.name} is not in the tree")
            if c.node_id in seen:
                bad("two-parents", f"{c.name} is a child of {nodes[seen[c.node_id]].name} and of {n.name}")
            seen[c.node_id] = i
            if c.parent is not n:
                bad("parent-link", f"{c.name} is a child of {n.name}, but its parent is {c.parent.name if c.parent else None}")
    for i, n in nodes.items():
        if n.parent is not None and seen.get(i) != n.parent.node_id:
            raise Violation("malformed/parent-link", f"after {where}: parent of {n.name} is {n.parent.name}, which does not have this child")
        k, cur = 0, n
        while cur.parent is not None:
            cur, k = cur.parent, k + 1
            if k > len(nodes):
                raise Violation("malformed/cycle", f"after {where}: {n.name} is part of a cycle")
    ids = {uuid_to_ros(i): n for i, n in nodes.items()}
    ws = [wkey(w) for w in m.wirings]
    for s, sk, t, tk in ws:
        if s not in ids or t not in ids:
            raise Violation("malformed/dangling-wiring", f"after {where}: wiring {(s, sk, t, tk)} refers to a node that is not in the tree")
        a, b = ids[s].node_config.outputs.get(sk), ids[t].node_config.inputs.get(tk)
        if a is None or b is None:
            raise Violation("malformed/wiring-key", f"after {where}: wiring {sk} -> {tk} between {type(ids[s]).__name__} and {type(ids[t]).__name__} refers to missing data")
        if not b.get_runtime_type().is_compatible(a.get_runtime_type()):
            raise Violation("malformed/wiring-type", f"after {where}: wiring {sk} -> {tk} connects incompatible types")
    if len(set(ws)) != len(ws):
        raise Violation("malformed/duplicate-wiring", f"after {where}: wirings {[w for w in ws if ws.count(w) > 1][:2]} exist more than once")


def check_published(m, out, where):
    p = published(m, out)
    want = {uuid_to_ros(i): (type(n).__module__, type(n).__name__, n.name, tuple(uuid_to_ros(c.node_id) for c in n.children))
            for i, n in m.nodes.items()}
    if {i: v[:4] for i, v in p["nodes"].items()} != want or p["count"] != len(want):
        raise Violation("published/nodes", f"after {where}: published nodes {sorted(p['nodes'].items())} are not those of the tree {sorted(want.items())}")
    if p["wirings"] != sorted(wkey(w) for w in m.wirings) or p["name"] != m.name:
        raise Violation("published/rest", f"after {where}: published wirings or name differ from the tree")
    tops = [uuid_to_ros(i) for i, n in m.nodes.items() if n.parent is None]
    if p["root"] != (tops[0] if len(tops) == 1 else uuid_to_ros(NIL)):
        raise Violation("published/root", f"after {where}: published root is {p['root']}, nodes without parent: {tops}")


T = NodeDataType
KIND = {T.BOOL_TYPE: "bool", T.INT_TYPE: "number", T.FLOAT_TYPE: "number", T.STRING_TYPE: "text", T.PATH_TYPE: "text", T.LIST_TYPE: "list", T.DICT_TYPE: "dict", T.BYTES_TYPE: "bytes"}


class Model:
    """Reference: what a request has to do."""

    def __init__(self, ros):
        self.ros = ros
        self.nodes, self.children, self.wirings, self.name = {}, {}, [], "edited"

    def copy(self):
        m = Model(self.ros)
        m.nodes, m.children = dict(self.nodes), {k: list(v) for k, v in self.children.items()}
        m.wirings, m.name = list(self.wirings), self.name
        return m

    def parent(self, i):
        for p, c in self.children.items():
            if i in c:
                return p
        return None

    def below(self, i):
        out, todo = [], [i]
        while todo:
            x = todo.pop()
            out.append(x)
            todo += self.children[x]
        return out

    def cap(self, i):
        return self.nodes[i].node_config.max_children

    def fits(self, i, k):
        return self.cap(i) is None or k <= self.cap(i)

    def shadow(self, msg):
        msg = copy.deepcopy(msg)
        if not msg.node_id:
            msg.node_id = uuid_to_ros(uuid.UUID(int=1))
        r = Node.from_msg(msg, self.ros)
        if r.is_err():
            return None
        n = r.unwrap()
        own = type(n)._node_config.inputs
        extra = [io for io in msg.inputs if io.key not in own]
        if not extra:
            return n
        # Inputs beyond those of the class: those the values of the others ask for, of their type
        plain = copy.deepcopy(msg)
        plain.inputs = [io for io in msg.inputs if io.key in own]
        plain = Node.from_msg(plain, self.ros).unwrap()
        for io in extra:
            if io.key not in plain.node_config.inputs:
                return None
            if KIND.get(io.type.type_identifier) != KIND.get(plain.node_config.inputs[io.key].serialize_type().type_identifier):
                return None
        return n

    def wire_ok(self, w):
        s, sk, t, tk = w
        try:
            s, t = uuid.UUID(s), uuid.UUID(t)
        except ValueError:
            return False
        if s not in self.nodes or t not in self.nodes:
            return False
        a, b = self.nodes[s].node_config.outputs.get(sk), self.nodes[t].node_config.inputs.get(tk)
        return a is not None and b is not None and not b.is_static and b.get_runtime_type().is_compatible(a.get_runtime_type())

    def detach(self, i):
        p = self.parent(i)
        if p is not None:
            self.children[p].remove(i)
        return p

    def insert(self, p, i, index):
        """Python convention: negative counts from the end, -1 is behind the last child."""
        c = self.children[p]
        if index < 0:
            index = max(0, index + len(c) + 1)
        c.insert(index, i)

    def drop(self, ids):
        for i in ids:
            self.detach(i)
        for i in ids:
            del self.nodes[i], self.children[i]
        gone = {uuid_to_ros(i) for i in ids}
        self.wirings = [w for w in self.wirings if w[0] not in gone and w[2] not in gone]

    def rewire(self, i):
        u = uuid_to_ros(i)
        self.wirings = [w for w in self.wirings if u not in (w[0], w[2]) or self.wire_ok(w)]

    def state(self):
        return {
            "nodes": {i: (rec(n), tuple(self.children[i]), self.parent(i)) for i, n in self.nodes.items()},
            "wirings": sorted(self.wirings),
            "name": self.name,
        }


def parse(s):
    try:
        return uuid.UUID(s)
    except ValueError:
        return None


# ---- requests: name -> (generate, effect)
# generate(model, rng) -> request
# effect(model copy, request, response) -> True (model updated) / False (must be refused)


def pick(mo, rng, p_bad=0.08):
    ids = list(mo.nodes)
    if not ids or rng.random() < p_bad:
        return rng.choice(["", "nope", uuid_to_ros(NIL), uuid_to_ros(bt.make_uuid(rng)), "{}", "00000000"])
    return uuid_to_ros(rng.choice(ids))


def some_class(rng):
    return cat.SHIPPED[rng.choice(LEAVES + DECOS * 2 + FLOWS * 3)]


def node_msg(rng, cls=None, name=None):
    cls = cls or some_class(rng)
    t = {k: rng.choice(TYPES) for k, c in cls._node_config.inputs.items()
         if type(c).__name__ == "GenericType" and all(cat.PY[x["type_identifier"]] in c.valid_types for x in TYPES)}
    m = cat.make(rng, cls, types=t, static=None if rng.random() < 0.5 else False,
                 name=name or rng.choice([None, "n", "x y", "ü", f"n{rng.randrange(99)}"]))
    if rng.random() < 0.1:
        m.inputs = []
    if rng.random() < 0.06:
        k = rng.random()
        if k < 0.3:
            m.node_class = "Nope"
        elif k < 0.5:
            m.module = rng.choice(["no.such.module", "", "os", "json"])
        elif k < 0.7:
            m.inputs = list(m.inputs) + [NodeIO(key="bogus", type=bt.dt.IntType().serialize_type(), serialized_value="1")]
        elif m.inputs:
            m.inputs[0].type = bt.dt.BytesType(allow_dynamic=False).serialize_type()
    if cls.__name__ in ("Service", "FieldsToMessage", "EnumSwitch") and rng.random() < 0.5:
        # An input that only this instance has, of its type or of another
        m.node_id = uuid_to_ros(bt.make_uuid(rng))
        n = Node.from_msg(m, FakeROSNode()).ok()
        more = [k for k in n.node_config.inputs if k not in cls._node_config.inputs] if n is not None else []
        if more:
            k = rng.choice(more)
            c = n.node_config.inputs[k]
            text = isinstance(c, (bt.dt.StringType, bt.dt.PathType))
            t = rng.choice([c, bt.dt.IntType(allow_static=False) if text else bt.dt.StringType(allow_static=False)])
            m.inputs = list(m.inputs) + [NodeIO(key=k, type=t.serialize_type())]
    if rng.random() < 0.5:
        m.node_id = uuid_to_ros(bt.make_uuid(rng))
    return m


def g_add(mo, rng):
    r = srv.AddNodeAtIndex.Request(parent_node_id=pick(mo, rng) if mo.nodes and rng.random() < 0.93 else uuid_to_ros(NIL),
                                   node=node_msg(rng), new_child_index=rng.choice([-1, -1, 0, 1, 2, -2, -3, -4, 5, -9]))
    if rng.random() < 0.12:
        orphans = [i for i in mo.nodes if mo.parent(i) is None]
        ids = [uuid_to_ros(i) for i in rng.sample(orphans, min(len(orphans), rng.randint(1, 2)))]
        if rng.random() < 0.4:
            ids.append(pick(mo, rng, 0.3))
        r.node.child_ids = ids
    return r


def e_add(mo, q, a):
    sh = mo.shadow(q.node)
    p = parse(q.parent_node_id)
    if sh is None or p is None or (p != NIL and p not in mo.nodes):
        return False
    if p != NIL and not mo.fits(p, len(mo.children[p]) + 1):
        return False
    kids = [parse(c) for c in q.node.child_ids]
    top = p
    while p != NIL and mo.parent(top) is not None:
        top = mo.parent(top)
    if any(k is None or k not in mo.nodes or mo.parent(k) is not None or k == top for k in kids) or len(set(kids)) < len(kids):
        return False
    if sh.node_config.max_children is not None and len(kids) > sh.node_config.max_children:
        return False
    if not a.success:
        return True
    i = parse(a.node_id)
    if i is None or i in mo.nodes or i == NIL:
        raise Violation("effect/add/id", f"new node got the id {a.node_id!r}")
    mo.nodes[i], mo.children[i] = sh, kids
    if p != NIL:
        mo.insert(p, i, q.new_child_index)
    return True


def g_add_end(mo, rng):
    r = g_add(mo, rng)
    return srv.AddNode.Request(parent_node_id=r.parent_node_id, node=r.node)


def e_add_end(mo, q, a):
    return e_add(mo, srv.AddNodeAtIndex.Request(parent_node_id=q.parent_node_id, node=q.node, new_child_index=-1), a)


def g_remove(mo, rng):
    return srv.RemoveNode.Request(node_id=pick(mo, rng), remove_children=rng.random() < 0.4)


def e_remove(mo, q, a):
    i = parse(q.node_id)
    if i not in mo.nodes:
        return False
    if q.remove_children:
        mo.drop(mo.below(i))
    else:
        mo.drop([i])
    return True


def g_morph(mo, rng):
    i = pick(mo, rng)
    cls = None
    if parse(i) in mo.nodes and rng.random() < 0.5:
        n = mo.nodes[parse(i)]
        if rng.random() < 0.4:
            cls = type(n)
        elif mo.children[parse(i)]:
            cls = cat.SHIPPED[rng.choice(FLOWS + DECOS[:2])]
    return srv.MorphNode.Request(node_id=i, new_node=node_msg(rng, cls))


def e_morph(mo, q, a):
    i = parse(q.node_id)
    if i not in mo.nodes:
        return False
    sh = mo.shadow(q.new_node)
    if sh is None or (sh.node_config.max_children is not None and len(mo.children[i]) > sh.node_config.max_children):
        return False
    mo.nodes[i] = sh
    mo.rewire(i)
    return True


def g_options(mo, rng):
    i = pick(mo, rng)
    r = srv.SetOptions.Request(node_id=i, rename_node=rng.random() < 0.4, new_name=rng.choice(["", "renamed", "a b"]))
    n = mo.nodes.get(parse(i))
    if n is not None and type(n).__name__ in cat.SHIPPED:
        fresh = node_msg(rng, type(n))
        k = rng.random()
        ios = list(fresh.inputs)
        if k < 0.5:
            ios = [io for io in ios if rng.random() < 0.5]
        elif k < 0.6:
            ios = list(n.to_structure_msg().inputs)
        r.inputs = ios
    return r


def e_options(mo, q, a):
    i = parse(q.node_id)
    if i not in mo.nodes:
        return False
    msg = mo.nodes[i].to_structure_msg()
    new = {io.key: io for io in q.inputs}
    for io in msg.inputs:
        new.setdefault(io.key, io)
    msg.inputs = list(new.values())
    if q.rename_node:
        msg.name = q.new_name
    sh = mo.shadow(msg)
    if sh is None:
        return False
    mo.nodes[i] = sh
    mo.rewire(i)
    return True


def g_move(mo, rng):
    i = pick(mo, rng)
    p = pick(mo, rng) if rng.random() < 0.9 else uuid_to_ros(NIL)
    if parse(i) in mo.nodes and rng.random() < 0.25:
        par = mo.parent(parse(i))
        p = uuid_to_ros(par) if par is not None else p
    elif parse(i) in mo.nodes and rng.random() < 0.1:  # below itself
        p = uuid_to_ros(rng.choice(sorted(mo.below(parse(i)), key=str) or [parse(i)]))
    return srv.MoveNode.Request(node_id=i, parent_node_id=p, new_child_index=rng.choice([-1, -1, 0, 1, 2, -2, -3, -5, 7]))


def e_move(mo, q, a):
    i, p = parse(q.node_id), parse(q.parent_node_id)
    if i not in mo.nodes or p is None:
        return False
    if p == NIL:
        mo.detach(i)
        return True
    if p not in mo.nodes or p in mo.below(i):
        return False
    if mo.parent(i) != p and not mo.fits(p, len(mo.children[p]) + 1):
        return False
    mo.detach(i)
    mo.insert(p, i, q.new_child_index)
    return True


def g_replace(mo, rng):
    kids = [k for k in mo.children.values() if len(k) > 1]
    if kids and rng.random() < 0.35:  # one sibling by another
        o, n = rng.sample(rng.choice(kids), 2)
        return srv.ReplaceNode.Request(old_node_id=uuid_to_ros(o), new_node_id=uuid_to_ros(n))
    return srv.ReplaceNode.Request(old_node_id=pick(mo, rng), new_node_id=pick(mo, rng))


def e_replace(mo, q, a):
    o, n = parse(q.old_node_id), parse(q.new_node_id)
    if o not in mo.nodes or n not in mo.nodes:
        return False
    if o == n:
        return None
    if o in mo.below(n):
        return False  # would have to be its own parent
    kids = [c for c in mo.children[o] if c != n]
    if not mo.fits(n, len(mo.children[n]) + len(kids)):
        return False
    p = mo.parent(o)
    # A replacement for a node without parent stays where it is, unless that is below the old node
    if p is not None or n in mo.below(o):
        mo.detach(n)
    if p is not None:
        mo.children[p][mo.children[p].index(o)] = n
    kids = [c for c in mo.children[o]]
    mo.children[o] = []
    mo.children[n] += kids
    mo.drop([o])
    return True


def rand_wiring(mo, rng):
    outs = [(i, k) for i, n in mo.nodes.items() for k in n.node_config.outputs]
    ins = [(i, k) for i, n in mo.nodes.items() for k in n.node_config.inputs]
    if not outs or not ins or rng.random() < 0.1:
        return (pick(mo, rng, 0.3), rng.choice(["out", "constant", "bogus", ""]), pick(mo, rng, 0.3), rng.choice(["in", "a", "bogus"]))
    for _ in range(12):
        (s, sk), (t, tk) = rng.choice(outs), rng.choice(ins)
        w = (uuid_to_ros(s), sk, uuid_to_ros(t), tk)
        if mo.wire_ok(w):
            return w
    return w


def g_wire(mo, rng):
    ws = [rand_wiring(mo, rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    if mo.wirings and rng.random() < 0.2:
        ws.append(rng.choice(mo.wirings))
    if rng.random() < 0.15:
        ws.append(rng.choice(ws))
    return srv.WireNodeData.Request(wirings=[cat.wiring(*w) for w in ws], ignore_failure=rng.random() < 0.3)


def e_wire(mo, q, a):
    ws = [wkey(w) for w in q.wirings]
    ok = [mo.wire_ok(w) for w in ws]
    if not all(ok) and not q.ignore_failure:
        return False
    for w, good in zip(ws, ok):
        if good and w not in mo.wirings:
            mo.wirings.append(w)
    return True


def g_unwire(mo, rng):
    ws = [rng.choice(mo.wirings) for _ in range(rng.choice([1, 1, 2, 3])) if mo.wirings]
    if not ws or rng.random() < 0.2:
        ws.append(rand_wiring(mo, rng))
    return srv.WireNodeData.Request(wirings=[cat.wiring(*w) for w in ws], ignore_failure=rng.random() < 0.3)


def e_unwire(mo, q, a):
    ws = [wkey(w) for w in q.wirings]
    if not q.ignore_failure and any(w not in mo.wirings for w in ws):
        return False
    mo.wirings = [w for w in mo.wirings if w not in ws]
    return True


def g_rename(mo, rng):
    return srv.ChangeTreeName.Request(name=rng.choice(["", "t1", "ü", "a/b"]))


def e_rename(mo, q, a):
    mo.name = q.name
    return True


def g_clear(mo, rng):
    return srv.ClearTree.Request()


def e_clear(mo, q, a):
    mo.nodes, mo.children, mo.wirings, mo.name = {}, {}, [], "UNKNOWN TREE"
    return True


def tree_msg(mo, rng=None):
    """The model's tree as a message; node order is arbitrary."""
    t = TreeStructure(name=mo.name, tick_frequency_hz=10.0)
    nodes = []
    for i, n in mo.nodes.items():
        x = n.to_structure_msg()
        x.node_id = uuid_to_ros(i)
        x.child_ids = [uuid_to_ros(c) for c in mo.children[i]]
        nodes.append(x)
    if rng is not None:
        rng.shuffle(nodes)
    t.nodes = nodes
    t.data_wirings = [cat.wiring(*w) for w in mo.wirings]
    if rng is not None and nodes:
        t.path = rng.choice(["", "", "file:///nowhere.yaml", "package://p/x.yaml"])
        t.tick_frequency_hz = rng.choice([10.0, 1.0, 20.5])
        t.public_inputs = [w.target for w in t.data_wirings[:rng.randint(0, 2)]]
    return t


def random_model(ros, rng, size):
    mo = Model(ros)
    mo.name = rng.choice(["tree", "other tree", "t.yaml"])
    for _ in range(size):
        for _ in range(20):
            par = [i for i in mo.nodes if mo.fits(i, len(mo.children[i]) + 1)]
            cls = cat.SHIPPED[rng.choice(FLOWS)] if not mo.nodes else some_class(rng)
            m = node_msg(rng, cls)
            i = bt.make_uuid(rng)
            m.node_id = uuid_to_ros(i)
            sh = mo.shadow(m)
            if sh is None or (mo.nodes and not par):
                continue
            mo.children[i] = []
            if mo.nodes:
                mo.insert(rng.choice(par), i, rng.choice([0, 1, -1]))
            mo.nodes[i] = sh
            break
    for _ in range(rng.randint(0, 4)):
        w = rand_wiring(mo, rng)
        if mo.wire_ok(w) and w not in mo.wirings:
            mo.wirings.append(w)
    return mo


def g_load(mo, rng):
    base = random_model(mo.ros, rng, rng.randint(1, 7)) if rng.random() < 0.7 or not mo.nodes else mo
    t = tree_msg(base, rng)
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            spoil(t, rng)
    return srv.LoadTree.Request(tree=t)


def spoil(t, rng):
    nodes = list(t.nodes)
    if not nodes:
        return
    n = rng.choice(nodes)
    k = rng.choice(["class", "input", "missing-child", "bad-child", "two-parents", "cycle", "dup-id", "bad-id", "self",
                    "wiring", "wiring-id", "dup-wiring", "dup-child", "full", "nothing", "no-nodes"])
    r = uuid_to_ros(bt.make_uuid(rng))
    if k == "class":
        n.node_class = "Nope"
    elif k == "input" and n.inputs:
        rng.choice(n.inputs).key = "bogus"
    elif k == "missing-child":
        n.child_ids = list(n.child_ids) + [r]
    elif k == "bad-child":
        n.child_ids = list(n.child_ids) + ["not-an-id"]
    elif k in ("two-parents", "cycle"):
        n.child_ids = list(n.child_ids) + [rng.choice(nodes).node_id]
    elif k == "dup-id":
        rng.choice(nodes).node_id = n.node_id
    elif k == "bad-id":
        n.node_id = rng.choice(["", "x", r.upper()])
    elif k == "self":
        n.child_ids = list(n.child_ids) + [n.node_id]
    elif k == "wiring":
        t.data_wirings = list(t.data_wirings) + [cat.wiring(n.node_id, "bogus", rng.choice(nodes).node_id, "in")]
    elif k == "wiring-id":
        t.data_wirings = list(t.data_wirings) + [cat.wiring(r, "out", n.node_id, "in")]
    elif k == "dup-wiring" and t.data_wirings:
        t.data_wirings = list(t.data_wirings) + [rng.choice(list(t.data_wirings))]
    elif k == "dup-child" and n.child_ids:
        n.child_ids = list(n.child_ids) + [rng.choice(list(n.child_ids))]
    elif k == "full":
        n.max_children = 0
    elif k == "no-nodes":
        t.nodes = []


def model_of(mo, t):
    """Model of a tree message, None if it doesn't describe a tree."""
    out = Model(mo.ros)
    out.name = t.name
    if not t.nodes:
        return None
    for n in t.nodes:
        i = parse(n.node_id)
        sh = out.shadow(n)
        if i is None or i in out.nodes or sh is None:
            return None
        out.nodes[i], out.children[i] = sh, []
    seen = set()
    for n in t.nodes:
        i = parse(n.node_id)
        for c in n.child_ids:
            c = parse(c)
            if c not in out.nodes or c in seen or not out.fits(i, len(out.children[i]) + 1):
                return None
            seen.add(c)
            out.children[i].append(c)
    for i in out.nodes:
        cur, k = i, 0
        while cur is not None:
            cur, k = out.parent(cur), k + 1
            if k > len(out.nodes) + 1:
                return None
    for w in t.data_wirings:
        if not out.wire_ok(wkey(w)):
            return None
        if wkey(w) not in out.wirings:
            out.wirings.append(wkey(w))
    return out


def e_load(mo, q, a):
    new = model_of(mo, q.tree)
    if new is None:
        return False
    mo.nodes, mo.children, mo.wirings, mo.name = new.nodes, new.children, new.wirings, new.name
    return True


def g_reload(mo, rng):
    return srv.ReloadTree.Request()


def e_reload(mo, q, a):
    return bool(mo.nodes)


def g_get_subtree(mo, rng):
    return srv.GetSubtree.Request(root_id=pick(mo, rng))


def e_get_subtree(mo, q, a):
    i = parse(q.root_id)
    if i not in mo.nodes:
        return False
    if a.success:
        ids = mo.below(i)
        got = {n.node_id: (n.node_class, n.name, tuple(n.child_ids)) for n in a.subtree.nodes}
        want = {uuid_to_ros(x): (type(mo.nodes[x]).__name__, mo.nodes[x].name, tuple(uuid_to_ros(c) for c in mo.children[x])) for x in ids}
        if got != want or a.subtree.root_id != uuid_to_ros(i):
            raise Violation("effect/get_subtree/nodes", f"subtree of {q.root_id} is {got}, expected {want}")
        u = {uuid_to_ros(x) for x in ids}
        want = sorted(w for w in mo.wirings if w[0] in u and w[2] in u)
        if sorted(wkey(w) for w in a.subtree.data_wirings) != want:
            raise Violation("effect/get_subtree/wirings", f"wirings {[wkey(w) for w in a.subtree.data_wirings]}, expected {want}")
        for what, got, want in (("public inputs", a.subtree.public_inputs, {(w[2], w[3]) for w in mo.wirings if w[2] in u and w[0] not in u}),
                                ("public outputs", a.subtree.public_outputs, {(w[0], w[1]) for w in mo.wirings if w[0] in u and w[2] not in u})):
            got = {(x.node_id, x.data_key) for x in got}
            if got != want:
                raise Violation(f"effect/get_subtree/{what.split()[1]}", f"{what} {got}, wired to nodes outside of the subtree are {want}")
    return True


def g_generate(mo, rng):
    ids = [pick(mo, rng, 0.04) for _ in range(rng.randint(0, 4))]
    i = parse(ids[0]) if ids else None
    if i in mo.nodes and rng.random() < 0.6:  # a node with what is above or below it
        some = mo.below(i)
        while mo.parent(i) is not None and rng.random() < 0.9:
            i = mo.parent(i)
            some.append(i)
        ids = [uuid_to_ros(x) for x in some if rng.random() < 0.9]
        rng.shuffle(ids)
    return srv.GenerateSubtree.Request(node_ids=ids)


def e_generate(mo, q, a):
    """The nodes asked for with their parents, as a tree with one root."""
    asked = {parse(x) for x in q.node_ids} & set(mo.nodes)
    least = asked | {mo.parent(i) for i in asked} - {None}
    most = set(least)
    for i in asked:
        while mo.parent(i) is not None:
            i = mo.parent(i)
            most.add(i)
    def tops(ids):
        return [i for i in ids if mo.parent(i) not in ids]
    if len(tops(mo.nodes)) != 1:
        return False
    if a.success:
        got = {n.node_id: n for n in a.tree.nodes}
        ids = {parse(x) for x in got}
        if len(got) != len(a.tree.nodes) or not least <= ids or not ids <= most or len(tops(ids)) > 1:
            raise Violation("effect/generate_subtree/nodes", f"asked for {sorted(map(str, asked))}, got {sorted(map(str, ids))}, parents are { {str(i): str(mo.parent(i)) for i in mo.nodes} }")
        for i in ids:
            n = got[uuid_to_ros(i)]
            sh = mo.shadow(n)
            if sh is None or rec(sh) != rec(mo.nodes[i]):
                raise Violation("effect/generate_subtree/node", f"node {n} differs from {rec(mo.nodes[i])}")
            want = [uuid_to_ros(c) for c in mo.children[i] if c in ids]
            if list(n.child_ids) != want:
                raise Violation("effect/generate_subtree/children", f"children of {n.name} are {n.child_ids}, expected {want}")
        want = sorted(w for w in mo.wirings if w[0] in got and w[2] in got)
        if sorted(wkey(w) for w in a.tree.data_wirings) != want:
            raise Violation("effect/generate_subtree/wirings", f"wirings {[wkey(w) for w in a.tree.data_wirings]}, expected {want}")
        if a.tree.root_id != (uuid_to_ros(tops(ids)[0]) if ids else uuid_to_ros(NIL)):
            raise Violation("effect/generate_subtree/root", f"root is {a.tree.root_id}, expected {tops(ids)}")
        return True
    return None if len(tops(least)) > 1 or len(asked) < len(set(q.node_ids)) else True


OPS = {
    "add_node_at_index": (g_add, e_add, 10),
    "add_node": (g_add_end, e_add_end, 4),
    "remove_node": (g_remove, e_remove, 3),
    "morph_node": (g_morph, e_morph, 5),
    "set_options": (g_options, e_options, 5),
    "move_node": (g_move, e_move, 6),
    "replace_node": (g_replace, e_replace, 4),
    "wire_data": (g_wire, e_wire, 7),
    "unwire_data": (g_unwire, e_unwire, 3),
    "change_tree_name": (g_rename, e_rename, 1),
    "clear": (g_clear, e_clear, 0.3),
    "load_tree": (g_load, e_load, 1.5),
    "reload_tree": (g_reload, e_reload, 0.5),
    "get_subtree": (g_get_subtree, e_get_subtree, 1),
    "generate_subtree": (g_generate, e_generate, 1),
}


def response_for(op):
    t = {"add_node_at_index": srv.AddNodeAtIndex, "add_node": srv.AddNode, "remove_node": srv.RemoveNode, "morph_node": srv.MorphNode,
         "set_options": srv.SetOptions, "move_node": srv.MoveNode, "replace_node": srv.ReplaceNode, "wire_data": srv.WireNodeData,
         "unwire_data": srv.WireNodeData, "change_tree_name": srv.ChangeTreeName, "clear": srv.ClearTree, "load_tree": srv.LoadTree,
         "reload_tree": srv.ReloadTree, "get_subtree": srv.GetSubtree, "generate_subtree": srv.GenerateSubtree}[op]
    return t.Response()


def diff(want, got):
    out = []
    for k in ("name", "wirings"):
        if want[k] != got[k]:
            out.append(f"{k}: expected {want[k]}, found {got[k]}")
    for i in set(want["nodes"]) | set(got["nodes"]):
        w, g = want["nodes"].get(i), got["nodes"].get(i)
        if w != g:
            if w is not None and g is not None and w[0] != g[0]:
                d = [(a, b) for a, b in zip(w[0], g[0]) if a != b]
                out.append(f"{i}: expected {[(x, y) for a, b in d if isinstance(a, tuple) for x, y in zip(a, b) if x != y]} {d if len(str(d)) < 300 else len(d)}")
            w = w and (w[0][1:3], [str(x)[:8] for x in w[1]], str(w[2])[:8])
            g = g and (g[0][1:3], [str(x)[:8] for x in g[1]], str(g[2])[:8])
            out.append(f"{str(i)[:8]}: expected {w}, found {g}")
    return "; ".join(out[:6])


def run(ctx, judge):
    """judge: 'form', 'atomic' or 'effect'."""
    rng = ctx.rng
    ros = FakeROSNode()
    m, out = new_manager(ros)
    mo = random_model(ros, rng, rng.randint(0, 8))
    if mo.nodes:
        a = m.load_tree(srv.LoadTree.Request(tree=tree_msg(mo, rng)), srv.LoadTree.Response())
        if not a.success:
            raise Violation("effect/load_tree/refused", f"valid tree refused: {a.error_message}")
    else:
        mo.name = m.name
    names = list(OPS)
    weights = [OPS[k][2] for k in names]
    for step in range(rng.randint(8, 30)):
        op = rng.choices(names, weights)[0]
        gen, effect, _ = OPS[op]
        q = gen(mo, rng)
        before, pub, rbefore, dbefore = snap(m), published(m, out), rest(m), status(m, out)
        q2 = copy.deepcopy(q)
        ctx.log(op, q)
        try:
            a = getattr(m, op)(q, response_for(op))
        except Exception as e:
            raise Violation(f"raises/{op}/{type(e).__name__}", f"{op} raised {type(e).__name__}: {e}", repr(q2)[:3000])
        ctx.log("->", a.success, a.error_message)
        after = snap(m)
        ctx.count("ops")
        ctx.count(f"{op}_{'ok' if a.success else 'refused'}")
        new = mo.copy()
        ok = effect(new, q2, a)
        ctx.sig(op, a.success, len(mo.nodes), a.error_message[:25], tuple(sorted(len(c) for c in mo.children.values()))[-4:])
        if judge == "form":
            well_formed(m, op)
            check_published(m, out, op)
            sane = True
        elif judge == "atomic":
            sane = a.success
            if not a.success:
                if not a.error_message:
                    raise Violation(f"no-reason/{op}", f"{op} was refused without a reason")
                if rest(m) != rbefore:
                    raise Violation(f"changed-rest/{op}", f"{op} was refused ({a.error_message}) but changed {rbefore} to {rest(m)}", repr(q2)[:3000])
                if status(m, out) != dbefore:
                    raise Violation(f"changed-diagnostics/{op}", f"{op} was refused ({a.error_message}) but changed the diagnostics {dbefore} to {status(m, out)}", repr(q2)[:3000])
                if after != before:
                    raise Violation(f"changed/{op}", f"{op} was refused ({a.error_message}) but changed the tree: {diff(before, after)}", repr(q2)[:3000])
                if pub is not None and published(m, out) != pub:
                    raise Violation(f"changed-published/{op}", f"{op} was refused but the published tree changed")
        else:
            if op == "reload_tree" and a.success and rest(m) != rbefore:
                raise Violation(f"effect/{op}/rest", f"reloading changed {rbefore} to {rest(m)}")
            if op == "load_tree" and a.success:
                t = q2.tree
                want = (t.path, t.tick_frequency_hz, sorted(map(repr, t.public_inputs)), sorted(map(repr, t.public_outputs)))
                got = rest(m)
                if got[:2] + got[4:6] != want:
                    raise Violation("effect/load_tree/rest", f"loaded {got}, expected {want}")
            if ok is True and not a.success:
                raise Violation(f"effect/{op}/refused", f"valid request refused: {a.error_message}", repr(q2)[:3000])
            if ok is False and a.success:
                raise Violation(f"effect/{op}/accepted", "impossible request reported as success", repr(q2)[:3000])
            if a.success and ok and after != new.state():
                raise Violation(f"effect/{op}/result", f"{op}: {diff(new.state(), after)}", repr(q2)[:3000])
            if op in ("get_subtree", "generate_subtree") and published(m, out) != pub:
                raise Violation(f"effect/{op}/published", f"{op} changed the published tree")
        # follow the code
        if a.success and ok:
            mo = new
        if mo.state() != snap(m):
            # not this check's subject: stop comparing here
            ctx.count("diverged")
            return
        if step == 3:
            ctx.sample({"op": op, "success": a.success, "nodes": len(m.nodes), "wirings": len(m.wirings)})
    ctx.count("programs_completed")
