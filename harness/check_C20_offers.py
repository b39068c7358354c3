"""C20: the node classes, interfaces, packages and channels on offer are those that exist."""
import importlib
import os
import shutil
import sys
import tempfile

import catalog as cat
import check_C27_messages as c27
import sched as sc
import vtypes as vt
from bt import FakeROSNode, Node, dt
from common import Violation
from ros_bt_py import package_manager as pkgm
from ros_bt_py import ros_helpers
from ros_bt_py.package_manager import PackageManager
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import NodeStructure

PROPERTY = "C20"
LEVEL = "exploration"
RULE = "distinct by (kinds of classes in the generated modules, how they were loaded, what fails) and by schedule; for lists by their content"
TIERS = {"quick": 600, "thorough": 20000}
FLOORS = {"added": 200, "republished": 30, "abstract": 100, "channels": 800, "classes": 1000, "concurrent": 60, "fields": 5000, "interfaces": 1900, "invalid": 150,
          "modules": 500, "offered": 40000, "packages": 200, "refused": 300}

HEAD = """
from ros_bt_py.vendor.result import Ok
from ros_bt_py.node import Leaf, Decorator, FlowControl, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.data_types import *
from ros_bt_py.helpers import BTNodeState
"""
METHODS = {
    "_do_setup": "return Ok(BTNodeState.IDLE)", "_do_tick": "return Ok(BTNodeState.SUCCEEDED)", "_do_untick": "return Ok(BTNodeState.IDLE)",
    "_do_reset": "return Ok(BTNodeState.IDLE)", "_do_shutdown": "return Ok(BTNodeState.SHUTDOWN)",
}
KIDS = {"Leaf": 0, "Decorator": 1, "FlowControl": None}
TYPES = ["IntType()", "IntType(min_value=-3, max_value=7)", "FloatType(allow_dynamic=False)", "StringType()", "StringType(max_length=5)",
         "StringType(valid_values=['a', 'b'])", "BoolType()", "ListType(element_type=IntType())", "DictType(element_type=StringType())", "BytesType()",
         "IntType(allow_static=False)"]
OUT = [t for t in TYPES if "allow" not in t]
NIL = "00000000-0000-0000-0000-000000000000"
DOCS = [None, "", "One line.", "Two\n\n    lines with ü and 'quotes'.\n    ", "  x  "]
BROKEN = ["missing", "missing", "SyntaxError", "raises", "ImportError", "config", "late raise", ""]


def case(ctx):
    ctx.rng.choice([modules, modules, modules, concurrent, lists, lists])(ctx)


class Cls:
    pass


def module_source(ctx, rng, mod):
    """Source of a module and the classes that it offers."""
    src, made, offered = [HEAD], [], {}
    for i in range(rng.randint(1, 4)):
        c = Cls()
        c.name = f"K{i}" if not made or rng.random() > 0.06 else rng.choice(made).name
        parents = [m for m in made if m.ok] if rng.random() < 0.5 else []
        c.bases = rng.sample(parents, min(len(parents), rng.choice([1, 1, 2])))
        c.base = rng.choice(list(KIDS))
        names = [b.name for b in c.bases] or [c.base]
        if len(c.bases) == 2 and (c.bases[0].kids != c.bases[1].kids or c.bases[0] in c.bases[1].anc or c.bases[1] in c.bases[0].anc or c.bases[0].name == c.bases[1].name):
            c.bases = c.bases[:1]
            names = names[:1]
        if any(m.name == b.name and m is not b for b in c.bases for m in made):
            c.bases, names = [], [c.base]  # the name stands for another class by now
        c.anc = set(c.bases) | {a for b in c.bases for a in b.anc}
        kids = c.bases[0].kids if c.bases else KIDS[c.base]
        c.kids = kids if rng.random() > 0.08 else rng.choice([k for k in (0, 1, None) if k != kids])
        keys = rng.sample("abcdefghijklmnop", rng.randint(0, 4))
        cut = rng.randint(0, len(keys))
        ins = {k: rng.choice(TYPES) for k in keys[:cut]}
        outs = {k: rng.choice(OUT) for k in keys[cut:]}
        if rng.random() < 0.15:
            ins["t"] = "TYPE"
            if rng.random() < 0.6:
                outs["o_t"] = "ReferenceType(reference='t')"
        c.tags = rng.sample(["x", "y z", "ü"], rng.randint(0, 2))
        c.doc = rng.choice(DOCS)
        c.abstract = rng.random() < 0.12
        c.methods = sorted(METHODS)
        if c.abstract:
            c.methods = c.methods[:-1]
        have = set(c.methods).union(*[b.have for b in c.bases])
        c.have = have
        c.ins, c.outs = dict(ins), dict(outs)
        c.ok = c.kids == kids  # the configuration fits the bases
        for b in c.bases:
            for own, theirs in ((c.ins, b.ins), (c.outs, b.outs)):
                for k, t in theirs.items():
                    if k in own:
                        c.ok = False
                    else:
                        own[k] = t
        c.complete = have == set(METHODS)
        q = "r'''" + c.doc + "'''" if c.doc is not None else "pass"
        io = lambda d: "{" + ", ".join(f"{k!r}: {t}" for k, t in d.items()) + "}"  # noqa: E731
        src.append(f"@define_bt_node(NodeConfig(inputs={io(ins)}, outputs={io(outs)}, max_children={c.kids}, tags={c.tags!r}))\n"
                   f"class {c.name}({', '.join(names)}):\n    {q}\n" + "".join(f"    def {m}(self):\n        {METHODS[m]}\n" for m in c.methods))
        made.append(c)
        if c.ok and c.complete:
            offered.setdefault(c.name, c)
        ctx.count("invalid" if not c.ok else "abstract" if not c.complete else "classes")
    return "\n".join(src).replace("TYPE,", "GenericType(valid_types=[int, str]),").replace("TYPE}", "GenericType(valid_types=[int, str])}"), offered


def expected_type(t):
    return eval({"TYPE": "GenericType(valid_types=[int, str])"}.get(t, t), dict(vars(dt), int=int, str=str))


class Scratch:
    """Generated packages on the path of Python, and nothing of them afterwards."""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.prefix = f"vm{self.rng.getrandbits(48):x}_"
        self.mods, self.broken, self.n = {}, {}, 0

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c20-", dir=os.environ.get("VERIF_SCRATCH") or None)
        sys.path.insert(0, self.d)
        return self

    def __exit__(self, *a):
        sys.path.remove(self.d)
        for table in (sys.modules, Node.node_classes):
            for k in [k for k in table if k.startswith(self.prefix)]:
                del table[k]
        shutil.rmtree(self.d, ignore_errors=True)
        importlib.invalidate_caches()

    def write(self, name, text):
        p = os.path.join(self.d, name.replace(".", "/") + ".py")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        importlib.invalidate_caches()

    def good(self):
        self.n += 1
        name = f"{self.prefix}{self.n}" + self.rng.choice(["", ".sub", ".deep.er"])
        text, offered = module_source(self.ctx, self.rng, name)
        self.write(name, text)
        self.mods[name] = offered
        self.ctx.count("modules")
        return name

    def bad(self):
        kind = self.rng.choice([b for b in BROKEN if b])
        self.n += 1
        name = f"{self.prefix}{self.n}"
        self.broken[name] = kind
        self.ctx.count(f"broken {kind}")
        if kind == "missing":
            return name + self.rng.choice(["", ".x", "..y"])
        self.write(name, {
            "SyntaxError": "def f(:\n",
            "raises": self.rng.choice(["1 / 0\n", "raise RuntimeError('no')\n", "{}['x']\n", "assert False\n", "undefined_name\n", "object().x\n", "import os\nos.stat('/nowhere/at/all')\n"]),
            "ImportError": "import there_is_no_such_module_at_all\n",
            "config": HEAD + "NodeConfig(inputs={}, outputs={'o': GenericType(valid_types=[int])}, max_children=0)\n",
            "late raise": HEAD + "X = 1\nraise ValueError('late')\n",
        }[kind])
        return name


def io_of(ios):
    return {i.key: (bt_type(i.type), i.serialized_value) for i in ios}


def bt_type(m):
    return repr(m)


def check_offer(ctx, sx, answer, loaded, shipped=True):
    """Every loaded class once, as it was defined; nothing of a module that wasn't loaded."""
    got = {}
    for n in answer.available_nodes:
        k = (n.module, n.node_class)
        if k in got:
            raise Violation("offer/twice", f"{k} is offered twice")
        got[k] = n
    ctx.count("offered", len(got))
    for name, cls in cat.SHIPPED.items():
        if (cls.__module__, name) not in got:
            raise Violation("offer/shipped-missing", f"{name} is not offered")
    for mod in loaded:
        for name, c in sx.mods[mod].items():
            n = got.pop((mod, name), None)
            if n is None:
                raise Violation("offer/missing", f"{mod}.{name} is not offered")
            want = {k: (bt_type(expected_type(t).serialize_type()), expected_type(t).serialize_value()) for k, t in c.ins.items()}
            if io_of(n.inputs) != want and not any(t == "TYPE" or "Reference" in t for t in c.ins.values()):
                raise Violation("offer/inputs", f"{mod}.{name} is offered with inputs {io_of(n.inputs)}, expected {want}")
            if {i.key for i in n.inputs} != set(c.ins) or {i.key for i in n.outputs} != set(c.outs):
                raise Violation("offer/keys", f"{mod}.{name}: {[i.key for i in n.inputs]} / {[i.key for i in n.outputs]}, expected {list(c.ins)} / {list(c.outs)}")
            for i in n.outputs:
                t = expected_type(c.outs[i.key])
                if not isinstance(t, dt.ReferenceType):
                    t.allow_static, t.allow_dynamic, t.is_static = False, True, False
                    if bt_type(i.type) != bt_type(t.serialize_type()):
                        raise Violation("offer/outputs", f"{mod}.{name}.{i.key} is offered as {i.type}, expected {c.outs[i.key]}")
            kids = -1 if c.kids is None else c.kids
            if n.max_children != kids:
                raise Violation("offer/children", f"{mod}.{name} takes {kids} children, offered with {n.max_children}")
            if list(n.tags) != c.tags:
                raise Violation("offer/tags", f"{mod}.{name} has the tags {c.tags}, offered with {list(n.tags)}")
            if c.doc is not None and " ".join(n.doc.split()) != " ".join(c.doc.split()) and c.doc.split():
                raise Violation("offer/doc", f"{mod}.{name} is documented with {c.doc!r}, offered with {n.doc!r}")
    for mod, name in got:
        if mod.startswith(sx.prefix):
            raise Violation("offer/extra", f"{mod}.{name} is offered, but not a valid class of a loaded module")


def ask(ctx, mods):
    try:
        return PackageManager.get_available_nodes(srv.GetAvailableNodes.Request(node_modules=mods), srv.GetAvailableNodes.Response())
    except Exception as e:
        raise Violation(f"offer/raises-{type(e).__name__}", f"asking for the nodes of {mods} raised {type(e).__name__}: {e}")


def add(ctx, m, mod, name, cls=None):
    msg = NodeStructure(module=mod, node_class=name) if cls is None else cat.make(ctx.rng, cls)
    try:
        return m.add_node(srv.AddNode.Request(node=msg, parent_node_id=NIL), srv.AddNode.Response())
    except Exception as e:
        raise Violation(f"add/raises-{type(e).__name__}", f"adding a {mod}.{name} raised {type(e).__name__}: {e}")


def modules(ctx):
    rng = ctx.rng
    with Scratch(ctx) as sx:
        ros = FakeROSNode()
        goods = [sx.good() for _ in range(rng.randint(1, 3))]
        bads = [sx.bad() for _ in range(rng.choice([0, 1, 1, 2]))]
        loaded = []
        start = [x for x in goods + bads if rng.random() < 0.4]
        rng.shuffle(start)
        try:
            m = TreeEditManager(ros_node=ros, module_list=start)
        except Exception as e:
            raise Violation(f"start/raises-{type(e).__name__}", f"starting with the modules {[sx.broken.get(x, x) for x in start]} raised {type(e).__name__}: {e}")
        loaded += [x for x in start if x in sx.mods]
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.5:
                mods = rng.sample(goods + bads, rng.randint(0, len(goods + bads))) + rng.choice([[], [], [""]])
                wrong = [x for x in mods if x and x not in sx.mods]
                a = ask(ctx, mods)
                ctx.log("ask", [sx.broken.get(x, x) for x in mods], a.success, a.error_message[:80])
                if a.success == bool(wrong):
                    raise Violation("ask/answer", f"modules {mods} (broken: {[sx.broken.get(x.split('.')[0]) for x in wrong]}) answered with {a.success} {a.error_message}")
                if wrong:
                    ctx.count("refused")
                    if not a.error_message:
                        raise Violation("ask/reason", "refused without a reason")
                    now = mods[:mods.index(wrong[0])]  # the others may be loaded
                    a = ask(ctx, [x for x in mods if x in sx.mods])
                loaded += [x for x in mods if x in sx.mods and x not in loaded]
                check_offer(ctx, sx, a, loaded)
            else:
                mod = rng.choice(goods + goods + bads)
                offered = sx.mods.get(mod, {})
                name = rng.choice(list(offered) or ["K0"]) if rng.random() < 0.8 else "Nope"
                c = offered.get(name)
                cls = Node.node_classes.get(mod, {}).get(name)
                simple = c is not None and "TYPE" not in c.ins.values() and not any("Reference" in t for t in list(c.ins.values()) + list(c.outs.values()))
                if cls is None and c is not None and not simple:
                    continue
                m.clear(None, srv.ClearTree.Response())
                before = 0
                a = add(ctx, m, mod, name, None if simple or c is None else cls)
                ctx.log("add", mod, name, a.success, a.error_message[:80])
                if mod in sx.mods and mod not in loaded:
                    loaded.append(mod)
                if c is None:
                    ctx.count("refused")
                    if a.success or not a.error_message or len(m.nodes) != before:
                        raise Violation("add/invalid", f"{mod}.{name} ({sx.broken.get(mod, 'not a class')}) was added: {a}")
                    continue
                if not a.success:
                    raise Violation("add/refused", f"{mod}.{name} is valid but was refused: {a.error_message}")
                ctx.count("added")
                n = m.nodes[ros_helpers.ros_to_uuid(a.node_id).unwrap()]
                got = {k: type(x).__name__ for k, x in n.node_config.inputs.items()}
                want = {k: type(expected_type(t)).__name__ for k, t in c.ins.items()}
                if got != want or set(n.node_config.outputs) != set(c.outs) or n.node_config.max_children != c.kids:
                    raise Violation("add/interface", f"{mod}.{name} was added with {got}, {set(n.node_config.outputs)}, expected {want}, {set(c.outs)}")
        ctx.sig("modules", tuple(sorted((str(c.kids), len(c.ins), len(c.outs), len(c.anc)) for o in sx.mods.values() for c in o.values())), tuple(sorted(sx.broken.values())))
        check_offer(ctx, sx, ask(ctx, []), loaded)


def concurrent(ctx):
    """Listing nodes while other clients load modules."""
    rng = ctx.rng
    with Scratch(ctx) as sx:
        goods = [sx.good() for _ in range(rng.randint(1, 3))]
        s = sc.Sched(rng, rng.choice([0.02, 0.05, 0.2]), scope=("package_manager.py", "node.py"))
        answers, adds = [], []
        with s.installed():
            ms = [TreeEditManager(ros_node=FakeROSNode()) for _ in goods]
            for mod, m in zip(goods, ms):
                def run(mod=mod, m=m):
                    if rng.random() < 0.5:
                        answers.append(ask(ctx, [mod]))
                    else:
                        adds.append(add(ctx, m, mod, "K0"))

                s.spawn(run, mod)
            for i in range(rng.randint(1, 2)):
                def lister():
                    for _ in range(rng.randint(1, 3)):
                        s.point(force=True)
                        answers.append(ask(ctx, []))

                s.spawn(lister, f"list{i}")
            s.run()
            if s.aborted:
                raise Violation("concurrent/stuck", s.reason)
        for t in s.tasks:
            if t.error is not None:
                raise t.error
        for a in answers:
            if not a.success:
                raise Violation("concurrent/answer", f"{a.error_message}")
        ctx.count("concurrent")
        ctx.sig("schedule", s.history)
        check_offer(ctx, sx, ask(ctx, []), goods)


class Sink:
    """A publisher of a latched topic with some subscribers."""

    def __init__(self):
        self.got, self.subscribers = [], 0

    def publish(self, m):
        self.got.append(m)

    def get_subscription_count(self):
        return self.subscribers


def lists(ctx):
    rng = ctx.rng
    rt = pkgm.rosidl_runtime_py
    import rosidl_runtime_py.utilities as util
    known = {}
    for full, cls in c27.MSGS:
        known.setdefault(full.split("/")[0], []).append(full.split("/")[2])
    msgs = {p: ["msg/" + n for n in rng.sample(ns, rng.randint(0, min(6, len(ns))))] for p, ns in known.items() if rng.random() < 0.5}
    srvs = {"example_interfaces": ["srv/Trigger"], "ros_bt_py_interfaces": ["srv/AddNode", "srv/LoadTree"], "std_srvs": []}
    acts = {"example_interfaces": ["action/Fibonacci"]} if rng.random() < 0.7 else {}
    prefixes = {f"p{i}" + rng.choice(["", "_x"]): rng.choice(["/opt/ros/jazzy", "/opt/ros", "/home/u/ws/install/p", "/ws/ü", "/optional/ros", "/opt/rosbag"]) + rng.choice(["", f"/{i}"]) for i in range(rng.randint(0, 6))}
    chan = {}
    for kind, types in (("topics", ["std_msgs/msg/String", "example_interfaces/msg/Int32"]), ("services", ["std_srvs/srv/SetBool"]), ("actions", ["example_interfaces/action/Fibonacci"])):
        chan[kind] = [(f"/{kind}{i}", rng.sample(types, rng.randint(1, len(types)))) for i in range(rng.randint(0, 4))]
    both = set(msgs) | set(srvs) | set(acts)
    undo = [(o, k, getattr(o, k)) for o, k in ((rt, "get_interface_packages"), (rt, "get_message_interfaces"), (rt, "get_service_interfaces"), (rt, "get_action_interfaces"),
                                               (pkgm.ament_index_python, "get_packages_with_prefixes"), (ros_helpers.action, "get_action_names_and_types"))]

    def only(table):
        return lambda p=[]: {k: list(v) for k, v in table.items() if k in (p or table)}

    try:
        rt.get_interface_packages = lambda: {p: "" for p in both}
        rt.get_message_interfaces, rt.get_service_interfaces, rt.get_action_interfaces = only(msgs), only(srvs), only(acts)
        pkgm.ament_index_python.get_packages_with_prefixes = lambda: dict(prefixes)
        ros_helpers.action.get_action_names_and_types = lambda node: list(chan["actions"])
        mp, pp = Sink(), Sink()
        pm = PackageManager([], mp if rng.random() < 0.95 else None, pp if rng.random() < 0.95 else None)
        have = [pm.message_list_pub is not None, pm.packages_list_pub is not None]
        done = [False, False]
        for _ in range(rng.randint(3, 7)):
            op = rng.choice(["messages", "packages", "republish", "republish", "subscribers"])
            before = len(mp.got), len(pp.got)
            if op == "messages":
                pm.publish_message_list()
                done[0] = done[0] or have[0]
                want = (before[0] + have[0], before[1])
            elif op == "packages":
                pm.publish_packages_list()
                done[1] = done[1] or have[1]
                want = (before[0], before[1] + have[1])
            elif op == "subscribers":
                mp.subscribers, pp.subscribers = rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1])
                want = before
            else:
                pm.republish_lists()
                again = have[0] and done[0] and mp.subscribers > 0, have[1] and done[1] and pp.subscribers > 0
                want = before[0] + again[0], before[1] + again[1]
                ctx.count("republished", sum(again))
            if (len(mp.got), len(pp.got)) != want:
                raise Violation(f"lists/{op}", f"{op}: {(len(mp.got), len(pp.got))} lists published, expected {want} (known {done}, subscribers {mp.subscribers}, {pp.subscribers})")
        for m in mp.got:
            check_messages(ctx, rng, m, msgs, srvs, acts, util)
        for p in pp.got:
            got = sorted((x.package, x.path) for x in p.packages)
            keep = sorted((k, v) for k, v in prefixes.items() if not v.startswith("/opt/ros"))
            ctx.count("packages", len(got))
            if got != keep:
                raise Violation("lists/packages", f"{got} published, installed are {keep}")
        ros = FakeROSNode()
        ros.get_topic_names_and_types = lambda: list(chan["topics"])
        ros.get_service_names_and_types = lambda: list(chan["services"])
        out = Sink()
        ros_helpers.publish_message_channels(ros, out)
        for kind, entries in chan.items():
            got = sorted((c.name, c.type) for c in getattr(out.got[0], kind))
            ctx.count("channels", len(got))
            if [n for n, _ in got] != sorted(n for n, _ in entries) or any(t not in dict(entries)[n] for n, t in got):
                raise Violation("lists/channels", f"{kind}: {got} published, existing are {entries}")
        ctx.sig("lists", tuple(sorted(map(str, msgs.items()))), len(prefixes))
    finally:
        for o, k, v in undo:
            setattr(o, k, v)


def check_messages(ctx, rng, m, msgs, srvs, acts, util):
    want = sorted(f"{p}/{n}" for p, ns in msgs.items() for n in ns)
    got = sorted(t.name for t in m.topics)
    if got != want:
        raise Violation("lists/messages", f"messages {sorted(set(got) ^ set(want))} are missing or not installed, or listed more than once")
    for kind, table in (("services", srvs), ("actions", acts)):
        if sorted(getattr(m, kind)) != sorted(f"{p}/{n}" for p, ns in table.items() for n in ns):
            raise Violation(f"lists/{kind}", f"{list(getattr(m, kind))} published, installed are {table}")
    for t in m.topics:
        ctx.count("interfaces")
        cls = util.get_message(t.name)
        c = dt.get_iotype_for_msg(t.type)
        if c.is_err():
            raise Violation("lists/type", f"type of {t.name} can't be read: {c}")
        c = c.unwrap()
        if not isinstance(c, dt.RosMessageType) or c.message_type is not cls:
            raise Violation("lists/type", f"{t.name} is published with the type {t.type}")
        fields = cls.get_fields_and_field_types()
        if [f.key for f in t.fields] and sorted(f.key for f in t.fields) != sorted(fields):
            raise Violation("lists/fields", f"{t.name} has the fields {list(fields)}, published {[f.key for f in t.fields]}")
        if not t.fields and fields:
            raise Violation("lists/fields", f"{t.name} is published without its fields {list(fields)}")
        v = vt.fill(cls(), rng)
        for f in t.fields:
            ctx.count("fields")
            k = dt.get_iotype_for_msg(f.type)
            if k.is_err():
                raise Violation("lists/field-type", f"type of {t.name}.{f.key} can't be read: {k}")
            x = getattr(v, f.key)
            r = k.unwrap().set_value(x)
            if r.is_err():
                raise Violation("lists/field-value", f"{t.name}.{f.key} is published as {f.type}, which refuses {x!r}: {r}")
