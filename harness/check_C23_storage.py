"""C23: saving trees never damages or misplaces files, and listings show what is there."""
import copy
import json
import os
import resource
import shutil
import signal
import tempfile

import yaml

import bt
import catalog as cat
import editmodel as em
import sched as sc
from bt import FakeROSNode
from common import Violation

import rosidl_runtime_py
from ros_bt_py.package_manager import PackageManager
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py_interfaces import srv
from ros_bt_py_interfaces.msg import TreeStructure

PROPERTY = "C23"
LEVEL = "exploration"
RULE = "distinct by (operation, kind of path, flags, what is at the target, kind of fault and where it hits, answer) and by schedule for concurrent requests"
TIERS = {"quick": 800, "thorough": 40000}
FLOORS = {"saves": 1200, "saved": 550, "refused": 560, "overwritten": 60, "renamed": 100, "full": 180, "crashes": 90, "escapes": 150, "loaded": 110, "listings": 400,
          "entries": 2000, "loops": 70, "concurrent": 90, "raced": 12, "reads": 500, "packages": 160, "linked": 300}

LOADER = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
NAMES = ["t.yaml", "t_2.yaml", "t", "u.yaml", "a b.yaml", "ü.yaml", ".hidden.yaml", "x.tar.gz", "t_9.yaml", "t_02.yaml", "_1.yaml", "t_.yaml"]
DIRS = ["", "sub/", "sub/deep/", "new/", "new/x/y/", "./", "sub/../", "sub/./", "sub//", "new/../"]


def snapshot(d):
    """Contents of every file below d; links are not followed."""
    out = {}
    for path, dirs, files in os.walk(d):
        for f in files + [x for x in dirs if os.path.islink(os.path.join(path, x))]:
            p = os.path.join(path, f)
            if os.path.islink(p):
                out[p] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    out[p] = fh.read()
    return out


def tree(rng, size=None):
    t = TreeStructure(name=rng.choice(["t", "", "yes", "ü", "two\nlines", "a: b"]) + str(rng.randint(0, 10**9)), path=rng.choice(["", "file:///somewhere", "package://p/x"]),
                      tick_frequency_hz=rng.choice([1.0, 10.0, 33.3]), tree_id=str(bt.make_uuid(rng)))
    ros = FakeROSNode()
    kids = []
    for _ in range(rng.choice([0, 0, 1, 1, 4]) if size is None else size):
        m = cat.make(rng, cat.SHIPPED[rng.choice(["Constant", "Wait", "Compare"])], name=rng.choice(["a", "b", "", "- x"]))
        m.node_id = uuid_to_ros(bt.make_uuid(rng))
        n = em.Model(ros).shadow(m)
        kids.append(n.to_structure_msg())
    m = cat.make(rng, cat.SHIPPED["Sequence"], name="root")
    m.node_id = uuid_to_ros(bt.make_uuid(rng))
    s = em.Model(ros).shadow(m).to_structure_msg()
    s.child_ids = [k.node_id for k in kids]
    t.nodes = [s] + kids
    t.root_id = s.node_id
    return t


def meaning(t):
    """What a file holding this tree has to say, and how long that is."""
    t = copy.deepcopy(t)
    t.path = ""
    s = rosidl_runtime_py.message_to_yaml(t)
    return yaml.load(s, LOADER), len(s.encode()) + 20


def read(content):
    try:
        d = yaml.load(content.decode(), LOADER)
    except Exception:
        return None
    if not isinstance(d, dict) or "version" not in d:
        return None
    return {k: v for k, v in d.items() if k != "version"}


class World:
    def __init__(self, ctx, d):
        self.ctx, self.d, rng = ctx, d, ctx.rng
        self.stores = [d + "/store", d + "/other store", d + "/store2"][: rng.randint(1, 3)]
        for s in self.stores + [d + "/outside"]:
            os.makedirs(s + "/sub/deep")
        for s in self.stores + [d + "/outside", d]:
            for x in rng.sample(["t.yaml", "t_2.yaml", "sub/t.yaml", "u.yaml", ".hidden.yaml", "plain"], rng.randint(2, 5)):
                if os.path.isdir(os.path.dirname(f"{s}/{x}")):
                    with open(f"{s}/{x}", "w") as f:
                        f.write(rng.choice(["", "old: 1\n", "x" * 5000]))
        os.environ["VERIF_STORE"] = d
        self.pm = PackageManager([rng.choice([s, s + "/", s.replace(d, "$VERIF_STORE"), s.replace(d, d + "/./")]) for s in self.stores])
        self.pm_dirs = list(self.pm.get_storage_folders(srv.GetStorageFolders.Request(), srv.GetStorageFolders.Response()).storage_folders)
        if self.pm_dirs != self.stores:
            raise Violation("folders", f"storage folders {self.pm_dirs}, configured {self.stores}")

    def request(self):
        """A save request, whether its path is fine, and the file it means."""
        rng = self.ctx.rng
        store = rng.choice(self.stores)
        r = rng.random()
        kind = "plain"
        if r < 0.72:
            path = rng.choice(DIRS if rng.random() < 0.4 else [""]) + rng.choice(NAMES if rng.random() < 0.25 else ["t.yaml", "t_2.yaml", "u.yaml"])
            if rng.random() < 0.05:
                path += "/"
        elif r < 0.86:
            kind = "escape"
            base = os.path.basename(store)
            path = rng.choice(["../t.yaml", "../outside/t.yaml", "../outside/new.yaml", "../store2/t.yaml", "../new dir/t.yaml", "sub/../../t.yaml", "sub/../../outside/sub/q.yaml",
                               "../" + base + "2/t.yaml", "../" + base + ".yaml", self.d + "/outside/t.yaml", self.d + "/t.yaml", self.d + "/fresh/t.yaml", "sub/deep/../../../u.yaml"])
        else:
            kind = "odd"
            path = rng.choice(["", ".", "/".join(["sub"]), "sub/", "sub/deep", "..", "sub/..", "t.yaml/x", "t.yaml/x/y", "a\0b", "a\0/b", "n" * 300, "n" * 255, "n" * 251 + ".yaml", "x/" * 40 + "t.yaml",
                               store + "/t.yaml", store + "/fresh.yaml", "plain/x.yaml"])
        full = os.path.normpath(os.path.join(store, path))
        if kind == "escape" and any(full.startswith(s + "/") for s in [store]):
            kind = "plain"
        rq = srv.SaveTree.Request(storage_path=store, filepath=path, tree=tree(rng), allow_overwrite=rng.random() < 0.5, allow_rename=rng.random() < 0.4)
        if rng.random() < 0.05:
            rq.storage_path = rng.choice(["", self.d + "/..", self.d, self.d + "/outside", store + "/sub", store + "/.", store + "/../outside", store + "x"])
            kind = "no-store"
        elif kind == "odd":
            kind = "plain" if self.usable(store, path, full) else "odd"
        elif kind == "plain" and not self.usable(store, path, full):
            kind = "odd"
        if kind == "plain" and os.path.isabs(path):
            kind = "absolute"
        return rq, kind, full

    def usable(self, store, path, full):
        if "\0" in path or not full.startswith(store + "/") or len(os.path.basename(full)) > 255 or os.path.isdir(full):
            return False
        p = os.path.dirname(full)
        while p != store:
            if os.path.exists(p) and not os.path.isdir(p):
                return False
            p = os.path.dirname(p)
        return True


def case(ctx):
    top = os.path.realpath(tempfile.mkdtemp(prefix="verif_c23_"))
    d = top + "/a/b"
    os.makedirs(d)
    old = os.environ.get("AMENT_PREFIX_PATH")
    cwd = os.getcwd()

    def late(*a):
        raise Violation("no-answer", "a request was not answered within 30 s")

    previous = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 30)
    try:
        os.environ["AMENT_PREFIX_PATH"] = d + "/prefix"
        os.chdir(d)  # relative and escaping paths end in the scratch folder, too
        w = World(ctx, d)
        r = ctx.rng.random()
        if r < 0.65:
            for _ in range(ctx.rng.randint(2, 7)):
                save(ctx, w)
            linked(ctx, w)
        elif r < 0.85:
            concurrent(ctx, w)
        else:
            listings(ctx, w)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, previous)
        os.chdir(cwd)
        if old is None:
            del os.environ["AMENT_PREFIX_PATH"]
        else:
            os.environ["AMENT_PREFIX_PATH"] = old
        shutil.rmtree(top)


def call(pm, rq):
    return pm.save_tree_to_path(rq, srv.SaveTree.Response())


class Limit:
    """No file can grow beyond n bytes."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def crash(pm, rq, n):
    """The request in a process that dies as soon as a file would grow beyond n bytes."""
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            code = 0 if call(pm, rq).success else 1
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1]


def save(ctx, w):
    rng = ctx.rng
    rq, kind, full = w.request()
    want, size = meaning(rq.tree)
    existed = os.path.lexists(full) if "\0" not in full else False
    before = snapshot(w.d)
    ctx.count("saves")
    what = f"saving {rq.filepath!r} in {rq.storage_path[len(w.d):]!r} (overwrite {rq.allow_overwrite}, rename {rq.allow_rename}, exists {existed})"
    fault = rng.choice(["full", "full", "crash"]) if kind == "plain" and rng.random() < 0.35 else None
    n = rng.choice([0, 1, 10, 16, 17, 30, size // 2, size - 21, rng.randint(0, size)])
    if fault == "crash":
        status = crash(w.pm, rq, n)
        ctx.count("crashes")
        died = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXFSZ
        ctx.sig("crash", existed, rq.allow_overwrite, rq.allow_rename, died, n == 0, n < 17, n * 10 // size)
        after = snapshot(w.d)
        for p in before:
            if after.get(p) != before[p] and not (p == full and rq.allow_overwrite and not rq.allow_rename and read(after.get(p, b"")) == want):
                raise Violation("crash/damaged", f"{what}: a crash while writing byte {n} left {p[len(w.d):]} damaged: {after.get(p, b'(gone)')[:200]!r}")
        if full in after and full not in before and read(after[full]) != want:
            raise Violation("crash/partial", f"{what}: a crash while writing byte {n} left a partial tree: {after[full][:200]!r}")
        for p in after:
            if p not in before and not os.path.basename(p).startswith(".") and read(after[p]) != want:
                raise Violation("crash/partial", f"{what}: a crash while writing byte {n} left a partial file {p[len(w.d):]}")
        for p in set(after) - set(before):
            os.unlink(p)  # what a crash may leave behind is no tree
        return
    if fault == "full":
        with Limit(n):
            a = call(w.pm, rq)
        ctx.count("full")
        ctx.sig("full", existed, rq.allow_overwrite, rq.allow_rename, a.success, n == 0, n < 17, n * 10 // size)
    else:
        a = call(w.pm, rq)
    after = snapshot(w.d)
    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    ctx.log("save", what[:120], kind, fault, a.success, a.error_message[:80])
    if not fault:
        ctx.sig(kind, rq.filepath.count("/"), existed, rq.allow_overwrite, rq.allow_rename, a.success, a.error_message.split(":")[0][:30])
    if not a.success:
        ctx.count("refused")
        if not a.error_message:
            raise Violation("refused/why", f"{what}: refused without a reason")
        if changed:
            p = sorted(changed)[0]
            raise Violation("refused/" + ("full-" if fault else "") + ("damaged" if p in before else "left"),
                            f"{what}: refused ({a.error_message}) but {p[len(w.d):]} changed to {after.get(p, b'(gone)')[:200]!r}")
        if kind == "escape":
            ctx.count("escapes")
        if fault or kind not in ("plain",):
            return
        if existed and not rq.allow_overwrite and not rq.allow_rename:
            return
        if existed and rq.allow_rename and len(os.path.basename(full)) > 245:
            return
        raise Violation("save/refused", f"{what}: refused ({a.error_message})")
    if kind in ("escape", "no-store", "odd"):
        raise Violation(f"save/{kind}", f"{what}: accepted and saved as {a.file_path}")
    if fault and n < size - 25 - 16:
        raise Violation("full/success", f"{what}: success though no file could grow beyond {n} bytes")
    ctx.count("saved")
    p = a.file_path
    if not p.startswith(rq.storage_path + "/") or os.path.normpath(p) != p:
        raise Violation("save/place", f"{what}: saved as {p}")
    if changed - {p}:
        raise Violation("save/others", f"{what}: saved as {p[len(w.d):]}, but {sorted(x[len(w.d):] for x in changed)} changed")
    if p not in after or read(after[p]) != want:
        raise Violation("save/contents", f"{what}: {p[len(w.d):]} holds {after.get(p, b'(nothing)')[:300]!r}")
    if existed and rq.allow_rename:
        ctx.count("renamed")
        if p in before or os.path.dirname(p) != os.path.dirname(full) or os.path.splitext(p)[1] != os.path.splitext(full)[1]:
            raise Violation("rename/name", f"{what}: saved as {p[len(w.d):]}")
    else:
        if p != full:
            raise Violation("save/name", f"{what}: saved as {p[len(w.d):]}")
        if existed:
            ctx.count("overwritten")
            if not rq.allow_overwrite:
                raise Violation("save/overwritten", f"{what}: the file was overwritten")
    if rng.random() < 0.25:
        ctx.count("loaded")
        m, _ = em.new_manager(FakeROSNode())
        r = m.load_tree_from_path(srv.LoadTreeFromPath.Request(path="file://" + p), srv.LoadTreeFromPath.Response())
        if not r.success or m.name != rq.tree.name or len(m.nodes) != len(rq.tree.nodes):
            raise Violation("save/load", f"{what}: loading it again failed: {r.error_message}")


def linked(ctx, w):
    """Overwriting a file changes what it says, not what it is: as with links into a workspace."""
    rng = ctx.rng
    store = rng.choice(w.stores)
    real = f"{w.d}/outside/real.yaml" if rng.random() < 0.5 else f"{store}/real.yaml"
    with open(real, "w") as f:
        f.write("old: 1\n")
    mode = rng.choice([0o600, 0o640, 0o644, 0o664, 0o755])
    os.chmod(real, mode)
    name = "linked.yaml" if rng.random() < 0.7 or not real.startswith(store) else "real.yaml"
    path = f"{store}/{name}"
    if name == "linked.yaml":
        os.symlink(real if rng.random() < 0.5 else os.path.relpath(real, store), path)
    before = snapshot(w.d)
    rq = srv.SaveTree.Request(storage_path=store, filepath=name, tree=tree(rng), allow_overwrite=rng.random() < 0.8, allow_rename=rng.random() < 0.2)
    want, _ = meaning(rq.tree)
    a = call(w.pm, rq)
    after = snapshot(w.d)
    ctx.count("linked")
    what = f"saving {path[len(w.d):]}, which is {'a link to ' + real[len(w.d):] if name == 'linked.yaml' else 'a file'} with mode {mode:o}"
    ctx.sig("linked", name, real.startswith(store), mode, rq.allow_overwrite, rq.allow_rename, a.success)
    if not a.success:
        if rq.allow_overwrite or rq.allow_rename:
            raise Violation("linked/refused", f"{what}: refused ({a.error_message})")
        if before != after:
            raise Violation("linked/damaged", f"{what}: refused ({a.error_message}), but changed")
        return
    if rq.allow_rename:
        path = a.file_path
        if path in before or {p for p in after if before.get(p) != after[p]} != {path} or read(after[path]) != want:
            raise Violation("linked/rename", f"{what}: saved as {path}")
        return
    if not rq.allow_overwrite:
        raise Violation("linked/overwritten", f"{what}: the file was overwritten")
    if after.get(path) != before[path] and path != real:
        raise Violation("linked/link", f"{what}: the link is gone")
    if read(after[real]) != want:
        raise Violation("linked/contents", f"{what}: success, but the file holds {after[real][:200]!r}")
    if os.stat(real).st_mode & 0o777 != mode:
        raise Violation("linked/mode", f"{what}: the mode is now {os.stat(real).st_mode & 0o777:o}")
    if set(after) != set(before) or any(before[p] != after[p] for p in before if p != real):
        raise Violation("linked/others", f"{what}: other files changed, too")


def concurrent(ctx, w):
    """Several requests at once: as the services are answered by several threads."""
    rng = ctx.rng
    store = w.stores[0]
    pool = [(store, x) for x in rng.sample(["t.yaml", "u.yaml", "sub/t.yaml", "new/n.yaml"], rng.randint(1, 2))]
    before = snapshot(w.d)
    s = sc.Sched(rng, rng.choice([0.05, 0.15, 0.4]), scope=("package_manager.py",))
    jobs, lists, seen = [], [], []
    base = expected_listing(store, False)
    with s.installed():
        pm = PackageManager(w.stores)
        for i in range(rng.randint(2, 4)):
            st, path = rng.choice(pool)
            rq = srv.SaveTree.Request(storage_path=st, filepath=path, tree=tree(rng, rng.choice([0, 1, 4])), allow_overwrite=rng.random() < 0.5, allow_rename=rng.random() < 0.5)
            jobs.append([rq, os.path.join(st, path), meaning(rq.tree)[0], None])

            def run(j=jobs[-1]):
                j[3] = call(pm, j[0])

            s.spawn(run, f"save{i}")
        for i in range(rng.choice([0, 0, 1, 2])):
            def run():
                lists.append(pm.get_folder_structure(srv.GetFolderStructure.Request(storage_folder=store, show_hidden=False), srv.GetFolderStructure.Response()))

            s.spawn(run, f"list{i}")

        def reader():
            for _ in range(rng.randint(1, 12)):
                s.point(force=True)
                for st, path in pool:
                    p = os.path.join(st, path)
                    if os.path.exists(p):
                        with open(p, "rb") as f:
                            seen.append((p, f.read()))

        s.spawn(reader, "reader")
        s.run()
        if s.aborted:
            raise Violation("concurrent/stuck", s.reason)
    for t in s.tasks:
        if t.error is not None:
            raise t.error
    ctx.count("concurrent")
    ctx.count("reads", len(seen))
    ctx.sig("schedule", s.history)
    after = snapshot(w.d)
    what = "; ".join(f"{j[0].filepath} (overwrite {j[0].allow_overwrite}, rename {j[0].allow_rename}) -> {j[3].success and j[3].file_path[len(w.d):] or j[3].error_message}" for j in jobs)
    by = {}
    for j in jobs:
        if j[3].success:
            by.setdefault(j[3].file_path, []).append(j)
            if j[3].file_path != j[1] and not j[0].allow_rename:
                raise Violation("concurrent/name", what)
    for p, c in seen:
        if c != before.get(p) and not any(read(c) == j[2] for j in jobs):
            raise Violation("concurrent/torn", f"{what}: a reader found {c[:200]!r} in {p[len(w.d):]}")
    for p in set(before) | set(after):
        if p not in by:
            if before.get(p) != after.get(p):
                raise Violation("concurrent/others", f"{what}: {p[len(w.d):]} changed to {after.get(p, b'(gone)')[:200]!r}")
            continue
        makers = [j for j in by[p] if j[0].allow_rename or not j[0].allow_overwrite]
        over = [j for j in by[p] if j not in makers]
        if len(by[p]) > 1:
            ctx.count("raced")
        if len(makers) > 1 or (makers and p in before):
            raise Violation("concurrent/lost", f"{what}: {len(makers)} requests that may not overwrite anything report the same file")
        got = read(after.get(p, b""))
        if not any(got == j[2] for j in (over or makers)):
            raise Violation("concurrent/contents", f"{what}: {p[len(w.d):]} holds {after.get(p, b'(nothing)')[:200]!r}")
    for j in jobs:
        if not j[3].success and not j[3].error_message:
            raise Violation("concurrent/why", what)
        if not j[3].success and j[0].allow_overwrite and not j[0].allow_rename:
            raise Violation("concurrent/refused", f"{what}: {j[3].error_message}")
    for a in lists:
        ctx.count("listings")
        got = check_listing(ctx, json.loads(a.storage_folder_structure), "concurrent")
        new = expected_listing(store, False)
        for p in base:
            if p not in got:
                raise Violation("concurrent/listing", f"{p} is missing in {sorted(got)}")
        extra = [p for p in got if p not in base and p not in new]
        if extra:
            raise Violation("concurrent/listing", f"{extra} never existed")


def expected_listing(root, hidden):
    """Relative path -> type, not descending into links that lead back up."""
    out = {}

    def go(path, rel, up):
        for f in os.listdir(path):
            if f.startswith(".") and not hidden:
                continue
            p, r = os.path.join(path, f), rel + "/" + f
            if os.path.isdir(p):
                real = os.path.realpath(p)
                out[r] = "loop" if real in up else "directory"
                if real not in up:
                    go(p, r, up | {real})
            else:
                out[r] = "file"

    go(root, "", {os.path.realpath(root)})
    return out


def check_listing(ctx, top, what):
    """Ids are unique, parents right; relative path -> type."""
    out, ids = {}, set()

    def go(d, rel, parent):
        ctx.count("entries")
        if d["item_id"] in ids or d["parent"] != parent:
            raise Violation("listing/ids", f"{what}: {rel or '/'} has id {d['item_id']} and parent {d['parent']}, expected parent {parent} and a new id")
        ids.add(d["item_id"])
        if rel:
            if rel in out:
                raise Violation("listing/twice", f"{what}: {rel} appears twice")
            out[rel] = d["type"]
        if ("children" in d) != (d["type"] != "file"):
            raise Violation("listing/children", f"{what}: {d['type']} {rel}: {list(d)}")
        for c in d.get("children", []):
            if "/" in c["name"] or not c["name"]:
                raise Violation("listing/name", f"{what}: {c['name']!r} below {rel}")
            go(c, rel + "/" + c["name"], d["item_id"])

    go(top, "", 0)
    return out


def listings(ctx, w):
    rng = ctx.rng
    pre = w.d + "/prefix"
    os.makedirs(f"{pre}/share/ament_index/resource_index/packages")
    roots = list(w.stores)
    for p in ("pkg_a", "pkg_b"):
        open(f"{pre}/share/ament_index/resource_index/packages/{p}", "w").close()
        os.makedirs(f"{pre}/share/{p}/etc/trees")
        roots.append(f"{pre}/share/{p}")
    for root in roots:
        for _ in range(rng.randint(0, 6)):
            dirs = [x for x, _, _ in os.walk(root)]
            p = os.path.join(rng.choice(dirs), rng.choice(["x", "y.yaml", ".h", ".hd", "ü", "a b", 'q"q', "back\\slash", "new\nline", "z"]))
            if os.path.lexists(p):
                continue
            r = rng.random()
            if r < 0.4:
                os.mkdir(p)
            elif r < 0.6:
                open(p, "w").close()
            elif r < 0.75:
                os.symlink(rng.choice([os.path.dirname(p), root, rng.choice(dirs), "."]), p)
            elif r < 0.85:
                os.symlink(rng.choice(["nowhere", p, w.d + "/outside", w.d + "/outside/t.yaml"]), p)
            elif r < 0.95:
                os.mkfifo(p)
            else:
                os.mkdir(p)
                os.mkdir(p + "/inner")
    for _ in range(rng.randint(3, 8)):
        hidden = rng.random() < 0.4
        if rng.random() < 0.5:
            store = rng.choice(w.stores)
            bad = rng.random() < 0.15
            if bad:
                store = rng.choice(["", w.d + "/..", w.d, w.d + "/outside", store + "/sub", store + "/", store + "/../outside", "pkg_a"])
                bad = store not in w.stores
            a = w.pm.get_folder_structure(srv.GetFolderStructure.Request(storage_folder=store, show_hidden=hidden), srv.GetFolderStructure.Response())
            text = a.storage_folder_structure
            root = store
        else:
            ctx.count("packages")
            name = rng.choice(["pkg_a", "pkg_b", "pkg_a", "pkg_b", "pkg_c", "", "bad name", "../pkg_a", "ü", "a/b", "a\0b", "x" * 300, "share", ".", ".."])
            bad = name not in ("pkg_a", "pkg_b")
            a = w.pm.get_installed_package_structure(srv.GetPackageStructure.Request(package=name, show_hidden=hidden), srv.GetPackageStructure.Response())
            text = a.package_structure
            root = f"{pre}/share/{name}"
        what = f"listing of {root[len(w.d):]!r} (hidden {hidden})"
        ctx.count("listings")
        ctx.sig("listing", root[len(w.d):], bad, hidden, a.success, len(text) // 300)
        if bad:
            if a.success or not a.error_message or text:
                raise Violation("listing/unknown", f"{what}: answered {a.success} {a.error_message!r} {text[:100]}")
            continue
        if not a.success:
            raise Violation("listing/refused", f"{what}: {a.error_message}")
        top = json.loads(text)
        if top["name"] != os.path.basename(root) or top["type"] != "directory":
            raise Violation("listing/top", f"{what}: top is {top['name']!r} {top['type']}")
        got = check_listing(ctx, top, what)
        want = expected_listing(root, hidden)
        loops = [p for p, t in want.items() if t == "loop"]
        ctx.count("loops", len(loops))
        got = {p: t for p, t in got.items() if not any(p == x or p.startswith(x + "/") for x in loops) or p in loops}
        if {p: t for p, t in got.items() if p not in loops} != {p: t for p, t in want.items() if t != "loop"} or not set(loops) <= set(got):
            raise Violation("listing/entries", f"{what}: {sorted(set(got.items()) ^ set(want.items()))[:6]}")
