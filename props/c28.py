"""C28: resolution of attribute names and delivery of the right plugin's value."""

from .common import *
from libff.field import OutputFields, SortFields

LABELS = ("file", "unique", "ambiguous", "qualified", "unknown plugin", "unknown attribute",
          "no value")
BOUNDS = ("three plugins, providing any subset (bb: always uid) of two attribute names the file plugin also may "
          "have, loaded from two plugin directories in every order; every name out of 25 plus all "
          "names of 2-5 (thorough 6) characters over 'abxy.', used in a test, an output field and a "
          "sort field, after another name was resolved before or not; two entries with distinct values, "
          "in any order of access")
BUDGET = {"quick": 100, "thorough": 1200}

NAMES = ("xx", "uid", "aa.xx", "aa.uid", "bb.xx", "bb.uid", "file.uid", "file.xx", "zz", "zz.xx",
         "aa.zz", "cc.xx", "cc.uid", "file.size", "size", "file.path")
ORDERS = (("aa", "bb", "file"), ("file", "bb", "aa"), ("bb", "file", "aa"))
# resolved before, plugin aa has no value for entry f, entries accessed in reverse
SITUATIONS = ((None, False, False), ("xx", True, True), ("aa.xx", False, True),
              ("bb.uid", True, False))


def cases(tier):
    for o in range(3):
        for use in ("test", "output", "sort"):
            for name in NAMES:
                yield (o, use, name)
    for use in ("test", "output"):
        for name in ("siz", "sizes", "ui", "bb.ui", "file.si", "bb.uid.", "a.xx", "xxl", "cc.xxl"):
            yield (0, use, name)
    for n in range(2, 7 if tier == "thorough" else 6):
        yield (0, "test", n)
        yield (1, "output", n)


def make(name, attrs, values):
    def process(self, entry, cached):
        for a in attrs:
            if (name, a, entry.path) in values:
                yield a, values[name, a, entry.path]
    cls = type(Plugin)(name, (Plugin,), {
        "attributes": [(a, Number, "") for a in attrs], "cache_tag": 1,
        "can_handle": lambda self, entry: True, "process": process})
    return cls


class Module:
    pass


def run(env, case):
    o, use, name = case
    values = {}
    provided = {}
    for p in ("aa", "bb"):
        provided[p] = [a for a in ("xx", "uid") if (p, a) == ("bb", "uid") or env.flag(f"{p}.{a}")]
    provided["cc"] = ["xxl", "xx"] if env.flag("cc.xx") else ["xxl"]
    provided["file"] = ["uid", "size"] if env.flag("file.uid") else ["size"]
    v = env.int("value", 0, 10 ** 6)
    for i, path in enumerate(("f", "g/f")):
        for j, (p, a) in enumerate((p, a) for p in ("aa", "bb", "cc") for a in ("xx", "uid", "xxl")):
            values[p, a, path] = v + i * 10 ** 7 + j * 10 ** 8
    before, missing, order = env.pick("situation", SITUATIONS)
    if missing:
        del values["aa", "xx", "f"]
    if not isinstance(name, str):
        name = env.text("name", name, "abxy.")
    # other files are no plugins; a plugin may be a symbolic link
    dirs = {"p": D({**{n + ".py": L(f"/x/{n}") if o == 1 else F(b"") for n in ORDERS[o]}, "_dd.py": F(b""), "ee.pyc": F(b""), "ff.py": D({})}),
            "q": D({"cc.py": F(b"")}), "x": D({n: F(b"") for n in ORDERS[o]})}
    world = World(D(dirs))
    world.environ["FF_PLUGIN_DIRS"] = "/q:/p" if o == 1 else "/p:/q"
    Registry.registered_plugins.clear()
    getattr(Registry, "plugins", {}).clear()
    Registry.attributes.clear()
    saved = Registry.load_plugin

    def load(self, pname, source, path):
        m = Module()
        setattr(m, pname, make(pname, provided[pname], values))
        self.inspect_namespace(source, path, m)
    Registry.load_plugin = load
    try:
        with active(world):
            body(env, use, name, before, provided, values, order)
    finally:
        Registry.load_plugin = saved


def resolve(ctx, use, name, swap):
    """The value the name delivers for entry f and g, or None if refused."""
    f, g = entry("f", Status(uid=7, size=11)), entry("f", Status(uid=8, size=12), root="g", absroot="/w/g")
    order = (g, f) if swap else (f, g)
    if use == "output":
        fields = OutputFields(ctx, [name])
        d = {e.path: fields.to_dict(e)[fields.fields[0]] for e in order}
        return [d["f"], d["g/f"]]
    if use == "sort":
        fields = SortFields(ctx, [name])
        d = {e.path: fields.render(e)[0] for e in order}
        return [d["f"], d["g/f"]]
    # a test that holds exactly for the value
    m = Matcher(ctx, [name + "+=0"])
    attr = next(iter(next(iter(m.parser)))).attribute
    d = {}
    for e in order:
        d[e.path] = ctx.registry.get_attribute(e, attr) if m.test(e) else None
    return [d["f"], d["g/f"]]


def body(env, use, name, before, provided, values, order):
    ctx = context()
    if before is not None:
        try:
            resolve(ctx, "output", before, order)
        except X.BadAttributeError:
            pass
    # what it should denote
    owner = None
    attr = None
    why = "unknown attribute"
    dot = -1
    for i in range(len(name)):
        if name[i] == ".":
            dot = i
            break
    if dot < 0:
        for a in ("xx", "uid", "size", "xxl"):
            if name == a:
                attr = a
        owners = [p for p in provided if attr in provided[p]]
        if "file" in owners:
            owner = "file"
            env.reach("file")
        elif len(owners) == 1:
            owner = owners[0]
            env.reach("unique")
        elif owners:
            why = "ambiguous"
    else:
        for p in provided:
            if name[:dot] == p:
                owner = p
        if owner is None:
            why = "unknown plugin"
        else:
            for a in provided[owner]:
                if name[dot + 1:] == a:
                    attr = a
            if attr is None:
                owner = None
            else:
                env.reach("qualified")
    if owner is None:
        env.reach(why)
    if owner == "file":
        want = [7, 8] if attr == "uid" else [11, 12]
    elif owner:
        want = [values.get((owner, attr, "f")), values[owner, attr, "g/f"]]
        if want[0] is None:
            env.reach("no value")
            if use == "sort":
                want[0] = 0
    else:
        want = None
    try:
        got = resolve(ctx, use, name, order)
    except (X.BadAttributeError, X.UsageError, X.ExpressionError):
        got = None
    env.observe(got)
    env.check((got is None) == (want is None), "refused" if got is None else "accepted")
    if got is not None and want is not None:
        env.equal(got, want, "the name denotes the wrong attribute or value")
