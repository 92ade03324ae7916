"""C41: the help pages are complete."""

import inspect

from .common import *
import libff.type as T

LABELS = ("attributes", "plugins", "plugin", "types", "full", "options", "version", "no such plugin", "no man", "man failed",
          "missing text", "leading control character", "backslash", "quoted", "several paragraphs")
BOUNDS = ("up to three plugins of the user besides the ones that come with the programme, each with a symbolic description "
          "of up to 2, in one page 3 (thorough 3 and 4) characters from every class that means something to roff(7) or to the markup, alone, "
          "inside and between words and paragraphs, or none at all; every help option and topic, asked for in any position")
ASSUME = ("the roff requests and escapes the pages consist of are those of man(7); backticks in descriptions are markup",)
BUDGET = {"quick": 200, "thorough": 2400}

ALPHABET = "a.'\\-` \n("


# the texts that come with the programme
OWN = {}
for _n in os.listdir(os.path.dirname(libff.__file__)):
    _p = os.path.join(os.path.dirname(libff.__file__), _n)
    if os.path.isfile(_p) and not _n.endswith(".py"):
        with open(_p, "rb") as _f:
            OWN[_p] = _f.read()


def cases(tier):
    deep = tier == "thorough"
    for page in ("attributes", "plugins", "plugin", "types"):
        for n in range(0, 4 if deep else 3):
            yield ("text", page, n)
    yield ("text", "types", 4 if deep else 3)
    for page in ("attributes", "plugins", "types", "plugin"):
        yield ("missing", page)
        yield ("sets", page)
    yield ("builtin",)
    yield ("full",)
    yield ("options",)
    yield ("topics",)
    yield ("faults",)


def run(env, case):
    globals()["run_" + case[0]](env, *case[1:])


# ------------------------------------------------------------------ the pages --
class Man(W.FakePopen):
    def communicate(self, input=None, timeout=None):
        self.page.append(input)
        return None, None


class HelpWorld(World):
    """Records the page that man(1) is given."""

    def __init__(self, outcome=0):
        super().__init__(D({"w": D({"f": F(b"")})}))
        self.pages = []
        self.outcome = outcome

    def open(self, path, mode="r", *a, **kw):
        if path in OWN and mode in ("r", "rt", "rb"):
            return W.File(self, path, OWN[path], mode, kw.get("encoding"), kw.get("errors"), None, F(b""))
        return super().open(path, mode, *a, **kw)

    def popen(self, args, **kw):
        if list(args)[0] != "man":
            raise AssertionError("another command is started")
        if self.outcome < 0:
            raise OSError(-self.outcome, os.strerror(-self.outcome), "man")
        p = Man(args, self.outcome)
        p.page = self.pages
        return p


def plugin(name, doc, attributes=(), **kw):
    """A plugin of the user."""
    cls = type(name, (Plugin,), {"__doc__": doc, "attributes": list(attributes), "cache_tag": 1, **kw})
    return cls


def show(*argv, plugins=(), types=(), outcome=0, only=None):
    """The page that is shown, as (kind, text) with kind one of section, item, text; and the rest."""
    w = HelpWorld(outcome)
    with active(w):
        registered, attrs, known = (Registry.registered_plugins, Registry.attributes, Registry.registered_types)
        Registry.registered_plugins, Registry.attributes, Registry.registered_types = {k: v for k, v in registered.items() if only is None or k == only}, dict(attrs), set(known)
        try:
            ctx = Context()
            ctx.args = arguments()
            ctx.global_lock = W.SeqLock()
            ctx.logger = Logger()
            ctx.logger.debug_categories = ["none"]
            reg = Registry(ctx)
            for t in types:
                reg.register_type(t)
            for p in plugins:
                reg.register_plugin("user", "/h/.ff/x.py", p)
                for name, type_cls, _ in p.attributes:
                    reg.attributes[Attribute(p.name, name)] = type_cls
            status = programme(*argv)
        finally:
            Registry.registered_plugins, Registry.attributes, Registry.registered_types = registered, attrs, known
    return status, [roff(p) for p in w.pages], w


def roff(page):
    """What a reader sees of a page."""
    out = []
    for line in page.split("\n"):
        if line[:1] == "." or line[:1] == "'":
            word = line.split(" ", 1)
            if word[0] in (".SH", ".SS"):
                out.append(("section", plain(word[1])))
            elif word[0] == ".IP":
                rest = word[1]
                if rest[:1] == '"':
                    rest = rest[1:rest.index('"', 1)]
                else:
                    rest = rest.split(" ")[0]
                out.append(("item", plain(rest)))
            elif word[0] == ".TH":
                pass
            elif word[0] in (".PP", ".br", ".nh", ".P", ".LP", ".sp", ".nf", ".fi"):
                pass
            else:
                # any other request swallows its line
                out.append(("lost", ""))
        elif line.strip() != "":
            if out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + " " + plain(line))
            else:
                out.append(("text", plain(line)))
    return out


def plain(line):
    out = ""
    i = 0
    n = len(line)
    while i < n:
        c = line[i]
        i += 1
        if c != "\\":
            out += c
            continue
        e = line[i:i + 1]
        i += 1
        if e == "f":
            f = line[i:i + 1]
            i += 1
            if f == "(":
                i += 2
            elif f == "[":
                i = line.index("]", i) + 1
        elif e == "-":
            out += "-"
        elif e == "e" or e == "\\":
            out += "\\"
        elif e == "&":
            pass
        elif e == "(":
            name = line[i:i + 2]
            i += 2
            out += GLYPHS.get(name, "?")
        elif e == "[":
            end = line.index("]", i)
            out += GLYPHS.get(line[i:end], "?")
            i = end + 1
        elif e == " " or e == "~":
            out += " "
        else:
            # a number register, a comment, ...: the text is not what was meant
            out += "?"
    return out


GLYPHS = {"rs": "\\", "aq": "'", "dq": '"', "ga": "`", "hy": "-", "ha": "^", "ti": "~"}


def words(text):
    """The words of a text without markup."""
    out = []
    cur = ""
    for c in text:
        if c == "`":
            continue
        if c == " " or c == "\n" or c == "\t":
            if cur != "":
                out.append(cur)
            cur = ""
        else:
            cur += c
    if cur != "":
        out.append(cur)
    return out


def sections(page):
    """title -> what is below it"""
    out = {}
    cur = None
    for kind, text in page:
        if kind == "section":
            cur = out.setdefault(text.lower(), [])
            cur.append([])
        elif cur is not None:
            cur[-1].append((kind, text))
    return out


def has(env, parts, text, what):
    """The words of text follow one another in what is shown."""
    want = words(text)
    got = words(" ".join(t for k, t in parts))
    env.check(contains(got, want), what)


def contains(got, want):
    if not want:
        return True
    r = False
    for i in range(len(got) - len(want) + 1):
        ok = True
        for a, b in zip(got[i:], want):
            ok = ok & (len(a) == len(b)) & (a == b if len(a) == len(b) else False)
        r = r | ok
    return r


def topic(page, name):
    return {"attributes": "--help-attributes", "plugins": "--help-plugins", "types": "--help-types", "plugin": "--help=" + name}[page]


def page_of(env, page, name, **kw):
    status, pages, w = show(topic(page, name), **kw)
    env.check(status == 0, "the help ends with an error")
    env.check(w.stderr.text() == "", "a message without a reason")
    env.check(not [p for op, p in w.events if op == "scandir"], "the tree is searched")
    env.check(len(pages) == 1, "no help is shown")
    return pages[0]


# ---------------------------------------------------------------- description --
def run_text(env, page, n):
    """The words of a description are shown, whatever they consist of."""
    env.reach(page)
    s = env.text("s", n, [ALPHABET] * n)
    if n:
        if s[0] == "." or s[0] == "'":
            env.reach("leading control character")
        if "\\" in s:
            env.reach("backslash")
        if "'" in s or "`" in s:
            env.reach("quoted")
        if "\n" in s:
            env.reach("several paragraphs")
    where = env.pick("where", ("alone", "first", "last", "inside", "paragraph"))
    doc = {"alone": s, "first": s + " foo(1) bar", "last": "foo " + s, "inside": "x" + s + "b(1)", "paragraph": "foo\n\n" + s + "\n  bar\n"}[where]
    if page == "types":
        kind = type("Special", (String,), {"__doc__": doc, "name": "special"})
        got = page_of(env, page, "", types=[kind], only="file")
        part = sections(got).get("special type")
        env.check(part is not None and len(part) == 1, "a type is not listed once")
        has(env, part[0], doc, "the description is not shown in full")
        return
    use = env.pick("use", ("doc", "attribute")) if page != "plugins" else "doc"
    p = plugin("Mine", doc if use == "doc" else "Foo.", [("x", String, doc if use == "attribute" else "Foo.")])
    got = page_of(env, page, "mine", plugins=[p], only="file")
    parts = sections(got)
    if page == "plugin":
        if use == "doc":
            part = parts.get("description", [[]])
        else:
            part = parts.get("attributes", [[]])
    else:
        part = parts.get("mine plugin")
    env.check(part is not None and (len(part) == 1), "a plugin is not listed once")
    has(env, part[0], doc, "the description is not shown in full")


def run_missing(env, page):
    """Plugins and types without a description are shown nevertheless."""
    env.reach("missing text")
    doc = env.pick("doc", (None, "", "  \n "))
    p = plugin("Mine", doc, [("x", Number, env.pick("help", ("", "Foo.")))])
    kind = type("Special", (String,), {"__doc__": doc, "name": "special"})
    got = page_of(env, page, "mine", plugins=[p], types=[kind])
    if page == "types":
        env.check("special type" in sections(got), "a type is not listed")
    elif page == "plugin":
        env.check(("item", "mine.x") in got, "an attribute is not listed")
    else:
        env.check("mine plugin" in sections(got), "a plugin is not listed")
        if page == "attributes":
            env.check(("item", "mine.x") in got, "an attribute is not listed")


# ----------------------------------------------------------------------- sets --
TYPES = (String, Number, Size, Time, Boolean, ListOfStrings, Duration, Mode, Path, FileType)


def run_sets(env, page):
    """Whatever plugins there are, each is shown once with all of its attributes."""
    env.reach(page)
    mine = []
    for i, name in enumerate(("Alpha", "Zeta", "Gamma")):
        if env.flag(name):
            attrs = [(f"a{j}", TYPES[env.int(f"t{i}{j}", 0, 2).__index__()] if i == j == 0 else
                      TYPES[(3 * i + j) % len(TYPES)], f"Text {i} {j}.") for j in range(env.pick(f"n{i}", (0, 2) if i else (1, 2)))]
            mine.append(plugin(name, f"About {name}.", attrs, use_cache=env.flag(f"cache{i}") if i == 0 else i == 1, author="A. Nobody", email="a@b.c"))
    if env.flag("reverse"):
        mine.reverse()
    name = mine[0].name if mine else "file"
    got = page_of(env, page, name, plugins=mine)
    parts = sections(got)
    env.observe(got)
    everyone = {p.name: p for p in list(Registry.registered_plugins.values()) + mine}
    if page == "types":
        check_types(env, parts, Registry.registered_types)
        return
    if page == "plugin":
        everyone = {name: everyone[name]}
    titles = [t for t in parts if t.endswith(" plugin")]
    if page != "plugin":
        env.check(sorted(titles) == sorted(n + " plugin" for n in everyone), "the plugins shown are not the ones there are")
    for n, p in everyone.items():
        part = parts[n + " plugin"] if page != "plugin" else [sum(sum(parts.values(), []), [])]
        env.check(len(part) == 1, "a plugin is shown more than once")
        has(env, part[0], p.__doc__, "the description of a plugin is not shown")
        if page != "attributes":
            cached = "Yes" if p.use_cache else "No"
            has(env, part[0], "Uses cache: " + cached, "the use of the cache is wrong")
            has(env, part[0], p.source, "the source is not shown")
            has(env, part[0], p.path, "the path is not shown")
        if page == "plugin":
            has(env, part[0], p.author, "the author is not shown")
        if page in ("attributes", "plugin"):
            check_attributes(env, part[0], p)


def check_attributes(env, part, p):
    items = [i for i, (k, t) in enumerate(part) if k == "item"]
    names = [part[i][1] for i in items]
    want = [("[file.]" if p.name == "file" else p.name + ".") + a for a, t, h in p.attributes]
    env.check(sorted(names) == sorted(want), "the attributes shown are not those of the plugin")
    for i, j in zip(items, items[1:] + [len(part)]):
        a, t, h = next(x for x, w in zip(p.attributes, want) if w == part[i][1])
        end = next((m for m in range(i + 1, j) if part[m][0] != "text"), j)
        has(env, part[i:end], f"Type: {t.name}", "the type of an attribute is wrong")
        has(env, part[i:end], f"( {' '.join(t.operators)} )", "the operators of an attribute are wrong")
        has(env, part[i:end], h, "the description of an attribute is not shown")


def check_types(env, parts, types):
    titles = [t for t in parts if t.endswith(" type")]
    env.check(sorted(titles) == sorted(t.name + " type" for t in types), "the types shown are not the ones there are")
    for t in types:
        part = parts[t.name + " type"]
        env.check(len(part) == 1, "a type is shown more than once")
        has(env, part[0], "Operators: " + " ".join(t.operators), "the operators of a type are wrong")
        has(env, part[0], "Count: " + t.count.name.lower(), "how a type is counted is wrong")
        has(env, part[0], t.__doc__, "the description of a type is not shown")


def run_builtin(env):
    """Each plugin that comes with the programme has its page."""
    names = sorted(Registry.registered_plugins)
    name = names[env.int("which", 0, len(names) - 1).__index__()]
    spelling = env.pick("spelling", (["--help", name], ["-h", name], ["--help=" + name], ["-h" + name]))
    before = env.pick("before", ([], ["-H"], ["-d1"]))
    status, pages, w = show(*before, *spelling)
    env.check(status == 0 and len(pages) == 1, "no help is shown")
    check_attributes(env, sum(sum(sections(pages[0]).get("attributes", [[]]), []) and sections(pages[0])["attributes"], []), Registry.registered_plugins[name])


# ------------------------------------------------------------- other pages ----
def run_full(env):
    """The manual has everything its template, the options, the exit status and the time formats say."""
    env.reach("full")
    argv = env.pick("argv", (["--help-full"], ["-H", "--help-full"], ["--help-full", "-S"]))
    status, pages, w = show(*argv)
    env.check(status == 0 and len(pages) == 1, "no help is shown")
    page = pages[0]
    parts = sections(page)
    for o in create_parser().options:
        if o.action == "arguments":
            continue
        at = [i for i, (k, t) in enumerate(page) if k == "item" and any(x.strip("[]") in o.strings for x in t.replace(",", " ").split())]
        env.check(len(at) == 1, "an option is not shown once")
        has(env, page[at[0]:at[0] + 2], o.help.replace("%%", "%"), "the description of an option is not shown")
        env.check(all(s in page[at[0]][1].replace(",", " ").split() for s in o.strings), "a spelling of an option is missing")
    codes = parts["exit codes"][0]
    for cls in (X.NoResultError, X.UsageError, X.SubprocessError, X.ProcessError, X.BadPluginError, X.BadAttributeError, X.ExpressionError):
        i = codes.index(("item", str(cls.exitcode)))
        has(env, codes[i:i + 2], cls.__doc__, "the meaning of an exit status is not shown")
    for title in ("name", "synopsis", "description", "options", "environment", "see also"):
        env.check(title in parts and len(parts[title]) == 1, "a section is missing")
    env.check(not [1 for k, t in page if k == "lost"], "a line is lost")


def run_options(env):
    """--help shows every option on standard output."""
    env.reach("options")
    argv = env.pick("argv", (["--help"], ["-h"], ["-H", "-h"], ["--help", "-S"], ["name=a", "--help"], ["--help=all"]))
    status, pages, w = show(*argv)
    out = w.stdout.text()
    env.observe(len(out))
    env.check(status == 0 and not pages, "wrong status")
    env.check(w.stderr.text() == "", "a message without a reason")
    env.check(not [p for op, p in w.events if op == "scandir"], "the tree is searched")
    got = [(("text", out))]
    flat = out.replace(",", " ").split()
    for o in create_parser().options:
        if o.action != "arguments":
            for s in o.strings:
                env.check(s in flat, "an option is not shown")
        has(env, got, o.help, "the description of an option is not shown")
    w = HelpWorld()
    with active(w):
        status = programme(*env.pick("version", (["--version"], ["-H", "--version"], ["--version", "name=a"])))
    env.reach("version")
    env.check(status == 0 and not w.pages, "wrong status")
    from libff.__version__ import __version__
    env.check(w.stdout.text().startswith(f"ff {__version__}\n"), "the version is not shown")
    env.check(not [p for op, p in w.events if op == "scandir"], "the tree is searched")


def run_topics(env):
    """Only plugins that exist have a help page."""
    s = env.text("name", 4, ["fg.", "ir", "lte", "e p"])
    status, pages, w = show("--help=" + s)
    env.observe(status)
    if s == "file" or s == "grep":
        env.reach("plugin")
        env.check(status == 0 and len(pages) == 1, "no help is shown")
    else:
        env.reach("no such plugin")
        env.check(status == 2 and not pages, "help on a plugin that does not exist")
        env.check(s in w.stderr.text(), "the message does not name the plugin")
    env.check(w.stdout.text() == "", "output besides the page")


def run_faults(env):
    """man(1) may be missing or fail."""
    page = env.pick("page", ("attributes", "plugins", "types", "plugin"))
    code = env.int("code", -2, 255)
    if code == -1:
        code = -errno.ENOENT
    elif code == -2:
        code = -errno.ENOENT
    status, pages, w = show(topic(page, "file"), outcome=code)
    if code == 0:
        env.check(status == 0, "wrong status")
        return
    env.reach("no man" if code < 0 else "man failed")
    env.check(status == 1 or isinstance(status, str), "a failure of man is not reported")
    env.check(not [p for op, p in w.events if op == "scandir"], "the tree is searched")
