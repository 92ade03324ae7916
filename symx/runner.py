"""Runs a property harness: symbolically over all cases on 8 workers, then replays every
counterexample and a sample of the explored paths against the uninstrumented code."""

import collections
import gc
import importlib
import json
import os
import pickle
import random
import select
import signal as _signal
import socket
import struct
import subprocess
import sys
import time
import traceback
from time import perf_counter

from . import loader, world

VERIF = loader.VERIF
EVID = os.environ.get("SX_EVID", os.path.join(VERIF, "evidence"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
HARD = {"quick": 600, "thorough": 3400}


class Env:
    """What a harness sees."""

    thorough = TIER == "thorough"

    def __init__(self, symbolic, inputs=None):
        self.symbolic = symbolic
        self.given = inputs
        self.observed = []
        self.failures = []
        self.known = []
        self.labels = []

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        if not self.symbolic:
            return self.given.get(name, lo if lo is not None else 0)
        e = core.eng()
        v = values.SymInt(z3.Int(name))
        e.inputs[name] = v
        if lo is not None:
            e.assume(v.e >= lo)
        if hi is not None:
            e.assume(v.e <= hi)
        return v

    def real(self, name, den, lo=None, hi=None):
        """A rational with denominator `den` (exact as a float for powers of two)."""
        n = self.int(name, lo, hi)
        if not self.symbolic:
            return n / den
        return values.SymReal(z3.ToReal(n.e) / den)

    def bool(self, name):
        if not self.symbolic:
            return self.given.get(name, False)
        v = values.SymBool(z3.Bool(name))
        core.eng().inputs[name] = v
        return v

    def bits(self, name, width):
        if not self.symbolic:
            return self.given.get(name, 0)
        v = values.SymBits([z3.Bool(f"{name}.{i}") for i in range(width)])
        core.eng().inputs[name] = v
        return v

    def pick(self, name, options):
        """One of `options`; forks."""
        options = list(options)
        if not self.symbolic:
            return options[self.given.get(name, 0)]
        if len(options) == 1:
            core.eng().inputs[name] = 0
            return options[0]
        v = self.int(name, 0, len(options) - 1)
        return options[core.eng().concretize(v.e)]

    def flag(self, name):
        """A boolean decided now; forks."""
        return self.pick(name, (False, True))

    def text(self, name, length, dom):
        """A str of `length` characters from `dom` (a str or a list of per-position strs)."""
        if not self.symbolic:
            cs = self.given.get(name)
            if cs is None:
                cs = [ord((dom if isinstance(dom, str) else dom[i])[0]) for i in range(length)]
            return "".join(map(chr, cs))
        return self._chars(name, length, dom, values.mkstr)

    def bytes(self, name, length, dom):
        if not self.symbolic:
            cs = self.given.get(name)
            if cs is None:
                cs = [dom[0]] * length
            return bytes(cs)
        if isinstance(dom, (bytes, bytearray)):
            dom = "".join(map(chr, dom))
        return self._chars(name, length, dom, values.mkbytes)

    def _chars(self, name, length, dom, mk):
        e = core.eng()
        cs = []
        for i in range(length):
            d = dom if isinstance(dom, str) else dom[i]
            s = frozenset(map(ord, d))
            if len(s) == 1:
                cs.append(next(iter(s)))
                continue
            c = values.Ch(z3.Int(f"{name}[{i}]"), s)
            whole = values.Ch(c.e, ALLCP)
            lo, hi = min(s), max(s)
            if hi - lo + 1 == len(s):
                e.assume(z3.And(c.e >= lo, c.e <= hi))
            else:
                e.assume(values.in_set(whole, s))
            cs.append(c)
        v = mk(cs)
        e.inputs[name] = v
        return v

    # ---- verdicts
    def assume(self, cond):
        if not self.symbolic:
            if not cond:
                raise Skip()
            return
        core.eng().assume(values.zb(cond))

    def check(self, cond, message):
        if not self.symbolic:
            if not cond:
                raise CheckFailed(message)
            return
        core.eng().check(values.zb(cond), message)

    def equal(self, a, b, message):
        """Check a == b structurally."""
        if not self.symbolic:
            if not _same(a, b):
                raise CheckFailed(f"{message}: got {a!r}, expected {b!r}")
            return
        core.eng().check(_eqform(a, b), message)

    def fail(self, message):
        self.check(False, message)

    def reach(self, label):
        if self.symbolic:
            core.eng().reach(label)
        self.labels.append(label)

    def observe(self, value):
        """Record a value that the native run must produce as well."""
        self.observed.append(value)

    def concrete(self, value):
        if not self.symbolic:
            return value
        t = type(value)
        if t in (values.SymInt, values.SymBits):
            return value.__index__()
        if t is values.SymBool:
            return bool(value)
        if t in values.SYMSEQ:
            return value.concrete()
        return value


def _same(a, b):
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def _eqform(a, b):
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        if len(a) != len(b):
            return False
        return values.And(*[_eqform(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict) and not values.has_sym(list(a)) and \
            not values.has_sym(list(b)):
        if set(a) != set(b):
            return False
        return values.And(*[_eqform(a[k], b[k]) for k in a])
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return models.sym_eq(a, b)


class Skip(Exception):
    pass


class CheckFailed(Exception):
    pass


ALLCP = frozenset(range(0x110000)) if False else None
core = values = models = z3 = None


def _load_engine():
    global core, values, models, z3, ALLCP
    import z3 as _z3
    from . import core as _core, models as _models, values as _values
    core, values, models, z3 = _core, _values, _models, _z3

    class _All:
        """Complement-free universe: in_set() needs a domain larger than any set."""
    ALLCP = frozenset(range(0x3000)) | frozenset(range(0xD800, 0xE000)) | \
        frozenset(range(0x1F600, 0x1F610))
    world.install()
    models.setup()


def prepare(prop, symbolic):
    """Import the harness (and with it the repository's code)."""
    if symbolic:
        _load_engine()
    else:
        from . import core as _c, values as _v
        global core, values
        core, values = _c, _v
        world.install()
        _signal.signal(_signal.SIGALRM, _hang)
    opt = int(os.environ.get("SX_OPT", "1"))
    src = open(os.path.join(VERIF, "props", prop.lower() + ".py"), encoding="utf-8").read()
    if "\nOPTIMIZE = 0" in src:
        opt = 0
    loader.install(symbolic, opt)
    os.environ["HOME"] = "/nonexistent-home"
    os.environ["FF_PLUGIN_DIRS"] = os.path.join(loader.REPO, "plugins")
    os.environ.pop("LS_COLORS", None)
    os.environ.pop("FF_OPTIONS", None)
    os.environ.pop("PYTHONHASHSEED", None)
    os.environ["TZ"] = "VRF-05:30"
    time.tzset()
    real = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = world.Stream("stdout", sys.stdout), world.Stream("stderr", sys.stderr)
    try:
        mod = importlib.import_module("props." + prop.lower())
    finally:
        sys.stdout, sys.stderr = real
    if hasattr(mod, "warm"):
        mod.warm()
    return mod


# ---------------------------------------------------------------- symbolic --
class Explorer:
    def __init__(self, mod, cases):
        self.mod = mod
        self.cases = cases
        self.engine = core.Engine()
        self.state = loader.State()
        self.samples = []
        self.unsupported = collections.Counter()
        self.rng = random.Random(SEED * 7919 + os.getpid() % 64)
        self.npaths = 0
        self.funcs = set()
        self.max_samples = 40
        self.crashes = []
        self.deferred = []

    def monitor(self):
        mon = sys.monitoring
        mon.use_tool_id(3, "symx")
        prefix = loader.REPO + os.sep

        def start(code, offset):
            if code.co_filename.startswith(prefix) and code.co_name != "<module>":
                self.funcs.add(code.co_filename[len(prefix):] + ":" + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)

    def one(self, idx, prefix, model):
        e = self.engine
        self.state.restore()
        for c in models.SxCache.instances:
            c.items.clear()
        e.start(prefix, model)
        core.ENGINE = e
        env = Env(True)
        self.npaths += 1
        e.stats.paths += 1
        nv = len(e.violations)
        ok = False
        _signal.setitimer(_signal.ITIMER_REAL, 25, 1)
        try:
            try:
                self.mod.run(env, self.cases[idx])
                ok = True
            finally:
                world.CUR = None
                _signal.setitimer(_signal.ITIMER_REAL, 0)
        except core.Abort:
            pass
        except core.Hang as exc:
            try:
                e.violation(f"does not end @ {_where(exc)}")
            except core.Abort:
                pass
        except core.Unsupported as exc:
            self.unsupported[str(exc) + " @ " + _where(exc)] += 1
            self._defer(e, idx)
        except RecursionError as exc:
            self.unsupported["recursion @ " + _where(exc)] += 1
            self._defer(e, idx)
        except core.Budget:
            core.ENGINE = None
            e.finish()
            raise
        except Exception as exc:
            try:
                e.violation(f"{type(exc).__name__}: {_text(exc)} @ {_where(exc)}")
            except core.Abort:
                pass
        except SystemExit as exc:
            try:
                e.violation(f"SystemExit({exc.code}) @ {_where(exc)}")
            except core.Abort:
                pass
        if ok:
            n = self.npaths
            if len(self.samples) < self.max_samples or \
                    self.rng.random() < self.max_samples / n:
                try:
                    m = e.get_model()
                    rec = (idx, e.concrete_inputs(m), _reify_obs(env.observed, m),
                           list(env.labels))
                    if len(self.samples) < self.max_samples:
                        self.samples.append(rec)
                    else:
                        self.samples[self.rng.randrange(self.max_samples)] = rec
                except core.Abort:
                    pass
        core.ENGINE = None
        e.finish()
        out = [(idx, m, i) for m, i in e.violations[nv:]]
        del e.violations[nv:]
        return out

    def _defer(self, e, idx):
        if len(self.deferred) < 20:
            try:
                self.deferred.append((idx, e.concrete_inputs(), None, []))
            except (core.Abort, core.Unsupported):
                pass

    def explore(self, idx, prefixes, slice_s, deadline):
        """Explore until done or the time slice is over; returns (violations, leftover)."""
        e = self.engine
        end = min(perf_counter() + slice_s, deadline)
        e.deadline = deadline
        e.pending = [(p, None) for p in prefixes]
        viol = []
        while e.pending:
            if perf_counter() > end:
                break
            prefix, model = e.pending.pop()
            try:
                viol += self.one(idx, prefix, model)
            except core.Budget:
                e.pending.append((prefix, None))
                break
            if self.npaths % 500 == 0:
                gc.collect()
            if len(viol) >= 4:
                break
        left = [p for p, _ in e.pending]
        e.pending = []
        return viol, left


def _where(exc):
    tb = exc.__traceback__
    best = ""
    last = ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        last = f"{os.path.basename(fn)}:{tb.tb_lineno}"
        if fn.startswith(loader.REPO + os.sep):
            best = f"{fn[len(loader.REPO) + 1:]}:{tb.tb_lineno}"
        tb = tb.tb_next
    return best + (" (" + last + ")" if last and not best.endswith(last) else "")


def _text(exc):
    try:
        if any(values.has_sym(a) for a in exc.args):
            return "<symbolic message>"
        return str(exc)[:300]
    except BaseException:
        return "?"


def _reify_obs(obs, m):
    def f(v):
        t = type(v)
        if t in values.SYM:
            return ["v", values.reify(v, m)]
        if t in (list, tuple):
            return ["l", [f(x) for x in v]]
        if t is dict:
            return ["d", [[f(k), f(x)] for k, x in v.items()]]
        if isinstance(v, str):
            return ["v", [ord(c) for c in v]]
        if isinstance(v, bytes):
            return ["v", list(v)]
        if v is None or isinstance(v, (bool, int)):
            return ["v", v]
        if isinstance(v, float):
            n, d = v.as_integer_ratio()
            return ["v", [n, d]]
        if t in (set, frozenset):
            return ["s", len(v)]
        return ["o", type(v).__name__]
    return f(obs)


def _send(sock, obj):
    data = pickle.dumps(obj)
    sock.sendall(struct.pack("<Q", len(data)) + data)


def _recv(sock):
    def get(n):
        buf = b""
        while len(buf) < n:
            d = sock.recv(min(1 << 20, n - len(buf)))
            if not d:
                raise EOFError
            buf += d
        return buf
    n, = struct.unpack("<Q", get(8))
    return pickle.loads(get(n))


def _hang(*args):
    raise core.Hang()


def worker(sock, mod, cases, deadline):
    sys.setrecursionlimit(6000)
    _signal.signal(_signal.SIGALRM, _hang)
    ex = Explorer(mod, cases)
    ex.monitor()
    while True:
        msg = _recv(sock)
        if msg is None:
            break
        idx, prefixes, slice_s = msg
        viol, left = ex.explore(idx, prefixes, slice_s, deadline)
        deferred, ex.deferred = ex.deferred, []
        _send(sock, ("done", idx, viol, left, deferred))
    e = ex.engine
    _send(sock, ("end", e.stats.as_dict(), ex.samples, dict(ex.unsupported), sorted(ex.funcs),
                 dict(e.labels), collections.Counter(e.incomplete)))


def explore_all(mod, cases, budget, nworkers, on_violation):
    """Returns a result dict."""
    deadline = perf_counter() + budget
    procs = []
    gc.collect()
    gc.freeze()
    for i in range(nworkers):
        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                a.close()
                for s, _ in procs:
                    s.close()
                worker(b, mod, cases, deadline)
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        b.close()
        procs.append((a, pid))
    tasks = collections.deque((i, [[]]) for i in range(len(cases)))
    idle = [s for s, _ in procs]
    busy = {}
    stop = False
    violations = []
    deferred = []
    dead = []
    done_cases = collections.Counter()
    open_cases = collections.Counter({i: 1 for i in range(len(cases))})
    while True:
        while idle and tasks and not stop and perf_counter() < deadline:
            idx, prefixes = tasks.popleft()
            # share the work while others are idle
            s = idle.pop()
            if len(prefixes) > 1 and len(tasks) < len(idle):
                half = len(prefixes) // 2
                tasks.append((idx, prefixes[half:]))
                open_cases[idx] += 1
                prefixes = prefixes[:half]
            n = len(tasks)
            _send(s, (idx, prefixes, 0.25 if n < nworkers else 1.5))
            busy[s] = idx
        if not busy:
            break
        r, _, _ = select.select(list(busy), [], [], 5.0)
        for s in r:
            try:
                msg = _recv(s)
            except EOFError:
                dead.append(busy.pop(s))
                stop = True
                continue
            _, idx, viol, left, dfr = msg
            del busy[s]
            idle.append(s)
            deferred += dfr
            open_cases[idx] -= 1
            if left:
                k = max(1, min(4, nworkers - len(tasks)))
                for j in range(k):
                    part = left[j::k]
                    if part:
                        tasks.append((idx, part))
                        open_cases[idx] += 1
            if viol:
                violations += viol
                if on_violation(violations):
                    stop = True
    left_cases = sorted(i for i, n in open_cases.items() if n > 0)
    res = {"stats": collections.Counter(), "samples": [], "unsupported": collections.Counter(),
           "funcs": set(), "labels": collections.Counter(), "incomplete": collections.Counter(),
           "violations": violations, "dead": dead, "left": left_cases, "stopped": stop,
           "deferred": deferred}
    for s, pid in procs:
        try:
            _send(s, None)
            _, st, samples, uns, funcs, labels, inc = _recv(s)
            res["stats"].update(st)
            res["samples"] += samples
            res["unsupported"].update(uns)
            res["funcs"].update(funcs)
            res["labels"].update(labels)
            res["incomplete"].update(inc)
        except (EOFError, OSError):
            if not dead:
                dead.append(-1)
        s.close()
        os.waitpid(pid, 0)
    return res


# ------------------------------------------------------------------ native --
def native_run(mod, state, case, inputs):
    """One run against the uninstrumented code: ("ok"|"violation"|"skip", message, observed)."""
    state.restore()
    env = Env(False, inputs)
    _signal.setitimer(_signal.ITIMER_REAL, 12, 1)
    try:
        try:
            mod.run(env, case)
        finally:
            world.CUR = None
            _signal.setitimer(_signal.ITIMER_REAL, 0)
    except core.Hang as exc:
        return "violation", f"does not end @ {_where(exc)}", None
    except Skip:
        return "skip", "", None
    except core.Unsupported as exc:
        return "unmodelled", str(exc), None
    except CheckFailed as exc:
        return "violation", str(exc), None
    except Exception as exc:
        return "violation", f"{type(exc).__name__}: {_text(exc)} @ {_where(exc)}", None
    except SystemExit as exc:
        return "violation", f"SystemExit({exc.code}) @ {_where(exc)}", None
    return "ok", "", _reify_obs(env.observed, None)


def native_batch(prop, path):
    """Runs the records of a JSON file natively and writes verdicts to path + '.out'."""
    mod = prepare(prop, False)
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    state = loader.State()
    out = []
    for rec in data["records"]:
        case = _tuplify(rec["case"])
        # functools caches survive between records; clear them
        for m in list(sys.modules.values()):
            if getattr(m, "__file__", None) and str(m.__file__).startswith(loader.REPO):
                for v in list(vars(m).values()):
                    if hasattr(v, "cache_clear"):
                        v.cache_clear()
                    if isinstance(v, type):
                        for x in list(vars(v).values()):
                            if hasattr(x, "cache_clear"):
                                x.cache_clear()
        out.append(native_run(mod, state, case, rec["inputs"]))
    return data, out


def _tuplify(x):
    if isinstance(x, list):
        return tuple(_tuplify(y) for y in x)
    if isinstance(x, dict):
        return {k: _tuplify(v) for k, v in x.items()}
    return x


def run_native_subprocess(prop, records, name):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    path = os.path.join(EVID, "replay", name)
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "records": records}, f)
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check"), "--native", prop, path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240,
                           cwd=VERIF, text=True)
    except subprocess.TimeoutExpired:
        if len(records) > 1:
            half = len(records) // 2
            return run_native_subprocess(prop, records[:half], "a-" + name)[0] + \
                run_native_subprocess(prop, records[half:], "b-" + name)[0], path
        return [("timeout", "the native run does not end", None)], path
    if p.returncode != 0:
        raise RuntimeError(f"native run failed: {p.stdout[-2000:]}{p.stderr[-4000:]}")
    line = p.stdout.strip().splitlines()[-1]
    return json.loads(line), path


# -------------------------------------------------------------------- main --
def main(argv):
    if argv and argv[0] == "--native":
        _, out = native_batch(argv[1], argv[2])
        sys.stdout.write("\n" + json.dumps(out) + "\n")
        return 0
    if argv and argv[0] == "--replay":
        with open(argv[1], encoding="utf-8") as f:
            prop = json.load(f)["property"]
        data, out = native_batch(prop, argv[1])
        bad = 0
        for rec, (kind, msg, _) in zip(data["records"], out):
            print(kind, msg)
            print("   case:", rec["case"])
            for k, v in rec["inputs"].items():
                if isinstance(v, list) and v and all(isinstance(c, int) for c in v):
                    v = "".join(map(chr, v))
                print(f"   {k} = {v!r}")
            bad |= kind == "violation"
        return 1 if bad else 0
    prop = argv[0]
    opts = argv[1:]
    t0 = perf_counter()
    sys.path.insert(0, VERIF)
    mod = prepare(prop, True)
    tier = "thorough" if TIER == "thorough" else "quick"
    cases = list(mod.cases(tier))
    if "--case" in opts:
        want = opts[opts.index("--case") + 1]
        cases = [c for c in cases if want in repr(c)]
    budget = getattr(mod, "BUDGET", {}).get(tier, {"quick": 100, "thorough": 1500}[tier])
    if "--budget" in opts:
        budget = float(opts[opts.index("--budget") + 1])
    nworkers = min(int(os.environ.get("SX_JOBS", os.cpu_count() or 4)), 16)
    verbose = "-v" in opts

    confirmed = []
    refuted = []
    seen = set()
    known = load_known(prop)
    known_hits = collections.OrderedDict()

    def confirm(violations):
        """Replay new violations; True when a real, unlisted one was found."""
        todo = []
        for idx, msg, inputs in violations:
            key = (idx, msg)
            if key in seen or sum(1 for s in seen if s[1] == msg) > 3:
                continue
            seen.add(key)
            todo.append((idx, msg, inputs))
        if not todo:
            return bool(confirmed)
        recs = [{"case": cases[i], "inputs": inp, "message": m} for i, m, inp in todo]
        out, _ = run_native_subprocess(prop, recs, f"{prop}-candidates-{len(seen)}.json")
        for rec, (kind, msg, _) in zip(recs, out):
            if kind == "violation":
                rec["native"] = msg
                hit = next((k for k in known if k["match"] in rec["native"]), None)
                if hit is not None:
                    known_hits[hit["id"]] = (hit, rec)
                else:
                    confirmed.append(rec)
            else:
                refuted.append((rec, kind))
        return bool(confirmed) or len(refuted) > 60

    res = explore_all(mod, cases, budget, nworkers, confirm)
    confirm(res["violations"])

    # validation of the encoding: replay sampled paths natively and compare what they observed
    rng = random.Random(SEED)
    samples = res["samples"]
    rng.shuffle(samples)
    samples = samples[:400]
    mismatches = []
    validated = 0
    if samples or res["deferred"]:
        recs = [{"case": cases[i], "inputs": inp} for i, inp, _, _ in samples + res["deferred"]]
        out, _ = run_native_subprocess(prop, recs, f"{prop}-samples.json")
        for (i, inp, obs, labels), (kind, msg, nobs), rec in zip(samples + res["deferred"], out,
                                                               recs):
            if obs is None:
                if kind == "violation":
                    rec["native"] = msg
                    rec["message"] = msg
                    if not any(k["match"] in msg for k in known):
                        confirmed.append(rec)
                continue
            if kind == "violation":
                # The code itself fails on this input although the encoding did not show it.
                rec["native"] = msg
                rec["message"] = "shown by the native replay only"
                if not any(k["match"] in msg for k in known):
                    confirmed.append(rec)
            elif kind == "unmodelled":
                res["unsupported"][msg] += 1
            elif kind == "skip":
                mismatches.append((rec, "native run rejects an assumption"))
            elif nobs != obs:
                mismatches.append((rec, f"observed {_show(nobs)} natively, {_show(obs)} "
                                        "symbolically"))
            else:
                validated += 1

    missing = [x for x in getattr(mod, "LABELS", ()) if not res["labels"].get(x)]
    wall = perf_counter() - t0
    st = res["stats"]
    exhausted = not res["left"] and not res["unsupported"] and not res["incomplete"] and \
        not res["stopped"] and not refuted and not mismatches and not res["dead"]
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": int(st["paths"] + st["forks"]),
            "transitions": int(st["branches"]),
            "traces_validated_against_impl": validated,
            "samples": [_sample(cases[i], inp, labels) for i, inp, _, labels in samples[:6]],
            "exhaustive": bool(exhausted),
            "cases": len(cases),
            "cases_left_open": [repr(cases[i]) for i in res["left"]][:40],
            "paths": int(st["paths"]),
            "checks": int(st["checks"]),
            "checks_discharged": int(st["discharged"]),
            "queries": int(st["queries"]), "sat": int(st["sat"]), "unsat": int(st["unsat"]),
            "unknown": int(st["unknown"]),
            "solver_s": round(float(st["solver_s"]), 2),
            "labels_reached": dict(res["labels"]),
            "functions_encoded": sorted(res["funcs"]),
            "bounds": getattr(mod, "BOUNDS", ""),
            "unsupported": dict(res["unsupported"]),
            "inconclusive": dict(res["incomplete"]),
            "not_reproduced": [f"{rec['message']} {rec['case']!r}" for rec, _ in refuted][:20],
            "encoding_mismatches": [f"{why} {rec['case']!r}" for rec, why in mismatches][:20],
        },
        "assumptions": list(getattr(mod, "ASSUME", ())),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print(f"{prop} [{tier}] {len(cases)} cases, {st['paths']} paths, {st['queries']} queries "
          f"(solver {st['solver_s']:.1f}s), {st['checks']} checks, {validated} traces validated, "
          f"{'exhausted' if exhausted else 'NOT exhausted'}, {wall:.1f}s")
    if not exhausted:
        print(f"  left open: {len(res['left'])} cases; unsupported: "
              f"{dict(res['unsupported'].most_common(6))}; inconclusive: {dict(res['incomplete'])}")
        if verbose:
            for i in res["left"][:20]:
                print("   ", cases[i])
    if verbose:
        print("  labels:", dict(res["labels"]))
    for kid, (hit, rec) in known_hits.items():
        print(f"KNOWN-FINDING: property={prop} {hit['text']}")
    for k in known:
        if k["id"] not in known_hits and confirmed == [] and not res["stopped"]:
            print(f"note: known finding {k['id']} did not show in this run")
    if confirmed:
        path = os.path.join(EVID, "replay", f"{prop}-violation.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "records": confirmed}, f, indent=1)
        for rec in confirmed[:5]:
            print(f"  {rec['native']}\n    case {rec['case']!r}\n    inputs "
                  f"{_readable(rec['inputs'])}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    # What could not be decided is no alarm; SX_STRICT makes it one for the development.
    bad = 0
    for rec, kind in refuted[:5]:
        print(f"UNDECIDED: counterexample does not reproduce ({kind}): {rec['message']}\n"
              f"    case {rec['case']!r}\n    inputs {_readable(rec['inputs'])}")
        bad = 2
    for rec, why in mismatches[:5]:
        print(f"UNDECIDED: encoding disagrees with the code: {why}\n    case {rec['case']!r}\n"
              f"    inputs {_readable(rec['inputs'])}")
        bad = 2
    if res["dead"]:
        print(f"UNDECIDED: worker died on cases {[repr(cases[i]) for i in res['dead'] if i >= 0]}")
        bad = 2
    if missing and not bad and not res["left"] and "--case" not in opts:
        print(f"UNDECIDED: never reached: {missing}")
        bad = 2
    if not exhausted and not res["left"]:
        bad = 2
    return bad if os.environ.get("SX_STRICT") else 0


def _readable(inputs):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, list) and all(isinstance(c, int) for c in v):
            v = "".join(chr(c) for c in v)
        out[k] = v
    return out


def _sample(case, inputs, labels):
    return {"case": repr(case), "inputs": {k: repr(v) for k, v in _readable(inputs).items()},
            "labels": labels}


def _show(obs):
    def f(x):
        k, v = x
        if k == "l":
            return [f(y) for y in v]
        if k == "d":
            return [(f(a), f(b)) for a, b in v]
        if isinstance(v, list) and v and all(isinstance(c, int) and 0 <= c < 0x110000 for c in v):
            return "".join(map(chr, v))
        return v
    try:
        return repr(f(obs))[:600]
    except Exception:
        return repr(obs)[:600]


def load_known(prop):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]
