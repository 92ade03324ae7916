"""Path explorer: runs a harness again and again, one run per path, asking z3 at every
branch on a symbolic condition which sides are feasible."""

from time import perf_counter
import sys
import z3

z3.set_param("model.completion", True)
z3.z3.Z3_DEBUG = False      # argument checks of the bindings; they cost a third of the time
_z3core = sys.modules["z3.z3core"]


class _lib:
    """The library functions behind the bindings."""


for _n in ("inc_ref", "dec_ref", "get_ast_kind", "get_app_decl", "get_decl_kind", "get_sort",
           "get_sort_kind", "get_ast_id", "is_eq_ast", "is_eq_sort", "mk_eq", "mk_not", "mk_and",
           "mk_or", "mk_ge", "mk_le", "get_ast_hash", "solver_inc_ref", "model_inc_ref"):
    setattr(_lib, "Z3_" + _n, staticmethod(getattr(_z3core, "Z3_" + _n).__defaults__[0].f))
# These cannot fail on well-formed terms; skip the error query after each call.
for _n in ("inc_ref", "dec_ref", "get_ast_kind", "get_app_decl", "get_decl_kind", "get_sort",
           "get_sort_kind", "get_ast_id", "is_eq_ast", "is_eq_sort", "mk_eq", "mk_not",
           "get_ast_hash", "solver_inc_ref", "model_inc_ref"):
    setattr(z3.z3, "Z3_" + _n, getattr(_lib, "Z3_" + _n))
_ctx = z3.main_ctx()
_ref = _ctx.ref()
_Ast = z3.z3types.Ast
_get_id = _lib.Z3_get_ast_id
_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)
TRUE_ID = _TRUE.get_id()
FALSE_ID = _FALSE.get_id()
_BoolRef = z3.BoolRef


def ident(e):
    return _get_id(_ref, e.ast)


def is_true(e):
    return _get_id(_ref, e.ast) == TRUE_ID


def is_false(e):
    return _get_id(_ref, e.ast) == FALSE_ID


def mk_not(e):
    r = _BoolRef(_lib.Z3_mk_not(_ref, e.ast), _ctx)
    r.sx_neg = e
    return r


def mk_and(xs):
    n = len(xs)
    return _BoolRef(_lib.Z3_mk_and(_ref, n, (_Ast * n)(*[x.ast for x in xs])), _ctx)


def mk_or(xs):
    n = len(xs)
    return _BoolRef(_lib.Z3_mk_or(_ref, n, (_Ast * n)(*[x.ast for x in xs])), _ctx)


_ints = {}


def int_ast(n):
    v = _ints.get(n)
    if v is None:
        v = _ints[n] = z3.IntVal(n)
    return v.ast


def int_eq(e, n):
    return _BoolRef(_lib.Z3_mk_eq(_ref, e.ast, int_ast(n)), _ctx)


def int_range(e, a, b):
    return mk_and((_BoolRef(_lib.Z3_mk_ge(_ref, e.ast, int_ast(a)), _ctx),
                   _BoolRef(_lib.Z3_mk_le(_ref, e.ast, int_ast(b)), _ctx)))


class Abort(BaseException):
    """The current path is infeasible or deliberately ended."""


class Unsupported(BaseException):
    """The code left what the engine can encode."""


class Fake:
    """Base of stand-ins: what they do not have is beyond the model, not an error of the code."""

    def __getattr__(self, name):
        if name[:1] == "_":
            raise AttributeError(name)
        raise Unsupported(f"{type(self).__name__}.{name}")


class Hang(BaseException):
    """A path, or a native run, that does not end."""


class Budget(BaseException):
    """Out of time."""


class Violation(Exception):
    pass


ENGINE = None          # the active Engine while a harness runs symbolically


def eng():
    if ENGINE is None:
        raise RuntimeError("symbolic value used outside of a symbolic run")
    return ENGINE


class Stats:
    FIELDS = ("paths", "branches", "forks", "queries", "sat", "unsat", "unknown", "checks",
              "discharged", "concretizations")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        return d


class Engine:
    def __init__(self, deadline=None, timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.stats = Stats()
        self.deadline = deadline
        self.pending = []           # [(prefix, model)]
        self.violations = []        # [(message, inputs)]
        self.incomplete = []        # reasons
        self.labels = {}
        self.dump = None            # optional callback(smt2 text, answer)

    # -- one path ----------------------------------------------------------
    def start(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.model = model
        self.known = {}
        self.inputs = {}
        self.keep = []
        self.fresh = 0
        self.path_labels = []
        self.solver.push()

    def finish(self):
        self.solver.pop()

    def tick(self):
        if self.deadline is not None and perf_counter() > self.deadline:
            raise Budget()

    def query(self, *assumptions):
        t = perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        if self.dump is not None and r != z3.unknown:
            self.dump(self, assumptions, r)
        return r

    def add(self, e):
        self.solver.add(e)

    def get_model(self):
        if self.model is None:
            r = self.query()
            if r == z3.unsat:
                raise Abort()
            if r != z3.sat:
                self.incomplete.append("unknown path condition")
                raise Abort()
            self.model = self.solver.model()
        return self.model

    def evaluate(self, e):
        return self.get_model().eval(e, model_completion=True)

    def branch(self, e):
        """Decide the z3 Bool `e` on this path."""
        if e is True or e is False:
            return e
        if is_true(e):
            return True
        if is_false(e):
            return False
        neg = getattr(e, "sx_neg", None)
        if neg is not None:
            return not self.branch(neg)
        key = _get_id(_ref, e.ast)
        hit = self.known.get(key)
        if hit is not None:
            return hit[1]
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            value, forced = self.prefix[self.pos][:2]
            self.pos += 1
            self.decisions.append((value, forced))
            if not forced:
                self.add(e if value else mk_not(e))
        else:
            self.tick()
            value = is_true(self.evaluate(e))
            other = mk_not(e) if value else e
            r = self.query(other)
            if r == z3.unsat:
                self.decisions.append((value, True))
            else:
                if r == z3.sat:
                    model = self.solver.model()
                else:
                    model = None
                    self.incomplete.append("unknown branch")
                self.stats.forks += 1
                self.pending.append((self.decisions + [(not value, False)], model))
                self.decisions.append((value, False))
                self.add(e if value else mk_not(e))
        self.known[key] = (e, value)
        return value

    def concretize(self, e):
        """Fork over every feasible value of the Int expression `e`."""
        if isinstance(e, int):
            return e
        if z3.is_int_value(e):
            return e.as_long()
        self.stats.concretizations += 1
        while True:
            if self.pos < len(self.prefix):
                value, forced, cand = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append((value, forced, cand))
                if not forced:
                    self.add(e == cand if value else e != cand)
                if value:
                    return cand
                continue
            self.tick()
            cand = self.evaluate(e).as_long()
            r = self.query(e != cand)
            if r == z3.unsat:
                self.decisions.append((True, True, cand))
                return cand
            if r == z3.sat:
                model = self.solver.model()
            else:
                model = None
                self.incomplete.append("unknown concretization")
            self.stats.forks += 1
            self.pending.append((self.decisions + [(False, False, cand)], model))
            self.decisions.append((True, False, cand))
            self.add(e == cand)
            return cand

    def assume(self, e):
        if e is True:
            return
        if e is False or is_false(e):
            raise Abort()
        if is_true(e):
            return
        self.add(e)
        if self.model is not None and not is_true(self.evaluate(e)):
            self.model = None
        if self.pos >= len(self.prefix):
            self.get_model()

    def concrete_inputs(self, model=None):
        from .values import reify
        model = model or self.get_model()
        return {k: reify(v, model) for k, v in self.inputs.items()}

    def violation(self, message, model=None):
        self.violations.append((message, self.concrete_inputs(model)))

    def check(self, e, message):
        """Assert `e` for every value on this path."""
        self.stats.checks += 1
        if e is True:
            self.stats.discharged += 1
            return
        if e is not False and is_true(e):
            self.stats.discharged += 1
            return
        if e is False or is_false(e):
            self.violation(message)
            raise Abort()
        if self.pos < len(self.prefix):
            # Already checked when the prefix was first explored.
            self.add(e)
            if self.model is not None and not is_true(self.evaluate(e)):
                self.model = None
            return
        r = self.query(mk_not(e))
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.sat:
            self.violation(message, self.solver.model())
        else:
            self.incomplete.append("unknown check")
        self.assume(e)

    def reach(self, label):
        self.path_labels.append(label)
        self.labels[label] = self.labels.get(label, 0) + 1
