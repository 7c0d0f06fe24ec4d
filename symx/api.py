"""What harnesses see.  The same harness runs symbolically (SymEnv) and, for replay and for
validation of the encoding, on the unmodified code with concrete values (ConcEnv)."""
REGISTRY = {}


class Spec:
    def __init__(self, fn, prop, bounds, thorough_bounds, witness, quick):
        self.fn = fn
        self.prop = prop
        self.bounds = bounds
        self.thorough_bounds = thorough_bounds
        self.witness = witness
        self.quick = quick
        self.name = fn.__name__


def harness(prop, witness=(), bounds=None, thorough=None, quick=True):
    """prop: property id.  witness: labels some path must reach (vacuity guard).
    bounds / thorough: structural bounds handed to the harness as env.b."""
    def deco(fn):
        b = dict(bounds or {})
        REGISTRY.setdefault(prop, []).append(
            Spec(fn, prop, b, dict(b, **(thorough or {})), tuple(witness), quick))
        return fn
    return deco


class CheckFailed(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class AssumeFailed(BaseException):
    pass


class ConcEnv:
    """Concrete run on the real code with the values of a solver model."""
    symbolic = False

    def __init__(self, values, bounds):
        self.v = values
        self.b = bounds
        self.notes = []
        self.reached = set()
        self._now = None
        self._rnd = 0
        self.missing = []

    def _get(self, name, default):
        if name in self.v:
            return self.v[name]
        self.missing.append(name)
        return default

    def str(self, name, alpha=None, min=0, length=None, max=None):
        d = "x" * (length or min)
        return self._get(name, d)

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo or 0)

    def flag(self, name):
        return bool(self._get(name, 0))

    def pick(self, name, options):
        i = self._get(name, 0)
        options = list(options)
        return options[i] if i < len(options) else options[0]

    def maybe(self, d, key, val, name=None):
        if self.flag(name or ("has_" + key)):
            d[key] = val() if callable(val) else val

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg):
        if not cond:
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def reach(self, label):
        self.reached.add(label)

    def note(self, label, value):
        self.notes.append([label, value])

    def eq(self, a, b):
        return a == b

    def not_(self, a):
        return not a

    def and_(self, *a):
        return all(a)

    def or_(self, *a):
        return any(a)

    def implies(self, a, b):
        return (not a) or b

    def set_time(self, t):
        self._now = t

    def time_value(self):
        if self._now is None:
            self._now = self._get("now", 1700000000)
        return self._now

    def rnd(self, size=16, alphabet=""):
        from symx.models_names import rnd_text
        i = self._rnd
        self._rnd += 1
        return rnd_text(i, size)

    def value(self, x):
        return x


def make_sym_env():
    from symx import core
    from symx.core import SymInt, SymStr, Violated, cur, deep_eq_expr, mkbool
    import z3

    class SymEnv:
        symbolic = True

        def __init__(self, path, bounds):
            self.p = path
            self.b = bounds
            path.env = self
            self._now = None

        def str(self, name, alpha=None, min=0, length=None, max=None):
            p = self.p
            if name in p.inputs:
                raise RuntimeError("duplicate input " + name)
            al = core.ALPHABETS.get(alpha, alpha)
            if al is not None and p.meta.get("rnd_n") and al not in (
                    core.ALPHABETS["hex"], core.ALPHABETS["digits"]) and "~" not in al:
                al += "~"  # values chosen later may be the ones generated before
            part = core.new_part(name, al, min, length, name=name)
            if max is not None:
                p.add(z3.Length(part.expr) <= max)
            p.inputs[name] = ("str", part.expr)
            if al is not None:
                p.meta.setdefault("alpha", {})[name] = al
            return SymStr((part,))

        def int(self, name, lo=None, hi=None):
            p = self.p
            v = z3.Int(name)
            p.inputs[name] = ("int", v)
            if lo is not None:
                p.add(v >= core.SymInt._e(lo))
            if hi is not None:
                p.add(v <= core.SymInt._e(hi))
            return SymInt(v)

        def flag(self, name):
            return bool(self.p.choose(name, 2))

        def pick(self, name, options):
            options = list(options)
            return options[self.p.choose(name, len(options))]

        def maybe(self, d, key, val, name=None):
            if self.flag(name or ("has_" + key)):
                d[key] = val() if callable(val) else val

        def assume(self, cond):
            e = cond.expr if isinstance(cond, core.SymBool) else bool(cond)
            if e is True:
                return
            if e is False:
                raise core.PathAbort("assume")
            self.p.add(e)
            if len(self.p.decisions) >= len(self.p.prefix):
                if self.p.check() == z3.unsat:
                    raise core.PathAbort("assume")

        def check(self, cond, msg):
            p = self.p
            p.stats.asserts += 1
            if isinstance(cond, (core.SymInt, core.SymStr, core.SymBytes)):
                cond = bool(cond)
            e = cond.expr if isinstance(cond, core.SymBool) else bool(cond)
            if e is True:
                return
            if e is False:
                m = p.get_model()
                if m is None:
                    r = p.check()
                    if r == z3.unsat:
                        raise core.PathAbort("infeasible")
                    raise core.Inconclusive("no model for a failed assertion: " + msg)
                raise Violated(msg, p.eval_inputs(m))
            r = p.check(z3.Not(e))
            if r == z3.unsat:
                p.add(e)
                return
            if r == z3.unknown:
                raise core.Inconclusive("assertion undecided: " + msg)
            m = p.get_model(z3.Not(e))
            if m is None:
                raise core.Inconclusive("no model for: " + msg)
            raise Violated(msg, p.eval_inputs(m))

        def fail(self, msg):
            self.check(False, msg)

        def reach(self, label):
            self.p.reached.add(label)

        def note(self, label, value):
            self.p.log.append((label, value))

        def eq(self, a, b):
            return mkbool(deep_eq_expr(a, b))

        not_ = staticmethod(core.not_)
        and_ = staticmethod(core.and_)
        or_ = staticmethod(core.or_)

        def implies(self, a, b):
            return core.or_(core.not_(a), b)

        def set_time(self, t):
            self._now = t

        def time_value(self):
            if self._now is None:
                self._now = self.int("now", 1600000000, 1900000000)
            return self._now

        def value(self, x):
            return core.concretise_deep(x, "env.value")

    return SymEnv
