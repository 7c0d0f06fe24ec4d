"""Symbolic values and the path context."""
import os
import re
import subprocess
import tempfile
import time

import z3

PRINTABLE = "".join(chr(c) for c in range(0x20, 0x7f))
ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
ALPHABETS = {
    "alnum": ALNUM,
    "token": ALNUM + "-_",                    # base64url, PKCE, rndstr
    "b64": ALNUM + "+/=",
    "jwt": ALNUM + "-_.",
    "host": "abcdefghijklmnopqrstuvwxyz0123456789-.",
    "path": ALNUM + "-_./",
    "hex": "0123456789abcdef",
    "digits": "0123456789",
    "quoted": ALNUM + "_.-~%+",                # output alphabet of quote_plus
    "print": PRINTABLE,
    "nobar": PRINTABLE.replace("|", ""),
    "nospace": PRINTABLE.replace(" ", ""),
}


CASE_POSITIONS = 24


class Signal(BaseException):
    """Engine control flow; never caught by the code under test."""


class PathAbort(Signal):
    """Path infeasible, outside an assumption or outside a bound."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Unsupported(Signal):
    pass


class Inconclusive(Signal):
    pass


class Violated(Signal):
    def __init__(self, msg, model):
        super().__init__(msg)
        self.msg = msg
        self.model = model


def zstr(s):
    out = []
    for ch in s:
        o = ord(ch)
        if 0x20 <= o < 0x7f and ch != "\\":
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


_UNESC = re.compile(r"\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})")


def unz(v):
    return _UNESC.sub(lambda m: chr(int(m.group(1) or m.group(2) or m.group(3), 16)),
                      v.as_string())


_RE_CACHE = {}


def _range_re(alpha):
    r = _RE_CACHE.get(alpha)
    if r is None:
        cs = sorted(set(alpha))
        runs, i = [], 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and ord(cs[j + 1]) == ord(cs[j]) + 1:
                j += 1
            runs.append((cs[i], cs[j]))
            i = j + 1
        rs = [z3.Range(zstr(a), zstr(b)) if a != b else z3.Re(zstr(a)) for a, b in runs]
        r = rs[0] if len(rs) == 1 else z3.Union(*rs)
        _RE_CACHE[alpha] = r
    return r


def alpha_re(alpha):
    return z3.Star(_range_re(alpha))


# --------------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.cvc5 = 0
        self.branches = 0
        self.asserts = 0
        self.concretised = {}
        self.cuts = {}
        self.functions = set()
        self.models_used = set()

    def merge(self, o):
        for k in ("queries", "solver_s", "unknown", "cvc5", "branches", "asserts"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for d in ("concretised", "cuts"):
            for k, v in getattr(o, d).items():
                getattr(self, d)[k] = getattr(self, d).get(k, 0) + v
        self.functions |= o.functions
        self.models_used |= o.models_used


QUERY_MS = 4000
CVC5 = "/usr/bin/cvc5"


class Path:
    """One path: a decision prefix, then depth first."""

    def __init__(self, prefix, stats, opts=None):
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.stats = stats
        self.opts = opts or {}
        self.solver = z3.SolverFor("QF_SLIA") if self.opts.get("slia") else z3.Solver()
        self.solver.set("timeout", QUERY_MS)
        self.model = None
        self.names = {}
        self.inputs = {}
        self.order = []
        self.fresh_n = 0
        self.ufs = {}
        self.log = []
        self.reached = set()
        self.concretised = []
        self.trace = []
        self.clock_n = 0
        self.meta = {}

    # -- solver ---------------------------------------------------------------------------
    def add(self, expr):
        if expr is True:
            return
        if expr is False:
            raise PathAbort("false assumption")
        self.solver.add(expr)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(expr, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def check(self, *assump):
        st = self.stats
        st.queries += 1
        t = time.time()
        r = self.solver.check(*assump)
        if r == z3.unknown:
            r2 = self._cvc5(assump)
            if r2 is not None:
                r = r2
            else:
                st.unknown += 1
        st.solver_s += time.time() - t
        if os.environ.get("SYMX_SLOW") and time.time() - t > float(os.environ["SYMX_SLOW"]):
            s = z3.Solver()
            s.add(self.solver.assertions())
            for a in assump:
                s.add(a)
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False, prefix="slow-%.1f-%s-" % (time.time() - t, r)) as f:
                f.write(s.to_smt2())
        return r

    def _cvc5(self, assump):
        s = z3.Solver()
        s.add(self.solver.assertions())
        for a in assump:
            s.add(a)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run([CVC5, "--strings-exp", "--tlimit=10000", f.name],
                               capture_output=True, text=True, timeout=20)
            self.stats.cvc5 += 1
            out = p.stdout.strip().split("\n")[0]
            if "(error" in p.stdout:
                return None
            if out == "unsat":
                return z3.unsat
            if out == "sat":
                return z3.sat
        except (subprocess.TimeoutExpired, OSError):
            pass
        finally:
            os.unlink(f.name)
        return None

    def _sat(self, expr):
        """Is the path condition together with expr satisfiable?  unknown counts as yes."""
        if self.model is not None:
            v = self.model.eval(expr, model_completion=True)
            if z3.is_true(v):
                return True
        r = self.check(expr)
        if r == z3.sat:
            try:
                m = self.solver.model()
                if z3.is_true(m.eval(expr, model_completion=True)):
                    self._cand = m
            except z3.Z3Exception:
                pass
            return True
        return r != z3.unsat

    def branch(self, expr):
        if isinstance(expr, bool):
            return expr
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        i = len(self.decisions)
        self.stats.branches += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.solver.add(expr if d else z3.Not(expr))
            return d
        self._cand = None
        t = self._sat(expr)
        tm = self._cand if self._cand is not None else (self.model if t else None)
        if t:
            self._cand = None
            f = self._sat(z3.Not(expr))
        else:
            f = True
        if t and f:
            self.pending.append(self.decisions + [False])
        d = bool(t)
        self.decisions.append(d)
        if d and tm is not None and z3.is_true(tm.eval(expr, model_completion=True)):
            self.model = tm
            self.solver.add(expr)
        else:
            self.add(expr if d else z3.Not(expr))
        return d

    def fresh(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)

    def choose(self, name, n):
        """Fork over 0..n-1; recorded as an input so that the replay makes the same choice."""
        if n == 1:
            self.inputs.setdefault(name, ("int", z3.IntVal(0)))
            return 0
        v = z3.Int(name)
        self.inputs[name] = ("int", v)
        self.add(z3.And(v >= 0, v < n))
        for i in range(n - 1):
            if self.branch(v == i):
                return i
        return n - 1

    # -- models ---------------------------------------------------------------------------
    def get_model(self, *extra):
        """A model of the path condition, preferring short printable strings."""
        soft = []
        for name, (kind, e) in self.inputs.items():
            if kind == "str" and not z3.is_string_value(e):
                soft.append(z3.And(z3.InRe(e, alpha_re(PRINTABLE)), z3.Length(e) <= 64))
        tries = [soft] if soft else []
        tries.append([])
        for s in tries:
            r = self.check(*(list(extra) + s))
            if r == z3.sat:
                try:
                    return self.solver.model()
                except z3.Z3Exception:
                    continue
        return None

    def eval_inputs(self, m):
        out = {}
        for name, (kind, e) in self.inputs.items():
            v = m.eval(e, model_completion=True)
            if kind == "str":
                out[name] = unz(v) if z3.is_string_value(v) else str(v)
            elif kind == "int":
                out[name] = v.as_long()
            else:
                out[name] = z3.is_true(v)
        return out


CUR = None


def set_path(p):
    global CUR
    CUR = p


def cur():
    if CUR is None:
        raise RuntimeError("no path")
    return CUR


# --------------------------------------------------------------------------------------------
class Sym:
    __slots__ = ()
    _is_sym = True


def is_sym(x):
    return isinstance(x, Sym)


class SymBool(Sym):
    __slots__ = ("expr",)

    def __init__(self, expr):
        self.expr = expr

    def __bool__(self):
        return cur().branch(self.expr)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.expr == o.expr)
        if isinstance(o, bool):
            return mkbool(self.expr if o else z3.Not(self.expr))
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mkbool(z3.And(self.expr, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.expr, bexpr(o)))

    __ror__ = __or__

    def __deepcopy__(self, memo):
        return self


def bexpr(x):
    if isinstance(x, SymBool):
        return x.expr
    return z3.BoolVal(bool(x))


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.expr))
    return not x


def and_(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.expr)
        elif not x:
            return False
    return mkbool(z3.And(*es)) if es else True


def or_(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.expr)
        elif x:
            return True
    return mkbool(z3.Or(*es)) if es else False


class SymInt(Sym):
    __slots__ = ("expr",)

    def __init__(self, expr):
        self.expr = expr

    @staticmethod
    def _e(o):
        if isinstance(o, SymInt):
            return o.expr
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, float) and o == int(o):
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, f):
        e = self._e(o)
        if e is None:
            return NotImplemented
        return mkint(f(self.expr, e))

    def _cmp(self, o, f):
        e = self._e(o)
        if e is None:
            return NotImplemented
        return mkbool(z3.simplify(f(self.expr, e)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __neg__(self): return mkint(-self.expr)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.expr >= 0, self.expr, -self.expr))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        e = self._e(o)
        if e is None:
            return False
        return mkbool(z3.simplify(self.expr == e))

    def __ne__(self, o):
        return not_(self == o)

    def __bool__(self):
        return cur().branch(self.expr != 0)

    def __hash__(self):
        return 7

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __index__(self):
        return concretise(self, "index")

    __int__ = __index__

    def __repr__(self):
        return "<SymInt %s>" % self.expr


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


# --------------------------------------------------------------------------------------------
class Part:
    """A symbolic piece of a string.

    kind None: an unconstrained atom.  Otherwise an (injective) function of `payload`,
    e.g. ("json", obj), ("quote", SymStr), ("b64u", SymBytes), ("hash:sha256", ...)."""
    __slots__ = ("name", "expr", "alpha", "minlen", "length", "kind", "payload")

    def __init__(self, name, expr, alpha=None, minlen=0, length=None, kind=None, payload=None):
        self.name = name
        self.expr = expr
        self.alpha = alpha
        self.minlen = length if length is not None else minlen
        self.length = length
        self.kind = kind
        self.payload = payload

    def may_contain(self, ch):
        return self.alpha is None or ch in self.alpha

    def __repr__(self):
        return "<%s%s>" % (self.name, "" if self.kind is None else ":" + self.kind)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def new_part(base, alpha=None, minlen=0, length=None, kind=None, payload=None, name=None):
    p = cur()
    name = name or p.fresh(base)
    e = z3.String(name)
    if alpha is not None:
        p.add(z3.InRe(e, alpha_re(alpha)))
    if length is not None:
        p.add(z3.Length(e) == length)
    elif minlen:
        p.add(z3.Length(e) >= minlen)
    return Part(name, e, alpha, minlen, length, kind, payload)


def mk(parts):
    out = []
    for x in parts:
        if isinstance(x, SymStr):
            xs = x.parts
        else:
            xs = (x,)
        for y in xs:
            if isinstance(y, str):
                if not y:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + y
                    continue
            out.append(y)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(tuple(out))


def lift(s):
    if isinstance(s, SymStr):
        return s
    return SymStr((s,) if s else ())


def sexpr(s):
    if isinstance(s, str):
        return zstr(s)
    es = [zstr(p) if isinstance(p, str) else p.expr for p in s.parts]
    if not es:
        return zstr("")
    if len(es) == 1:
        return es[0]
    return z3.Concat(*es)


def _strip(a, b):
    """Strip the common literal / identical prefix and suffix of two part lists.
    Returns (a, b) or None if they cannot be equal."""
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return None
            a[0], b[0] = x[n:], y[n:]
            if not a[0]:
                a.pop(0)
            if not b[0]:
                b.pop(0)
        elif x is y:
            a.pop(0)
            b.pop(0)
        else:
            break
    while a and b:
        x, y = a[-1], b[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return None
            a[-1], b[-1] = x[:-n], y[:-n]
            if not a[-1]:
                a.pop()
            if not b[-1]:
                b.pop()
        elif x is y:
            a.pop()
            b.pop()
        else:
            break
    return a, b


def _minlen(ps):
    return sum(len(p) if isinstance(p, str) else p.minlen for p in ps)


def _maxlen(ps):
    n = 0
    for p in ps:
        if isinstance(p, str):
            n += len(p)
        elif p.length is not None:
            n += p.length
        else:
            return None
    return n


def _alpha(ps):
    """Set of characters ps can contain, or None."""
    s = set()
    for p in ps:
        if isinstance(p, str):
            s |= set(p)
        elif p.alpha is None:
            return None
        else:
            s |= set(p.alpha)
    return s


def str_eq(a, b):
    """Equality of two strings as bool or z3 expression."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    r = _strip(lift(a).parts, lift(b).parts)
    if r is None:
        return False
    x, y = r
    if not x and not y:
        return True
    for p, q in ((x, y), (y, x)):
        m = _maxlen(p)
        if m is not None and m < _minlen(q):
            return False
    for p, q in ((x, y), (y, x)):
        # a character p must contain and q cannot
        al = _alpha(q)
        if al is not None and any(isinstance(t, str) and any(c not in al for c in t) for t in p):
            return False
    if len(x) == 1 and len(y) == 1:
        p, q = x[0], y[0]
        if isinstance(p, Part) and isinstance(q, Part) and p.kind and p.kind == q.kind:
            return deep_eq_expr(p.payload, q.payload)
        if isinstance(p, str):
            p, q = q, p
        if isinstance(p, Part) and isinstance(q, str) and p.kind:
            d = _decode_literal(p.kind, q)
            if d is not _NODEC:
                if d is None:
                    return False
                return deep_eq_expr(p.payload, d)
    return z3.simplify(sexpr(mk(x)) == sexpr(mk(y)))


_NODEC = object()


def _decode_literal(kind, lit):
    """Inverse image of a literal under a known encoding: None when there is none."""
    if kind == "intstr":
        if re.fullmatch(r"0|-?[1-9][0-9]*", lit):
            return int(lit)
        return None
    return _NODEC


def deep_eq_expr(a, b):
    """Equality of two (possibly symbolic, nested) values as bool or z3 expression."""
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return z3.simplify(bexpr(a) == bexpr(b))
        return False
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        return str_eq(a, b)
    if isinstance(a, SymBytes) or isinstance(b, SymBytes):
        if not isinstance(a, (bytes, SymBytes)) or not isinstance(b, (bytes, SymBytes)):
            return False
        return str_eq(bytes_view(a), bytes_view(b))
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        x, y = SymInt._e(a), SymInt._e(b)
        if x is None or y is None:
            return False
        return z3.simplify(x == y)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return conj(deep_eq_expr(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        es = []
        for k, v in a.items():
            if k in b:
                es.append(deep_eq_expr(v, b[k]))
            elif is_sym(k) or any(is_sym(x) for x in b):
                es.append(disj(conj([deep_eq_expr(k, k2), deep_eq_expr(v, v2)])
                               for k2, v2 in b.items()))
            else:
                return False
        return conj(es)
    if is_sym(a) or is_sym(b):
        return False
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (
            any(is_sym(x) for x in a) or any(is_sym(x) for x in b)):
        if len(a) != len(b):
            return False
        return conj(disj(deep_eq_expr(x, y) for y in b) for x in a)
    return a == b


def conj(es):
    out = []
    for e in es:
        if e is False:
            return False
        if e is True:
            continue
        out.append(e)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def disj(es):
    out = []
    for e in es:
        if e is True:
            return True
        if e is False:
            continue
        out.append(e)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def func(kind, payload, alpha=None, minlen=0, length=None, facts=None, soft=False):
    """Injective uninterpreted function: payload -> string.

    soft: the alphabet and length are known to the engine only, the solver doesn't have to find
    such a string (it has more freedom than there is, so what it refutes doesn't exist).

    The result is a fresh string; for every pair of applications of the same kind the axiom
    x = y <=> f(x) = f(y) is added."""
    p = cur()
    apps = p.ufs.setdefault(kind, [])
    for part in apps:
        if deep_eq_expr(part.payload, payload) is True:
            return SymStr((part,))
    if soft:
        part = new_part(kind, kind=kind, payload=payload)
        part.alpha, part.length = alpha, length
        part.minlen = minlen if length is None else length
    else:
        part = new_part(kind, alpha, minlen, length, kind, payload)
    for o in apps:
        e = deep_eq_expr(o.payload, payload)
        p.add((o.expr == part.expr) == (e if not isinstance(e, bool) else z3.BoolVal(e)))
    apps.append(part)
    if facts:
        facts(part)
    return SymStr((part,))


SPLIT_BOUND = 4


class SymStr(Sym):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    # -- identity --------------------------------------------------------------------
    def __hash__(self):
        return hash(tuple(p if isinstance(p, str) else p.name for p in self.parts))

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkbool(str_eq(self, o))
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o): return self._ord(o, lambda a, b: a < b)
    def __le__(self, o): return self._ord(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._ord(o, lambda a, b: b < a)
    def __ge__(self, o): return self._ord(o, lambda a, b: b <= a)

    def _ord(self, o, f):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mkbool(z3.simplify(f(sexpr(self), sexpr(o))))

    def __bool__(self):
        if _minlen(self.parts) > 0:
            return True
        return cur().branch(z3.Length(sexpr(self)) > 0)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<SymStr %s>" % "".join(p if isinstance(p, str) else repr(p) for p in self.parts)

    # -- building --------------------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mk([self, o])

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mk([o, self])

    def __mul__(self, n):
        return mk([self] * n)

    def __mod__(self, args):
        from symx import rt
        return rt.sx_mod(self, args)

    def encode(self, encoding="utf-8", errors="strict"):
        return SymBytes(self, "utf-8")

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out.append(self)
            if not isinstance(x, (str, SymStr)):
                raise TypeError("sequence item %d: expected str instance" % i)
            out.append(x)
        return mk(out)

    def format(self, *a, **k):
        from symx import rt
        return rt.sym_format(self, a, k)

    # -- tests -----------------------------------------------------------------------
    def __len__(self):
        return concretise(self.length(), "len")

    def length(self):
        m = _maxlen(self.parts)
        if m is not None:
            return m
        return mkint(z3.Length(sexpr(self)))

    def startswith(self, pre, *rest):
        if isinstance(pre, tuple):
            return or_(*[self.startswith(p) for p in pre])
        if rest:
            return self.sub(rest[0], rest[1] if len(rest) > 1 else None).startswith(pre)
        r = _prefix(list(self.parts), list(lift(pre).parts))
        return r if isinstance(r, bool) else mkbool(z3.simplify(r))

    def endswith(self, suf, *rest):
        if rest:
            raise Unsupported("endswith with offsets")
        if isinstance(suf, tuple):
            return or_(*[self.endswith(p) for p in suf])
        if isinstance(suf, str):
            if not suf:
                return True
            last = self.parts[-1] if self.parts else ""
            if isinstance(last, str):
                if len(last) >= len(suf):
                    return last.endswith(suf)
                if not suf.endswith(last):
                    return False
                return SymStr(self.parts[:-1]).endswith(suf[:-len(last)])
            if last.minlen > 0 and not last.may_contain(suf[-1]):
                return False
        return mkbool(z3.simplify(z3.SuffixOf(sexpr(suf), sexpr(self))))

    def contains(self, sub):
        """z3-level containment, structurally decided where possible."""
        if isinstance(sub, str):
            if not sub:
                return True
            for p in self.parts:
                if isinstance(p, str) and sub in p:
                    return True
            al = _alpha(self.parts)
            if al is not None and any(c not in al for c in sub):
                return False
            if len(sub) == 1:
                ps = [p for p in self.parts if isinstance(p, Part) and p.may_contain(sub)]
                if not ps:
                    return False
                return mkbool(disj(z3.Contains(p.expr, zstr(sub)) for p in ps))
        else:
            for i in range(len(self.parts)):
                if self.parts[i:i + len(sub.parts)] == sub.parts:
                    return True
        return mkbool(z3.simplify(z3.Contains(sexpr(self), sexpr(sub))))

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def _is(self, alpha):
        al = _alpha(self.parts)
        if al is not None and al <= set(alpha) and _minlen(self.parts) > 0:
            return True
        return mkbool(z3.And(z3.Length(sexpr(self)) > 0,
                             z3.InRe(sexpr(self), alpha_re(alpha))))

    def isdigit(self):
        return self._is("0123456789")

    isdecimal = isnumeric = isdigit

    def isalnum(self):
        return self._is(ALNUM)

    def isalpha(self):
        return self._is(ALNUM[:52])

    def isascii(self):
        return True

    # -- splitting -------------------------------------------------------------------
    def _cut(self, sep):
        """(before, after) at the first occurrence of sep, or None when there is none."""
        if not isinstance(sep, str):
            if not isinstance(sep, SymStr):
                raise TypeError("must be str")
            raise Unsupported("symbolic separator")
        ps = list(self.parts)
        n = len(sep)
        partial = None      # index of a literal that may hold the start of an occurrence
        start = None
        for i, p in enumerate(ps):
            if isinstance(p, str):
                j = p.find(sep)
                if j >= 0:
                    return mk(ps[:i] + [p[:j]]), mk([p[j + n:]] + ps[i + 1:])
                partial = i if any(p.endswith(sep[:k]) for k in range(1, n)) else None
                continue
            if partial is not None:
                start = partial
                break
            if not p.may_contain(sep[0]):
                continue
            if n > 1:
                start = i
                break
            if not bool(mkbool(z3.Contains(p.expr, zstr(sep)))):
                continue
            a = new_part("cut", p.alpha.replace(sep, "") if p.alpha else None)
            b = new_part("rest", p.alpha)
            cur().add(p.expr == z3.Concat(a.expr, zstr(sep), b.expr))
            cur().add(z3.Not(z3.Contains(a.expr, zstr(sep))))
            return mk(ps[:i] + [a]), mk([b] + ps[i + 1:])
        if start is None:
            return None
        whole = sexpr(mk(ps[start:]))
        if not bool(mkbool(z3.simplify(z3.Contains(whole, zstr(sep))))):
            return None
        a = new_part("cut")
        b = new_part("rest")
        cur().add(whole == z3.Concat(a.expr, zstr(sep), b.expr))
        cur().add(z3.IndexOf(whole, zstr(sep), 0) == z3.Length(a.expr))
        return mk(ps[:start] + [a]), SymStr((b,))

    def _rcut(self, sep):
        """(before, after) at the last occurrence."""
        n, ps = len(sep), list(self.parts)
        for i in range(len(ps) - 1, -1, -1):
            p = ps[i]
            if isinstance(p, str):
                k = p.rfind(sep)
                if k >= 0:
                    return mk(ps[:i] + [p[:k]]), mk([p[k + n:]] + ps[i + 1:])
                continue
            if not any(p.may_contain(c) for c in sep):
                if n > 1 and p.minlen == 0 and cur().branch(p.expr == zstr("")):
                    return lift(mk(ps[:i] + ps[i + 1:]))._rcut(sep)
                continue
            if n == 1:
                if not bool(mkbool(z3.Contains(p.expr, zstr(sep)))):
                    continue
                a = new_part("rest", p.alpha)
                b = new_part("cut", p.alpha.replace(sep, "") if p.alpha else None)
                cur().add(p.expr == z3.Concat(a.expr, zstr(sep), b.expr))
                cur().add(z3.Not(z3.Contains(b.expr, zstr(sep))))
                return mk(ps[:i] + [a]), mk([b] + ps[i + 1:])
            j = i + 2 if i + 1 < len(ps) and isinstance(ps[i + 1], str) else i + 1
            whole = sexpr(mk(ps[:j]))
            if not bool(mkbool(z3.simplify(z3.Contains(whole, zstr(sep))))):
                return None
            al = _alpha(ps[:j])
            al = "".join(sorted(al)) if al is not None else None
            a, b = new_part("cut", al), new_part("rest", al)
            cur().add(whole == z3.Concat(a.expr, zstr(sep), b.expr))
            cur().add(z3.Not(z3.Contains(z3.Concat(zstr(sep[1:]), b.expr), zstr(sep))))
            return SymStr((a,)), mk([b] + ps[j:])
        return None

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            s = self.strip()
            out = [x for x in lift(s).split(" ", maxsplit)]
            return [x for x in out if x]
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            r = lift(rest)._cut(sep)
            if r is None:
                break
            out.append(r[0])
            rest = r[1]
            if len(out) > _litcount(self, sep) + SPLIT_BOUND:
                cut_bound("split")
        out.append(rest)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == 1:
            r = self._rcut(sep)
            return [self] if r is None else list(r)
        if maxsplit < 0 and (sep is None or len(sep) == 1):
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit")
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            r = lift(rest)._rcut(sep)
            if r is None:
                break
            out.append(r[1])
            rest = r[0]
            if len(out) > _litcount(self, sep) + SPLIT_BOUND:
                cut_bound("rsplit")
        return [rest] + out[::-1]

    def partition(self, sep):
        r = self._cut(sep)
        return (self, "", "") if r is None else (r[0], sep, r[1])

    def rpartition(self, sep):
        r = self._rcut(sep)
        return ("", "", self) if r is None else (r[0], sep, r[1])

    def find(self, sub, *a):
        if a:
            raise Unsupported("find with offset")
        r = self._cut(sub)
        if r is None:
            return -1
        return lift(r[0]).length()

    def rfind(self, sub, *a):
        if a:
            raise Unsupported("rfind with offset")
        r = self._rcut(sub)
        if r is None:
            return -1
        return lift(r[0]).length()

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r is -1 or (isinstance(r, int) and r == -1):
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        return len(self.split(sub)) - 1

    def replace(self, old, new, n=-1):
        if old == "=" and new == "" and len(self.parts) == 1 and \
                self.parts[0].kind in ("b64us", "b64s"):
            return self.rstrip("=")
        return lift(new).join(self.split(old, n))

    def splitlines(self, keep=False):
        return self.split("\n")

    # -- trimming --------------------------------------------------------------------
    def _trim(self, chars, left, right):
        ps = list(self.parts)
        for side in ([0] if left else []) + ([-1] if right else []):
            n = 0
            while ps:
                p = ps[side]
                if isinstance(p, str):
                    q = p.lstrip(chars) if side == 0 else p.rstrip(chars)
                    if q:
                        ps[side] = q
                        break
                    ps.pop(side)
                    continue
                if p.kind in ("b64us", "b64s") and side == -1 and chars == "=":
                    ps[side] = func("b64u" if p.kind == "b64us" else "b64n", p.payload,
                                    p.alpha.replace("=", "")).parts[0]
                    break
                if p.alpha is not None and not any(c in p.alpha for c in chars):
                    if p.minlen > 0:
                        break
                    if len(ps) == 1 or bool(mkbool(z3.Length(p.expr) > 0)):
                        break
                    ps.pop(side)
                    continue
                # may start/end with one of chars
                es = [z3.PrefixOf(zstr(c), p.expr) if side == 0 else z3.SuffixOf(zstr(c), p.expr)
                      for c in chars if p.may_contain(c)]
                if not bool(mkbool(z3.Or(*es))):
                    if p.minlen > 0 or len(ps) == 1 or bool(mkbool(z3.Length(p.expr) > 0)):
                        break
                    ps.pop(side)
                    continue
                n += 1
                if n > 3:
                    cut_bound("strip")
                q = new_part("trim", p.alpha)
                c = new_part("c", "".join(x for x in chars if p.may_contain(x)), length=1)
                cur().add(p.expr == (z3.Concat(c.expr, q.expr) if side == 0 else
                                     z3.Concat(q.expr, c.expr)))
                ps[side] = q
        return mk(ps)

    def strip(self, chars=None):
        return self._trim(chars or " \t\n\r", True, True)

    def lstrip(self, chars=None):
        return self._trim(chars or " \t\n\r", True, False)

    def rstrip(self, chars=None):
        return self._trim(chars or " \t\n\r", False, True)

    def removeprefix(self, pre):
        if self.startswith(pre):
            return self.sub(len(pre), None)
        return self

    def removesuffix(self, suf):
        if suf and self.endswith(suf):
            return self.sub(None, -len(suf))
        return self

    def _case(self, name, f):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(f(p))
            elif p.alpha is not None and all(f(c) == c for c in p.alpha):
                out.append(p)
            else:
                pp = cur()
                # f(x): idempotent; equal to x when x is already in normal form
                key = ("case", name, id(p))
                q = pp.meta.get(key)
                if q is None:
                    q = new_part(name, None if p.alpha is None else
                                 "".join(sorted({f(c) for c in p.alpha})), minlen=p.minlen,
                                 length=p.length)
                    pp.add(z3.Length(q.expr) == z3.Length(p.expr))
                    norm = "".join(c for c in (p.alpha or PRINTABLE) if f(c) == c)
                    pp.add(z3.Implies(z3.InRe(p.expr, alpha_re(norm)), q.expr == p.expr))
                    pp.add(z3.InRe(q.expr, alpha_re(norm)))
                    # character by character as far as texts usually go
                    lo, hi, d = (65, 90, 32) if name == "lower" else (97, 122, -32)
                    for i in range(min(p.length or CASE_POSITIONS, CASE_POSITIONS)):
                        c = z3.StrToCode(z3.SubString(p.expr, i, 1))
                        pp.add(z3.StrToCode(z3.SubString(q.expr, i, 1)) ==
                               z3.If(z3.And(c >= lo, c <= hi), c + d, c))
                    pp.meta[key] = q
                out.append(q)
        return mk(out)

    def lower(self): return self._case("lower", str.lower)
    def upper(self): return self._case("upper", str.upper)
    casefold = lower

    def title(self): raise Unsupported("title")

    # -- indexing --------------------------------------------------------------------
    def sub(self, lo, hi):
        lo = 0 if lo is None else lo
        ps = list(self.parts)
        if isinstance(lo, SymInt) or isinstance(hi, SymInt):
            return self._subsym(lo, hi)
        if hi is not None and hi < 0:
            k = -hi
            while ps and k:
                p = ps[-1]
                if isinstance(p, str):
                    n = min(k, len(p))
                    ps[-1] = p[:-n]
                    if not ps[-1]:
                        ps.pop()
                    k -= n
                elif p.length is not None and p.length <= k:
                    ps.pop()
                    k -= p.length
                else:
                    return mk(ps)._subsym(lo, -k)
            return lift(mk(ps)).sub(lo, None)
        if lo < 0 and hi is None:
            k, out = -lo, []
            while ps and k:
                p = ps.pop()
                if isinstance(p, str):
                    out.insert(0, p[-k:])
                    k -= min(k, len(p))
                elif p.length is not None and p.length <= k:
                    out.insert(0, p)
                    k -= p.length
                else:
                    return mk([SymStr(tuple(ps) + (p,))._subsym(-k, None)] + out)
            return mk(out)
        if lo < 0:
            return self._subsym(lo, hi)
        out, pos = [], 0
        for i, p in enumerate(ps):
            if hi is not None and pos >= hi:
                return mk(out)
            n = len(p) if isinstance(p, str) else p.length
            if isinstance(p, str):
                out.append(p[max(0, lo - pos): None if hi is None else hi - pos])
                pos += n
            elif pos >= lo and (hi is None or (n is not None and pos + n <= hi)):
                out.append(p)
                if n is None:
                    if hi is None:
                        out.extend(ps[i + 1:])
                        return mk(out)
                    return self._subsym(lo, hi)
                pos += n
            elif n is not None and pos + n <= lo:
                pos += n
            else:
                rest = mk(ps[i:])
                return mk(out + [lift(rest)._subsym(max(0, lo - pos),
                                                    None if hi is None else hi - pos)])
        return mk(out)

    def _subsym(self, lo, hi):
        e = sexpr(self)
        n = z3.Length(e)

        def norm(v):
            if isinstance(v, int) and v < 0:
                return z3.If(n + v < 0, z3.IntVal(0), n + v)
            x = SymInt._e(v)
            return z3.If(x > n, n, x)
        a = norm(lo or 0)
        b = n if hi is None else norm(hi)
        al = _alpha(self.parts)
        q = new_part("sub", "".join(sorted(al)) if al is not None else None)
        cur().add(q.expr == z3.SubString(e, a, z3.If(b > a, b - a, z3.IntVal(0))))
        return SymStr((q,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("stride")
            return self.sub(i.start, i.stop)
        if isinstance(i, SymInt):
            raise Unsupported("symbolic index")
        n = self.length()
        need = i + 1 if i >= 0 else -i
        if not (n >= need):
            raise IndexError("string index out of range")
        if i == -1:
            r = self.sub(-1, None)
        else:
            r = self.sub(i, i + 1)
        return r

    def __iter__(self):
        n = concretise_len(self)
        return iter([SymChar(self, i) for i in range(n)])


class SymChar(SymStr):
    """One character of a string, worked out when something depends on it alone."""
    __slots__ = ("src", "i", "_p")

    def __init__(self, src, i):
        self.src, self.i, self._p = src, i, None

    @property
    def parts(self):
        if self._p is None:
            self._p = lift(self.src.sub(self.i, self.i + 1)).parts
        return self._p


class SymOrd(SymInt):
    __slots__ = ("char", "_x")

    def __init__(self, char):
        self.char, self._x = char, None

    @property
    def expr(self):
        if self._x is None:
            self._x = z3.simplify(z3.StrToCode(sexpr(self.char)))
        return self._x


class SymDiff(SymInt):
    """A number that is zero iff pairs of characters are the same."""
    __slots__ = ("pairs", "_x")

    def __init__(self, pairs):
        self.pairs, self._x = pairs, None

    @property
    def expr(self):
        if self._x is None:
            r = z3.Int(cur().fresh("diff"))
            e = self.same()
            cur().add((r == 0) == (z3.BoolVal(e) if isinstance(e, bool) else e))
            cur().add(r >= 0)
            self._x = r
        return self._x

    def same(self):
        n = len(self.pairs)
        sides = []
        for side in zip(*self.pairs):
            if all(isinstance(c, str) for c in side):
                sides.append("".join(side))
            elif all(isinstance(c, SymChar) and c.src is side[0].src and c.i == i
                     for i, c in enumerate(side)) and side[0].src.length() == n:
                sides.append(side[0].src)
        if len(sides) == 2:
            return str_eq(*sides)
        return conj([str_eq(c, d) for c, d in self.pairs])

    def __eq__(self, o):
        if not isinstance(o, SymInt) and o == 0:
            return mkbool(self.same())
        return SymInt.__eq__(self, o)

    def __bool__(self):
        return not bool(mkbool(self.same()))

    def __hash__(self):
        return 7


def _litcount(s, sep):
    return sum(p.count(sep) for p in s.parts if isinstance(p, str))


def _prefix(ps, qs):
    """Does the string ps start with qs: bool or z3 expr."""
    while qs:
        if not ps:
            return z3.PrefixOf(sexpr(mk(qs)), zstr("")) if _minlen(qs) == 0 else False
        x, y = ps[0], qs[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            ps[0], qs[0] = x[n:], y[n:]
            if not ps[0]:
                ps.pop(0)
            if not qs[0]:
                qs.pop(0)
        elif x is y:
            ps.pop(0)
            qs.pop(0)
        else:
            if isinstance(x, Part) and isinstance(y, str) and x.minlen > 0 and \
                    not x.may_contain(y[0]):
                return False
            return z3.PrefixOf(sexpr(mk(qs)), sexpr(mk(ps)))
    return True


def cut_bound(what):
    s = cur().stats
    s.cuts[what] = s.cuts.get(what, 0) + 1
    raise PathAbort("bound:" + what)


ITER_BOUND = 8


def concretise_len(s):
    n = s.length()
    if isinstance(n, int):
        return n
    for k in range(ITER_BOUND + 1):
        if n == k:
            return k
    cut_bound("iterate")


# --------------------------------------------------------------------------------------------
class SymBytes(Sym):
    """bytes whose content is `view` under `enc`: 'utf-8' text or a 'raw' digest."""
    __slots__ = ("view", "enc")

    def __init__(self, view, enc="utf-8"):
        self.view = view
        self.enc = enc

    def __hash__(self):
        return hash(self.view)

    def __eq__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            return mkbool(str_eq(bytes_view(self), bytes_view(o)))
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __bool__(self):
        return bool(self.view)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<SymBytes %r>" % (self.view,)

    def __add__(self, o):
        if not isinstance(o, (bytes, SymBytes)):
            return NotImplemented
        return SymBytes(mk([bytes_view(self), bytes_view(o)]), self.enc)

    def __radd__(self, o):
        if not isinstance(o, (bytes, SymBytes)):
            return NotImplemented
        return SymBytes(mk([bytes_view(o), bytes_view(self)]), self.enc)

    def decode(self, encoding="utf-8", errors="strict"):
        if self.enc == "raw":
            raise Unsupported("decode of a digest")
        return self.view

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out.append(bytes_view(self))
            if not isinstance(x, (bytes, SymBytes)):
                raise TypeError("sequence item %d: expected a bytes-like object" % i)
            out.append(bytes_view(x))
        return wrapb(mk(out))

    def split(self, sep=None, maxsplit=-1):
        return [wrapb(x) for x in lift(self.view).split(
            None if sep is None else bytes_view(sep), maxsplit)]

    def startswith(self, x):
        return lift(self.view).startswith(bytes_view(x))

    def count(self, x):
        return lift(self.view).count(bytes_view(x))

    def partition(self, x):
        return tuple(wrapb(y) for y in lift(self.view).partition(bytes_view(x)))

    def replace(self, a, b):
        return wrapb(lift(self.view).replace(bytes_view(a), bytes_view(b)))

    def lower(self):
        return wrapb(lift(self.view).lower())

    def endswith(self, x):
        return lift(self.view).endswith(bytes_view(x))

    def strip(self, c=None):
        return wrapb(lift(self.view).strip(None if c is None else bytes_view(c)))

    def rstrip(self, c=None):
        return wrapb(lift(self.view).rstrip(None if c is None else bytes_view(c)))

    def hex(self):
        n = self.length()
        return func("hexof", self.view, ALPHABETS["hex"],
                    length=2 * n if isinstance(n, int) else None, soft=True)

    def length(self):
        return lift(self.view).length()

    def __len__(self):
        return concretise(self.length(), "len")

    def __iter__(self):
        raise Unsupported("iterating symbolic bytes")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return wrapb(lift(self.view)[i])
        raise Unsupported("byte index")


def wrapb(v):
    if isinstance(v, str):
        return v.encode("latin-1" if all(ord(c) < 128 for c in v) else "utf-8")
    return SymBytes(v)


def bytes_view(b):
    if isinstance(b, SymBytes):
        return b.view
    try:
        return bytes(b).decode("utf-8")
    except UnicodeDecodeError:
        return bytes(b).decode("latin-1")


# --------------------------------------------------------------------------------------------
def concretise(v, where):
    """Last resort: commit the path to the value the current model gives v (recorded; the
    claim no longer covers the other values of v on this path)."""
    p = cur()
    if isinstance(v, (int, str, bytes)) and not is_sym(v):
        return v
    st = p.stats
    st.concretised[where] = st.concretised.get(where, 0) + 1
    p.concretised.append(where)
    m = p.get_model()
    if m is None:
        raise Inconclusive("no model while concretising at " + where)
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, SymInt):
        val = m.eval(v.expr, model_completion=True).as_long()
        # let the complementary values be explored as a separate path
        if p.branch(v.expr == val):
            return val
        return concretise(v, where) if len(p.concretised) < 12 else _abort(where)
    if isinstance(v, SymBytes):
        return bytes_of(concretise(v.view, where))
    if isinstance(v, SymStr):
        out = []
        for part in v.parts:
            if isinstance(part, str):
                out.append(part)
                continue
            if part.kind == "json":
                import json
                out.append(json.dumps(concretise_deep(part.payload, where)))
                continue
            x = unz(m.eval(part.expr, model_completion=True))
            p.add(part.expr == zstr(x))
            out.append(x)
        return "".join(out)
    raise Unsupported("concretise %r" % type(v))


def bytes_of(s):
    return s.encode()


def _abort(where):
    raise PathAbort("concretisation:" + where)


def concretise_deep(o, where):
    if is_sym(o):
        return concretise(o, where)
    if isinstance(o, list):
        return [concretise_deep(x, where) for x in o]
    if type(o) is tuple:
        return tuple(concretise_deep(x, where) for x in o)
    if isinstance(o, tuple):
        return type(o)(*[concretise_deep(x, where) for x in o])
    if type(o) is dict:
        return {concretise_deep(k, where): concretise_deep(v, where) for k, v in o.items()}
    if isinstance(o, (set, frozenset)):
        return type(o)(concretise_deep(x, where) for x in o)
    return o


def has_sym(o, depth=5):
    if isinstance(o, Sym):
        return True
    if depth <= 0:
        return False
    t = type(o)
    if t in (str, int, bytes, bool, float) or o is None:
        return False
    if isinstance(o, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth - 1) for x in o)
    if isinstance(o, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in o.items())
    return False
