"""Runtime of the instrumented code: operation hooks and models of C/foreign functions."""
import _collections_abc
import base64
import binascii
import builtins
import collections
import copy as _copy
import functools
import hashlib
import hmac as _hmac
import json
import logging
import operator
import os
import re
import secrets
import string
import sys
import time
import types
import urllib.parse as up
import weakref

import z3

from symx import core
from symx.core import (Sym, SymBool, SymBytes, SymInt, SymStr, Unsupported, ALPHABETS, and_,
                       bytes_view, cur, deep_eq_expr, func, has_sym, is_sym, lift, mk, mkbool,
                       not_, or_, sexpr, wrapb, zstr)

HOOKS = {}
MODELS = {}          # id(callable) -> (callable, model)
CLASS_MODELS = {}
ENGINE_MODULES = ("symx",)


def hook(f):
    HOOKS["_" + f.__name__] = f
    return f


METHOD_MODELS = {}        # (class, name of a builtin class method): model


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[id(f)] = (f, m)
        return m
    return deco


# ---------------------------------------------------------------------------------------------
# hash containers with symbolic keys
def find_key(d, k):
    """The key of d equal to k on this path (forks), or None in a 1-tuple."""
    ks = is_sym(k)
    if not ks:
        try:
            if k in d:
                return (k,)
        except TypeError:
            raise
        if not isinstance(k, str):
            return None
    elif k in d:                 # structurally identical
        return (k,)
    for c in list(d):
        if is_sym(c) or (ks and isinstance(c, (str, int, bytes))):
            e = deep_eq_expr(c, k)
            if e is False:
                continue
            if e is True or cur().branch(e):
                return (c,)
    return None


def _dict_has_sym(d):
    for k in d:
        if isinstance(k, Sym):
            return True
    return False


def _needs(d, k):
    return isinstance(k, Sym) or (isinstance(k, str) and _dict_has_sym(d)) or \
        (type(k) is tuple and has_sym(k))


def plain_dict(d):
    """dict (sub)class whose item access is the C one."""
    return isinstance(d, dict) and type(d).__getitem__ is dict.__getitem__


@hook
def sx_getitem(o, k):
    t = type(o)
    if t is dict or (isinstance(o, dict) and t.__getitem__ is dict.__getitem__):
        if _needs(o, k):
            f = find_key(o, k)
            if f is None:
                if hasattr(t, "__missing__"):
                    return o[k]
                raise KeyError(k)
            return dict.__getitem__(o, f[0])
        return o[k]
    if isinstance(k, SymInt) and isinstance(o, (list, tuple, str)):
        for i in range(len(o)):
            if k == i:
                return o[i]
        raise IndexError
    if isinstance(k, slice) and isinstance(o, str) and has_sym((k.start, k.stop)):
        return SymStr((o,))[k] if o else ""
    return o[k]


@hook
def sx_slice(a, b, c):
    return slice(a, b, c)


@hook
def sx_key(o, k):
    if isinstance(o, dict) and _needs(o, k):
        f = find_key(o, k)
        if f is not None:
            return f[0]
    return k


@hook
def sx_in(x, c):
    t = type(c)
    if isinstance(c, (dict, set, frozenset)) and t.__contains__ in (
            dict.__contains__, set.__contains__, frozenset.__contains__):
        if isinstance(x, Sym) or (isinstance(x, str) and _dict_has_sym(c)):
            return find_key(c, x) is not None
        return x in c
    if issubclass(t, SymStr):
        if not isinstance(x, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand")
        return bool(c.contains(x))
    if t is SymBytes:
        return bool(lift(c.view).contains(bytes_view(x)))
    if t is str and isinstance(x, SymStr):
        return bool(mkbool(z3.simplify(z3.Contains(zstr(c), sexpr(x)))))
    if isinstance(c, (type({}.keys()), type({}.items()))):
        if isinstance(c, type({}.keys())):
            if is_sym(x) or any(is_sym(k) for k in c):
                return any(deep_eq(x, k) for k in c)
        return any(x == y for y in c) if has_sym(x) or has_sym(list(c)) else x in c
    if isinstance(c, (list, tuple)) and is_sym(x):
        # one query instead of one per element
        es = [deep_eq_expr(x, y) for y in c]
        e = core.disj(es)
        return e if isinstance(e, bool) else cur().branch(e)
    return x in c


def deep_eq(a, b):
    e = deep_eq_expr(a, b)
    return e if isinstance(e, bool) else cur().branch(e)


@hook
def sx_dict(items):
    d = {}
    for k, v in items:
        if k is sx_star:
            if hasattr(v, "keys"):
                for k2 in v.keys():
                    d[sx_key(d, k2)] = v[k2]
            else:
                raise TypeError("not a mapping")
        else:
            d[sx_key(d, k)] = v
    return d


class _Star:
    pass


sx_star = _Star()
HOOKS["_sx_star"] = sx_star
HOOKS["_sx_Exception"] = Exception


@hook
def sx_set(items):
    s = set()
    for x in items:
        if _needs(s, x):
            if find_key(s, x) is None:
                s.add(x)
        else:
            s.add(x)
    return s


def _setish(x):
    return isinstance(x, (set, frozenset, type({}.keys())))


def set_op(name, a, others):
    if isinstance(a, (set, frozenset)) and len(others) == 1 and isinstance(others[0], SymStr) and \
            all(isinstance(x, str) and len(x) == 1 for x in a):
        b, name = others[0], name.replace("_update", "")
        if name in ("intersection", "difference", "isdisjoint"):
            hit = set(x for x in sorted(a) if bool(b.contains(x)))
            return {"intersection": hit, "difference": set(a) - hit, "isdisjoint": not hit}[name]
        if name == "issubset":
            return all(bool(b.contains(x)) for x in sorted(a))
        if name == "issuperset":
            return sx_quant(all, b, lambda x: x in a)
    out = sx_set(list(a))
    for b in others:
        b = sx_set(list(b))
        if name in ("union", "update"):
            out = sx_set(list(out) + list(b))
        elif name in ("intersection", "intersection_update"):
            out = sx_set([x for x in out if find_key(b, x) is not None])
        elif name in ("difference", "difference_update"):
            out = sx_set([x for x in out if find_key(b, x) is None])
        elif name == "symmetric_difference":
            out = sx_set([x for x in out if find_key(b, x) is None] +
                         [x for x in b if find_key(out, x) is None])
        elif name == "issubset":
            return all(find_key(b, x) is not None for x in out)
        elif name == "issuperset":
            return all(find_key(out, x) is not None for x in b)
        elif name == "isdisjoint":
            return all(find_key(b, x) is None for x in out)
    return out


@hook
def sx_quant(f, xs, cond):
    """any / all of the elements of xs."""
    if not isinstance(xs, SymStr) or f not in (any, all) or core._alpha(xs.parts) is None:
        return f(cond(x) for x in xs)
    if all(isinstance(p, str) for p in xs.parts):
        return f(cond(x) for x in str(xs))
    # every character is one of an alphabet
    al = sorted(core._alpha(xs.parts))
    bad = [c for c in al if bool(cond(c)) == (f is any)]
    if not bad:
        return f is all
    if len(bad) == len(al):
        e = sexpr(xs) == z3.StringVal("")
    elif len(bad) <= 4:
        hits = [x.expr if isinstance(x, core.SymBool) else z3.BoolVal(bool(x))
                for x in (xs.contains(c) for c in bad)]
        e = z3.Not(z3.Or(hits))
    else:
        e = z3.InRe(sexpr(xs), core.alpha_re("".join(c for c in al if c not in bad)))
    return cur().branch(z3.simplify(e)) == (f is all)


@hook
def sx_iop(op, a, b):
    """Augmented assignment."""
    if isinstance(a, set) and _setish(b) and (has_sym(list(a)) or has_sym(list(b))):
        r = {"|": sx_or, "&": sx_and, "-": sx_sub, "^": sx_xor}[op](a, b)
        r = list(r)
        a.clear()
        for x in r:
            a.add(x)
        return a
    if isinstance(a, dict) and op == "|" and (_dict_has_sym(a) or has_sym(b)):
        for k, v in (b.items() if hasattr(b, "items") else b):
            a[sx_key(a, k)] = v
        return a
    if is_sym(a) or is_sym(b):
        return {"|": sx_or, "&": sx_and, "-": sx_sub, "^": sx_xor, "%": sx_mod}[op](a, b)
    return {"|": operator.ior, "&": operator.iand, "-": operator.isub, "^": operator.ixor,
            "%": operator.imod}[op](a, b)


@hook
def sx_sub(a, b):
    if _setish(a) and _setish(b) and (has_sym(list(a)) or has_sym(list(b))):
        return set_op("difference", a, [b])
    return a - b


_CMP = {"==": operator.eq, "!=": operator.ne, "<=": operator.le, ">=": operator.ge,
        "<": operator.lt, ">": operator.gt}
_KEYS = type({}.keys())


@hook
def sx_cmp(op, a, b):
    """Comparison of containers, whose elements C compares by their hashes."""
    t, u = type(a), type(b)
    if t in (set, frozenset, _KEYS) and u in (set, frozenset, _KEYS):
        if any(is_sym(x) for x in a) or any(is_sym(x) for x in b):
            le = op in ("<=", "<", "==", "!=") and set_op("issubset", a, [b])
            ge = op in (">=", ">", "==", "!=") and set_op("issuperset", a, [b])
            n, m = len(sx_set(list(a))), len(sx_set(list(b)))
            return {"==": le and ge, "!=": not (le and ge), "<=": le, ">=": ge,
                    "<": le and n < m, ">": ge and n > m}[op]
    elif isinstance(a, dict) and isinstance(b, dict) and op in ("==", "!=") and \
            t.__eq__ is dict.__eq__ and (_dict_has_sym(a) or _dict_has_sym(b)):
        return deep_eq(a, b) == (op == "==")
    return _CMP[op](a, b)


@hook
def sx_and(a, b):
    if _setish(a) and _setish(b) and (has_sym(list(a)) or has_sym(list(b))):
        return set_op("intersection", a, [b])
    return a & b


@hook
def sx_or(a, b):
    if _setish(a) and _setish(b) and (has_sym(list(a)) or has_sym(list(b))):
        return set_op("union", a, [b])
    if isinstance(a, dict) and isinstance(b, dict) and (_dict_has_sym(a) or _dict_has_sym(b)):
        return sx_dict([(sx_star, a), (sx_star, b)])
    if (isinstance(a, SymInt) or isinstance(b, SymInt)) and \
            isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        # only used to collect differences: zero iff both are
        if not is_sym(a) and a == 0:
            return b
        if not is_sym(b) and b == 0:
            return a
        if isinstance(a, core.SymDiff) and isinstance(b, core.SymDiff):
            return core.SymDiff(a.pairs + b.pairs)
        r = z3.Int(cur().fresh("or"))
        x, y = SymInt._e(a), SymInt._e(b)
        cur().add((r == 0) == z3.And(x == 0, y == 0))
        cur().add(z3.Implies(z3.And(x >= 0, y >= 0), r >= 0))
        return core.mkint(r)
    return a | b


@hook
def sx_xor(a, b):
    if _setish(a) and _setish(b) and (has_sym(list(a)) or has_sym(list(b))):
        return set_op("symmetric_difference", a, [b])
    if isinstance(a, (SymInt,)) or isinstance(b, (SymInt,)):
        # only x ^ y used as a difference test: zero iff equal
        if all(isinstance(x, core.SymOrd) or type(x) is int and x < 0x110000 for x in (a, b)):
            return core.SymDiff([tuple(x.char if isinstance(x, core.SymOrd) else chr(x)
                                       for x in (a, b))])
        if (not is_sym(a) and a == 0):
            return b
        r = z3.Int(cur().fresh("xor"))
        cur().add((r == 0) == (SymInt._e(a) == SymInt._e(b)))
        cur().add(r >= 0)
        return core.mkint(r)
    return a ^ b


# ---------------------------------------------------------------------------------------------
# text formatting
def to_str(x, conv="s"):
    if conv == "r":
        return to_repr(x)
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, SymInt):
        return intstr(x)
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, SymBytes):
        return mk(["b'", x.view, "'"])
    if isinstance(x, BaseException) and has_sym(x.args):
        return to_str(x.args[0]) if len(x.args) == 1 else to_repr(x.args)
    if has_sym(x):
        return to_repr(x)
    r = type(x).__str__
    if isinstance(r, types.FunctionType) and is_instr(r):
        return r(x)
    if r is object.__str__ or isinstance(x, (dict, list, tuple, set, frozenset)):
        return to_repr(x)
    return str(x)


def to_repr(x):
    if isinstance(x, (SymStr,)):
        return mk(["'", x, "'"])
    if is_sym(x):
        return to_str(x)
    if has_sym(x):
        return _repr(x)
    try:
        return repr(x)
    except TypeError as err:
        if "returned non-string" not in str(err):
            raise
        return _repr(x)  # of something that has a symbolic value in it somewhere


def _repr(x):
    if isinstance(x, dict):
        out = []
        for k, v in x.items():
            out += [", " if out else "{", to_repr(k), ": ", to_repr(v)]
        return mk(out + ["}"]) if out else "{}"
    if isinstance(x, (list, tuple, set, frozenset)):
        out = []
        for v in x:
            out += [", " if out else "[", to_repr(v)]
        return mk(out + ["]"]) if out else "[]"
    r = type(x).__repr__
    if isinstance(r, types.FunctionType):
        return r(x)
    return repr(x)


def intstr(x):
    return func("intstr", x, "0123456789-", minlen=1)


@hook
def sx_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        val, conv, spec = p
        c = "r" if conv == 114 else "s"
        if not is_sym(val) and not has_sym(val) and not isinstance(spec, SymStr):
            if conv == 114:
                val = to_repr(val)
            elif conv == 115:
                val = to_str(val)
            if not isinstance(val, SymStr):
                f = type(val).__str__
                if spec == "" and (isinstance(f, types.FunctionType) and is_instr(f)
                                   or type(val).__format__ is object.__format__):
                    out.append(to_str(val))
                else:
                    out.append(format(val, spec))
                continue
        if spec not in ("", "s", "d"):
            raise Unsupported("format spec %r on symbolic" % (spec,))
        out.append(to_str(val, c))
    return mk(out)


_FMT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-#0 +]*)(?P<width>\d*)(?:\.(?P<prec>\d+))?"
                  r"(?P<conv>[a-zA-Z%])")


@hook
def sx_mod(a, b):
    if isinstance(a, str) or isinstance(a, SymStr):
        if not isinstance(a, SymStr) and not has_sym(b) and not _needs_str(b):
            return a % b
        out = []
        args = list(b) if isinstance(b, tuple) else [b]
        n = 0
        for piece in lift(a).parts:
            if not isinstance(piece, str):
                out.append(piece)
                continue
            pos = 0
            for m in _FMT.finditer(piece):
                out.append(piece[pos:m.start()])
                pos = m.end()
                if m.group("conv") == "%":
                    out.append("%")
                    continue
                if m.group("key") is not None:
                    v = sx_getitem(b, m.group("key"))
                else:
                    if n >= len(args):
                        raise TypeError("not enough arguments for format string")
                    v = args[n]
                    n += 1
                if is_sym(v) or has_sym(v) or m.group("conv") == "s":
                    out.append(to_str(v, "r" if m.group("conv") == "r" else "s"))
                else:
                    out.append(("%" + m.group("flags") + m.group("width") +
                                ("." + m.group("prec") if m.group("prec") else "") +
                                m.group("conv")) % (v,))
            out.append(piece[pos:])
        if isinstance(b, tuple) and n < len(args):
            raise TypeError("not all arguments converted during string formatting")
        return mk(out)
    if isinstance(a, bytes) and has_sym(b):
        raise Unsupported("bytes formatting")
    return a % b


def _needs_str(b):
    """an argument whose __str__ is instrumented (may render symbolic content)"""
    for x in (b if isinstance(b, tuple) else (b,)):
        if not isinstance(x, (str, int, float, bytes, type(None), list, tuple, dict)):
            return True
    return False


def sym_format(fmt, a, k):
    out = []
    auto = 0
    for piece in lift(fmt).parts:
        if not isinstance(piece, str):
            out.append(piece)
            continue
        for lit, field, spec, conv in string.Formatter().parse(piece):
            out.append(lit)
            if field is None:
                continue
            m = re.match(r"[^.\[]*", field)
            first, rest = m.group(0), field[m.end():]
            if first == "":
                v = a[auto]
                auto += 1
            elif first.isdigit():
                v = a[int(first)]
            else:
                v = k[first]
            while rest:
                m = re.match(r"\.(\w+)|\[([^\]]+)\]", rest)
                if m.group(1):
                    v = getattr(v, m.group(1))
                else:
                    v = sx_getitem(v, int(m.group(2)) if m.group(2).isdigit() else m.group(2))
                rest = rest[m.end():]
            if is_sym(v) or has_sym(v) or (not spec and not isinstance(v, (int, float))):
                out.append(to_str(v, "r" if conv == "r" else "s"))
            else:
                out.append(format(repr(v) if conv == "r" else v, spec or ""))
    return mk(out)


# ---------------------------------------------------------------------------------------------
# calls
def is_instr(f):
    g = getattr(f, "__globals__", None)
    return g is not None and "_sx_instrumented" in g


_PASS_MODULES = {"symx.cookies", "symx.dates", "symx.core", "symx.rt", "symx.env", "symx.api", "symx.models",
                 "_collections_abc", "collections.abc", "copy", "contextlib", "types", "abc",
                 "weakref", "functools", "typing", "logging", "traceback", "operator",
                 "_operator", "itertools"}

_PASS_BUILTINS = {list, tuple, iter, next, enumerate, zip, map, filter, any, all, reversed, sorted,
                  min, max, sum, setattr, hasattr, callable, id, functools.partial, property,
                  object, getattr, staticmethod, classmethod, print, vars, delattr, BaseException,
                 functools.reduce}
_PASS_IDS = {id(x) for x in _PASS_BUILTINS}
_LIST_TYPES = (list, tuple, collections.deque)


@hook
def sx_call(f, *a, **kw):
    t = type(f)
    ent = MODELS.get(id(f))
    if ent is not None:
        return ent[1](*a, **kw)
    if t is types.FunctionType:
        g = f.__globals__
        if "_sx_instrumented" in g:
            p = core.CUR
            if p is not None:
                p.stats.functions.add(f.__code__)
            return f(*a, **kw)
        if f.__module__ in _PASS_MODULES:
            return f(*a, **kw)
        if (a or kw) and (has_sym(a) or has_sym(kw)):
            return foreign(f, a, kw)
        return f(*a, **kw)
    if t is types.MethodType:
        fn = f.__func__
        ent = MODELS.get(id(fn))
        if ent is not None:
            return ent[1](f.__self__, *a, **kw)
        if not isinstance(fn, types.FunctionType):
            if isinstance(fn, types.MethodType) or not callable(fn):
                return f(*a, **kw)
            return f(*a, **kw)
        g = fn.__globals__
        if "_sx_instrumented" in g:
            p = core.CUR
            if p is not None:
                p.stats.functions.add(fn.__code__)
            return f(*a, **kw)
        if fn.__module__ in _PASS_MODULES:
            return f(*a, **kw)
        if isinstance(f.__self__, logging.Logger):
            return None
        if isinstance(f.__self__, tuple) and fn.__name__ in ("_replace", "_asdict"):
            return f(*a, **kw)
        if has_sym(a) or has_sym(kw) or (isinstance(f.__self__, tuple) and has_sym(f.__self__)):
            return foreign(f, a, kw)
        return f(*a, **kw)
    if t is types.BuiltinMethodType or t is types.MethodWrapperType:
        s = getattr(f, "__self__", None)
        if isinstance(s, type) and (s, f.__name__) in METHOD_MODELS:
            return METHOD_MODELS[s, f.__name__](*a, **kw)
        if s is not None and not isinstance(s, types.ModuleType):
            return builtin_method(f, s, f.__name__, a, kw)
        if "key" in kw and kw["key"] is not None:  # sorted, min, max
            kw = dict(kw, key=functools.partial(sx_call, kw["key"]))
        elif f is functools.reduce:
            a = (functools.partial(sx_call, a[0]),) + a[1:]
        if id(f) in _PASS_IDS or f.__module__ in _PASS_MODULES:
            return f(*a, **kw)
        if has_sym(a) or has_sym(kw):
            return foreign(f, a, kw)
        return f(*a, **kw)
    if isinstance(f, type):
        ent = CLASS_MODELS.get(f)
        if ent is not None:
            return ent(*a, **kw)
        if (f is map or f is filter) and a and a[0] is not None:
            return f(functools.partial(sx_call, a[0]), *a[1:])
        if id(f) in _PASS_IDS or issubclass(f, BaseException):
            return f(*a, **kw)
        if _class_instr(f):
            p = core.CUR
            ini = getattr(f, "__init__", None)
            if p is not None and isinstance(ini, types.FunctionType):
                p.stats.functions.add(ini.__code__)
            return f(*a, **kw)
        if f.__module__ in _PASS_MODULES or f.__module__ == "collections":
            return f(*a, **kw)
        if issubclass(f, tuple):
            return f(*a, **kw)
        if has_sym(a) or has_sym(kw):
            return foreign(f, a, kw)
        return f(*a, **kw)
    if t in (types.MethodDescriptorType, types.WrapperDescriptorType,
             types.ClassMethodDescriptorType):
        if a and has_sym(a):
            if isinstance(a[0], getattr(f, "__objclass__", ())):
                m = f.__get__(a[0])  # of that very class, not what a subclass overrides
            else:
                m = getattr(a[0], f.__name__, f)
            return builtin_method(m, a[0], f.__name__, a[1:], kw)
        return f(*a, **kw)
    if isinstance(f, functools.partial):
        return sx_call(f.func, *f.args, *a, **{**f.keywords, **kw})
    return f(*a, **kw)


def _class_instr(c):
    for k in c.__mro__:
        m = sys.modules.get(k.__module__)
        if m is not None and "_sx_instrumented" in m.__dict__:
            return True
        if k.__module__.startswith("symx"):
            return True
    return False


def foreign(f, a, kw):
    name = getattr(f, "__module__", "") or ""
    name = "%s.%s" % (name, getattr(f, "__qualname__", getattr(f, "__name__", repr(f))))
    a = core.concretise_deep(tuple(a), "call " + name)
    kw = core.concretise_deep(dict(kw), "call " + name)
    s = getattr(f, "__self__", None)
    if isinstance(s, tuple) and has_sym(s):
        f = getattr(core.concretise_deep(s, "call " + name), f.__name__)
    return f(*a, **kw)


def builtin_method(f, s, name, a, kw):
    if isinstance(s, str):
        if has_sym(a) or has_sym(kw) or (name == "format" and _needs_str(tuple(a) +
                                                                         tuple(kw.values()))):
            return str_method(s, name, a, kw)
        if name == "join" and a and not isinstance(a[0], (list, tuple, set, str, dict)):
            items = list(a[0])
            if has_sym(items):
                return str_method(s, name, (items,), kw)
            return f(items)
        return f(*a, **kw)
    if isinstance(s, (bytes, bytearray)):
        if has_sym(a):
            v = SymBytes(SymStr((bytes_view(s),) if s else ()))
            return getattr(v, name)(*a, **kw)
        return f(*a, **kw)
    if isinstance(s, dict):
        return dict_method(f, s, name, a, kw)
    if isinstance(s, (set, frozenset)):
        if has_sym(list(s)) or has_sym(a):
            return set_method(s, name, a)
        return f(*a, **kw)
    if isinstance(s, (list, tuple, collections.deque)):
        if name == "sort" and kw.get("key") is not None:
            kw = dict(kw, key=functools.partial(sx_call, kw["key"]))
        return f(*a, **kw)
    if isinstance(s, (type({}.keys()), type({}.values()), type({}.items()),
                      types.GeneratorType, type(iter([])), type)):
        if isinstance(s, type) and name == "fromkeys":
            return sx_dict([(k, a[1] if len(a) > 1 else None) for k in a[0]])
        if isinstance(s, type({}.keys())) and name in ("isdisjoint",):
            return set_op(name, set(s), a)
        return f(*a, **kw)
    if isinstance(s, re.Pattern):
        if has_sym(a):
            return regex_method(s, name, a)
        return f(*a, **kw)
    if name in ("__init__", "__new__", "__setattr__", "__getattribute__", "__init_subclass__"):
        return f(*a, **kw)
    if name in ("__contains__", "__getitem__", "__setitem__", "__delitem__", "__eq__", "__ne__",
                "__hash__", "__str__", "__iter__", "__len__"):
        if is_sym(s):
            return f(*a, **kw)
        if name == "__contains__":
            return sx_in(a[0], s)
    if id(f) in _PASS_IDS:
        return f(*a, **kw)
    if has_sym(a) or has_sym(kw):
        return foreign(f, a, kw)
    return f(*a, **kw)


def str_method(s, name, a, kw):
    if name == "format":
        return sym_format(s, a, kw)
    if name == "join":
        return SymStr((s,) if s else ()).join(a[0])
    if name in ("startswith", "endswith", "find", "replace", "split", "strip", "lstrip", "rstrip",
                "count", "index", "partition", "rpartition", "rsplit", "removeprefix",
                "removesuffix", "__eq__", "__add__", "__contains__", "encode", "rfind"):
        if name in ("strip", "lstrip", "rstrip", "split", "partition", "find", "rsplit", "index",
                    "rpartition", "count"):
            a = core.concretise_deep(tuple(a), "str." + name)
            return getattr(s, name)(*a, **kw)
        if name == "startswith" and isinstance(a[0], SymStr):
            return mkbool(z3.simplify(z3.PrefixOf(sexpr(a[0]), zstr(s))))
        if name == "endswith" and isinstance(a[0], SymStr):
            return mkbool(z3.simplify(z3.SuffixOf(sexpr(a[0]), zstr(s))))
        if name == "replace" and is_sym(a[0]):
            a = core.concretise_deep(tuple(a), "str.replace")
            return s.replace(*a)
        r = SymStr((s,) if s else ())
        return getattr(r, name)(*a, **kw)
    a = core.concretise_deep(tuple(a), "str." + name)
    return getattr(s, name)(*a, **core.concretise_deep(dict(kw), "str." + name))


_MISSING = object()


def dict_method(f, d, name, a, kw):
    if name in ("keys", "values", "items", "copy", "clear", "popitem", "__len__", "__iter__"):
        return f(*a, **kw)
    if type(d).__getitem__ is not dict.__getitem__ and name == "get":
        return f(*a, **kw)
    if name in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__",
                "__delitem__") and a:
        k = a[0]
        if not _needs(d, k):
            return f(*a, **kw)
        hit = find_key(d, k)
        if name == "__contains__":
            return hit is not None
        if hit is not None:
            return f(hit[0], *a[1:], **kw)
        if name == "get":
            return a[1] if len(a) > 1 else kw.get("default")
        if name == "pop":
            if len(a) > 1:
                return a[1]
            raise KeyError(k)
        if name == "setdefault":
            v = a[1] if len(a) > 1 else None
            dict.__setitem__(d, k, v)
            return v
        if name == "__setitem__":
            dict.__setitem__(d, k, a[1])
            return None
        raise KeyError(k)
    if name == "update":
        src = a[0] if a else {}
        if _dict_has_sym(d) or has_sym(src, 2):
            it = [(k, src[k]) for k in src.keys()] if hasattr(src, "keys") else list(src)
            for k, v in it + list(kw.items()):
                dict.__setitem__(d, sx_key(d, k), v)
            return None
        return f(*a, **kw)
    return f(*a, **kw)


def set_method(s, name, a):
    if name == "add":
        if find_key(s, a[0]) is None:
            s.add(a[0])
        return None
    if name in ("discard", "remove"):
        hit = find_key(s, a[0])
        if hit is None:
            if name == "remove":
                raise KeyError(a[0])
            return None
        s.discard(hit[0])
        return None
    if name in ("update", "intersection_update", "difference_update"):
        r = set_op(name, s, a)
        s.clear()
        for x in r:
            s.add(x)
        return None
    if name in ("copy", "clear", "pop", "__len__", "__iter__", "__init__"):
        return getattr(s, name)(*a)
    if name == "__contains__":
        return find_key(s, a[0]) is not None
    return set_op(name, s, a)


def regex_method(pat, name, a):
    from symx import rex
    r = rex.apply(pat, name, a)
    if r is not NotImplemented:
        return r
    a = core.concretise_deep(tuple(a), "re." + name)
    return getattr(pat, name)(*a)


# ---------------------------------------------------------------------------------------------
# builtins
@model(len)
def m_len(x):
    if isinstance(x, (SymStr, SymBytes)):
        return x.length()
    return len(x)


_ISMAP = {SymStr: str, SymInt: int, SymBytes: bytes, SymBool: bool}


@model(isinstance)
def m_isinstance(x, cls):
    t = _ISMAP.get(type(x))
    if t is None:
        return isinstance(x, cls)
    if isinstance(cls, tuple):
        return any(m_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(m_isinstance(x, c) for c in cls.__args__)
    if cls is SymStr or cls is Sym:
        return isinstance(x, cls)
    try:
        return issubclass(t, cls)
    except TypeError:
        return isinstance(x, cls)


def m_type(*a, **kw):
    if len(a) == 1:
        return _ISMAP.get(type(a[0]), type(a[0]))
    return type(*a, **kw)


def m_str(*a, **kw):
    if not a:
        return str(*a, **kw)
    x = a[0]
    if isinstance(x, SymBytes) and (len(a) > 1 or kw):
        return x.decode()
    if len(a) > 1 or kw:
        return str(*a, **kw)
    return to_str(x)


def m_int(*a, **kw):
    if a and isinstance(a[0], (SymInt, SymBool)):
        if isinstance(a[0], SymBool):
            return 1 if a[0] else 0
        return a[0]
    if a and isinstance(a[0], SymBytes):
        a = (a[0].decode(),) + a[1:]
    if a and isinstance(a[0], SymStr):
        s = a[0]
        if len(s.parts) == 1 and s.parts[0].kind == "intstr":
            return s.parts[0].payload
        if len(a) > 1 or kw:
            return foreign(int, a, kw)
        e = sexpr(s)
        if cur().branch(z3.And(z3.Length(e) > 0,
                               z3.InRe(e, core.alpha_re(ALPHABETS["digits"])))):
            return core.mkint(z3.StrToInt(e))
        raise ValueError("invalid literal for int()")
    return int(*a, **kw)


def m_bool(*a):
    return bool(*a)


def m_float(*a):
    if a and isinstance(a[0], SymInt):
        return a[0]
    if a and isinstance(a[0], SymStr):
        return m_int(a[0])
    return float(*a)


def m_bytes(*a, **kw):
    if a and isinstance(a[0], SymStr):
        return a[0].encode()
    if a and isinstance(a[0], SymBytes):
        return a[0]
    return bytes(*a, **kw)


def m_dict(*a, **kw):
    src = a[0] if a else None
    if src is None:
        return dict(**kw)
    if hasattr(src, "keys"):
        if has_sym(list(src.keys())):
            return sx_dict([(k, src[k]) for k in src.keys()] + list(kw.items()))
        return dict(*a, **kw)
    items = [tuple(x) for x in src]
    return sx_dict(items + list(kw.items()))


def m_set(*a):
    if not a:
        return set()
    return sx_set(list(a[0])) if not isinstance(a[0], str) else set(a[0])


def m_frozenset(*a):
    return frozenset(m_set(*a))


CLASS_MODELS.update({str: m_str, int: m_int, type: m_type, bool: m_bool, float: m_float,
                     bytes: m_bytes, dict: m_dict, set: m_set, frozenset: m_frozenset})


@model(repr)
def m_repr(x):
    return to_repr(x)


@model(format)
def m_format(x, spec=""):
    if is_sym(x):
        return to_str(x)
    return format(x, spec)


@model(hash)
def m_hash(x):
    return hash(x)


@model(getattr)
def m_getattr(o, n, *d):
    if is_sym(n):
        n = core.concretise(n, "getattr")
    return getattr(o, n, *d)


@model(ord)
def m_ord(c):
    if isinstance(c, SymStr):
        if isinstance(c, core.SymChar):
            return core.SymOrd(c)
        return core.mkint(z3.StrToCode(sexpr(c)))
    return ord(c)


@model(chr)
def m_chr(i):
    if isinstance(i, SymInt):
        return func("chr", i, None, length=1)
    return chr(i)


@model(sum)
def m_sum(it, *a):
    return sum(it, *a)


@model(abs)
def m_abs(x):
    if isinstance(x, SymInt):
        return x if x >= 0 else -x
    return abs(x)


@model(divmod)
def m_divmod(x, y):
    if is_sym(x) or is_sym(y):
        return x // y, x % y
    return divmod(x, y)


@model(round)
def m_round(x, *a):
    return x if isinstance(x, SymInt) else round(x, *a)


@model(operator.contains)
def m_contains(c, x):
    return sx_in(x, c)


@model(operator.getitem)
def m_getitem(c, k):
    return sx_getitem(c, k)


@model(_copy.deepcopy)
def m_deepcopy(x, memo=None):
    return _copy.deepcopy(x)


# ---------------------------------------------------------------------------------------------
# json
def json_norm(o, default=None):
    """The value json.loads would give back; TypeError for what json.dumps refuses."""
    if isinstance(o, (SymStr, SymInt, SymBool)) or o is None or isinstance(
            o, (str, int, float, bool)):
        return o
    if isinstance(o, (list, tuple)):
        return [json_norm(x, default) for x in o]
    if isinstance(o, dict):
        out = {}
        for k, v in o.items():
            if isinstance(k, bool):
                k = "true" if k else "false"
            elif k is None:
                k = "null"
            elif isinstance(k, int):
                k = str(k)
            elif not isinstance(k, (str, SymStr)):
                raise TypeError("keys must be str, int, float, bool or None")
            out[sx_key(out, k)] = json_norm(v, default)
        return out
    if default is not None:
        return json_norm(sx_call(default, o), default)
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


@model(json.dumps)
def m_dumps(o, **kw):
    if not has_sym(o, 12):
        return json.dumps(o, **kw)
    n = json_norm(o, kw.get("default"))
    style = "json"
    if isinstance(n, dict):
        al, ml = None, 2
    else:
        al, ml = None, 1
    s = func(style, n, al, minlen=ml)
    return s


@model(json.loads)
def m_loads(s, **kw):
    if isinstance(s, SymBytes):
        s = s.decode()
    if not isinstance(s, SymStr):
        return json.loads(s, **kw)
    ps = list(s.parts)
    if isinstance(ps[0], str) and not ps[0].strip():
        ps = ps[1:]
    if ps and isinstance(ps[-1], str) and not ps[-1].strip():
        ps = ps[:-1]
    if len(ps) == 1 and ps[0].kind == "json":
        return _copy.deepcopy(ps[0].payload)
    if len(ps) == 1 and ps[0].kind == "intstr":
        return ps[0].payload
    if isinstance(ps[0], core.Part) and len(ps) == 1:
        raise json.JSONDecodeError("Expecting value", "<symbolic>", 0)
    t = s
    return json_rope(t)


class _JsonErr(Exception):
    pass


def json_rope(s):
    """JSON text built by hand around symbolic pieces: literal structure is parsed, symbolic
    pieces are accepted inside string literals (with no quote or backslash in them)."""
    marks, text = {}, []
    for i, p in enumerate(s.parts):
        if isinstance(p, str):
            text.append(p)
        elif p.kind == "json":
            m = "\ue000%d\ue001" % i
            marks[m] = ("json", p)
            text.append('"' + m + '"')
        else:
            m = "\ue000%d\ue001" % i
            marks[m] = ("str", p)
            text.append(m)
    try:
        v = json.loads("".join(text))
    except ValueError:
        raise json.JSONDecodeError("Expecting value", "<symbolic>", 0)
    for k, p in marks.values():
        if k == "str":
            cond = z3.Or(*[z3.Contains(p.expr, zstr(c)) for c in '"\\' if p.may_contain(c)] +
                         [z3.BoolVal(False)])
            if cur().branch(cond):
                raise json.JSONDecodeError("Expecting value", "<symbolic>", 0)

    def back(o):
        if isinstance(o, str):
            if o in marks and marks[o][0] == "json":
                return _copy.deepcopy(marks[o][1].payload)
            out = []
            for x in re.split("(\ue000\\d+\ue001)", o):
                out.append(marks[x][1] if x in marks else x)
            return mk(out)
        if isinstance(o, list):
            return [back(x) for x in o]
        if isinstance(o, dict):
            return sx_dict([(back(k), back(v)) for k, v in o.items()])
        return o
    return back(v)


# ---------------------------------------------------------------------------------------------
# urllib.parse
def quote_part(s, safe, plus):
    """quote / quote_plus of a rope, piecewise."""
    out = []
    for p in lift(s).parts:
        if isinstance(p, str):
            out.append(up.quote_plus(p, safe) if plus else up.quote(p, safe))
            continue
        ok = set(core.ALNUM + "_.-~" + safe)
        if p.alpha is not None and set(p.alpha) <= ok:
            out.append(p)
            continue
        if p.kind == "intstr":
            out.append(p)
            continue
        k = ("quoteplus:" + safe if safe else "quoteplus") if plus else "quote:" + safe
        r = func(k, SymStr((p,)), ALPHABETS["quoted"] + safe, minlen=p.minlen, soft=True)
        q = r.parts[0]
        key = ("quotefact", id(q))
        if key not in cur().meta:
            cur().meta[key] = 1
            cur().add((z3.Length(q.expr) == 0) == (z3.Length(p.expr) == 0))
            if safe and plus:
                # differs from the full quoting exactly where one of the safe characters occurs
                full = func("quoteplus", SymStr((p,)), ALPHABETS["quoted"],
                            minlen=p.minlen, soft=True).parts[0]
                es = [z3.Contains(p.expr, zstr(c)) for c in sorted(set(safe))
                      if c not in core.ALNUM + "_.-~" and p.may_contain(c)]
                cur().add((q.expr == full.expr) == z3.Not(z3.Or(*es)) if es
                          else q.expr == full.expr)
        out.append(q)
    return mk(out)


@model(up.quote)
def m_quote(s, safe="/", encoding=None, errors=None):
    if isinstance(s, SymBytes):
        s = s.decode()
    if not is_sym(s):
        return up.quote(s, safe)
    return quote_part(s, safe, False)


@model(up.quote_plus)
def m_quote_plus(s, safe="", encoding=None, errors=None):
    if isinstance(s, SymBytes):
        s = s.decode()
    if not is_sym(s):
        return up.quote_plus(s, safe)
    return quote_part(s, safe, True)


def unquote_part(s, plus):
    out = []
    for p in lift(s).parts:
        if isinstance(p, str):
            out.append(up.unquote_plus(p) if plus else up.unquote(p))
        elif p.kind and p.kind.startswith("quoteplus") and plus and "+" not in p.kind[9:] \
                and "%" not in p.kind[9:]:
            out.append(p.payload)
        elif p.kind and p.kind.startswith("quote:"):
            out.append(p.payload)
        elif p.kind and p.kind.startswith("quoteplus"):
            out.append(func("unq_of_" + p.kind, p.payload))
        elif p.alpha is not None and "%" not in p.alpha and (not plus or "+" not in p.alpha):
            out.append(p)
        else:
            es = [z3.Contains(p.expr, zstr(c)) for c in ("%+" if plus else "%")
                  if p.may_contain(c)]
            if cur().branch(z3.Or(*es)):
                # text with escapes that we did not produce: value left open
                out.append(core.new_part("unquoted"))
            else:
                out.append(p)
    return mk(out)


@model(up.unquote)
def m_unquote(s, *a, **k):
    if not is_sym(s):
        return up.unquote(s, *a, **k)
    return unquote_part(s, False)


@model(up.unquote_plus)
def m_unquote_plus(s, *a, **k):
    if not is_sym(s):
        return up.unquote_plus(s, *a, **k)
    return unquote_part(s, True)


@model(up.urlencode)
def m_urlencode(query, doseq=False, safe="", encoding=None, errors=None, quote_via=None):
    q = m_quote_plus if quote_via in (None, up.quote_plus) else m_quote
    if hasattr(query, "items"):
        query = list(query.items())
    else:
        query = list(query)
    if not has_sym(query, 6) and not any(_needs_str((k, v)) for k, v in query):
        return up.urlencode(query, doseq, safe)
    out = []

    def one(v):
        if isinstance(v, (bytes, SymBytes)):
            return q(v, safe)
        return q(to_str(v), safe)
    for k, v in query:
        vs = [v]
        if doseq and isinstance(v, (list, tuple)):
            vs = v
        for x in vs:
            if out:
                out.append("&")
            out += [one(k), "=", one(x)]
    return mk(out)


def parse_pairs(qs, keep_blank):
    if isinstance(qs, SymBytes):
        qs = qs.decode()
    out = []
    for item in lift(qs).split("&"):
        if not item and (isinstance(item, str) or not bool(item)):
            continue
        k, eq, v = lift(item).partition("=")
        if not eq:
            if keep_blank:
                out.append((unquote_part(k, True), ""))
            continue
        v = unquote_part(v, True)
        if isinstance(v, str) and not v and not keep_blank:
            continue
        if isinstance(v, SymStr) and not keep_blank and not bool(v):
            continue
        out.append((unquote_part(k, True), v))
    return out


@model(up.parse_qsl)
def m_parse_qsl(qs, keep_blank_values=False, **kw):
    if not is_sym(qs):
        return up.parse_qsl(qs, keep_blank_values, **kw)
    return parse_pairs(qs, keep_blank_values)


@model(up.parse_qs)
def m_parse_qs(qs, keep_blank_values=False, **kw):
    if not is_sym(qs):
        return up.parse_qs(qs, keep_blank_values, **kw)
    d = {}
    for k, v in parse_pairs(qs, keep_blank_values):
        k = sx_key(d, k)
        if k in d:
            d[k].append(v)
        else:
            d[k] = [v]
    return d


@model(up.urlsplit)
def m_urlsplit(url, scheme="", allow_fragments=True):
    if not is_sym(url):
        return up.urlsplit(url, scheme, allow_fragments)
    s = lift(url)
    frag = query = netloc = ""
    # scheme
    head = s.parts[0]
    if isinstance(head, str) and re.match(r"[A-Za-z][A-Za-z0-9+.-]*:", head):
        i = head.index(":")
        scheme = head[:i].lower()
        s = lift(mk((head[i + 1:],) + s.parts[1:]))
    else:
        c = s._cut(":")
        if c is not None:
            pre = lift(c[0])
            e = sexpr(pre)
            al = ALPHABETS["alnum"] + "+.-"
            first = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"))
            if cur().branch(z3.InRe(e, z3.Concat(first, core.alpha_re(al)))):
                scheme = pre.lower()
                s = lift(c[1])
    if s.startswith("//"):
        rest = lift(s[2:])
        # the authority ends at the first of / ? #
        netloc, tail = rest, ""
        for d in "#?/":
            c = lift(netloc)._cut(d)
            if c is not None:
                tail = mk([d, c[1], tail])
                netloc = c[0]
        s = lift(tail)
    if allow_fragments:
        c = s._cut("#")
        if c is not None:
            s, frag = lift(c[0]), c[1]
    c = s._cut("?")
    if c is not None:
        s, query = lift(c[0]), c[1]
    return up.SplitResult(scheme, netloc, mk([s]), query, frag)


@model(up.urlparse)
def m_urlparse(url, scheme="", allow_fragments=True):
    if not is_sym(url):
        return up.urlparse(url, scheme, allow_fragments)
    r = m_urlsplit(url, scheme, allow_fragments)
    path, params = r.path, ""
    c = lift(path)._cut(";")
    if c is not None:
        path, params = c
    return up.ParseResult(r.scheme, r.netloc, path, params, r.query, r.fragment)


def _nonempty(x):
    return bool(x)


@model(up.urlunsplit)
def m_urlunsplit(comp):
    scheme, netloc, url, query, frag = comp
    if not has_sym(tuple(comp)):
        return up.urlunsplit(comp)
    out = url
    if _nonempty(netloc):
        if _nonempty(url) and not lift(url).startswith("/"):
            out = mk(["/", url])
        out = mk(["//", netloc, out])
    elif isinstance(out, str) and out[:2] == "//":
        out = "//" + out
    if _nonempty(scheme):
        out = mk([scheme, ":", out])
    if _nonempty(query):
        out = mk([out, "?", query])
    if _nonempty(frag):
        out = mk([out, "#", frag])
    return out


@model(up.urlunparse)
def m_urlunparse(comp):
    scheme, netloc, url, params, query, frag = comp
    if not has_sym(tuple(comp)):
        return up.urlunparse(comp)
    if _nonempty(params):
        url = mk([url, ";", params])
    return m_urlunsplit((scheme, netloc, url, query, frag))


@model(up.SplitResult.geturl, up.ParseResult.geturl)
def m_geturl(self):
    return m_urlunsplit(self) if len(self) == 5 else m_urlunparse(self)


@model(up.urldefrag)
def m_urldefrag(url):
    if not is_sym(url):
        return up.urldefrag(url)
    c = url._cut("#")
    return up.DefragResult(url, "") if c is None else up.DefragResult(c[0], c[1])


# ---------------------------------------------------------------------------------------------
# encodings, hashes
def _b64(kind, alpha):
    def m(b, *a, **k):
        if not is_sym(b):
            return None
        if not isinstance(b, SymBytes):
            raise TypeError("a bytes-like object is required, not 'str'")
        v = lift(b.view)
        n = v.length()
        return SymBytes(func(kind, b, alpha, minlen=(core._minlen(v.parts) + 2) // 3 * 4,
                             length=(n + 2) // 3 * 4 if isinstance(n, int) else None, soft=True))
    return m


_b64us = _b64("b64us", ALPHABETS["token"] + "=")
_b64s = _b64("b64s", ALPHABETS["b64"])


def _enc(real, m):
    @model(real)
    def f(b, *a, **k):
        r = m(b, *a, **k)
        return real(b, *a, **k) if r is None else r
    return f


_enc(base64.urlsafe_b64encode, _b64us)
_enc(base64.standard_b64encode, _b64s)
_enc(base64.b64encode, _b64s)


def _dec(real, kinds):
    @model(real)
    def f(s, *a, **k):
        if not is_sym(s):
            return real(s, *a, **k)
        v = s.view if isinstance(s, SymBytes) else s
        v = lift(v)
        ps = v.parts
        if len(ps) >= 1 and isinstance(ps[-1], str) and not ps[-1].strip("="):
            ps = ps[:-1]
        if len(ps) == 1 and isinstance(ps[0], core.Part) and ps[0].kind in kinds:
            return ps[0].payload
        if len(ps) == 1 and isinstance(ps[0], core.Part) and ps[0].kind in (
                "b64s", "b64us", "b64u"):
            # the other alphabet: same value only when the text has no alphabet specific char
            e = ps[0].expr
            sp = "+/" if ps[0].kind == "b64s" else "-_"
            if cur().branch(z3.Or(*[z3.Contains(e, zstr(c)) for c in sp])):
                return SymBytes(func("b64garbled", ps[0].payload))
            return ps[0].payload
        # text we did not encode: either malformed or some unknown content
        if cur().choose(cur().fresh("b64valid"), 2) == 0:
            raise binascii.Error("Incorrect padding")
        return SymBytes(func("b64dec", v))
    return f


_dec(base64.urlsafe_b64decode, ("b64us", "b64u"))
_dec(base64.b64decode, ("b64s",))
_dec(base64.standard_b64decode, ("b64s",))


def _size(name):
    return hashlib.new(name).digest_size


class SymHash:
    """hashlib object over symbolic data: an injective function of everything fed to it."""

    def __init__(self, name, data=b""):
        self.name = name
        self.data = [data] if not isinstance(data, bytes) or data else []

    def update(self, b):
        if isinstance(b, (str, SymStr)):
            raise TypeError("Strings must be encoded before hashing")
        self.data.append(b)

    def _content(self):
        out = []
        for b in self.data:
            out.append(bytes_view(b))
        return mk(out)

    def digest(self):
        c = self._content()
        if not is_sym(c) and not any(isinstance(b, SymBytes) for b in self.data):
            h = getattr(hashlib, self.name)()
            for b in self.data:
                h.update(b)
            return h.digest()
        return SymBytes(func("hash:" + self.name, c, None, length=_size(self.name), soft=True), "raw")

    def hexdigest(self):
        d = self.digest()
        return d.hex()

    def copy(self):
        h = SymHash(self.name)
        h.data = list(self.data)
        return h


def _mk_hash(name):
    @model(getattr(hashlib, name))
    def f(data=b"", **kw):
        return SymHash(name, data)
    return f


for _n in ("sha1", "sha224", "sha256", "sha384", "sha512", "md5"):
    _mk_hash(_n)


class SymHMAC:
    def __init__(self, key, msg=None, digestmod=None):
        self.key = key
        self.data = [] if msg is None else [msg]
        d = digestmod
        self.name = d if isinstance(d, str) else getattr(d, "__name__", str(d)).replace(
            "openssl_", "")

    def update(self, b):
        if isinstance(b, (str, SymStr)):
            raise TypeError("Strings must be encoded before hashing")
        self.data.append(b)

    def digest(self):
        c = mk([bytes_view(b) for b in self.data])
        if not is_sym(c) and not is_sym(self.key):
            return _hmac.new(self.key, b"".join(self.data), self.name).digest()
        k = bytes_view(self.key)
        return SymBytes(func("hmac:" + self.name, [k, c], None, length=_size(self.name), soft=True), "raw")

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        h = SymHMAC(self.key, None, self.name)
        h.data = list(self.data)
        return h


@model(_hmac.new)
def m_hmac_new(key, msg=None, digestmod=None):
    return SymHMAC(key, msg, digestmod)


@model(_hmac.compare_digest)
def m_compare_digest(a, b):
    if is_sym(a) or is_sym(b):
        return a == b
    return _hmac.compare_digest(a, b)


@model(secrets.compare_digest)
def m_compare_digest2(a, b):
    return m_compare_digest(a, b)


@model(binascii.hexlify)
def m_hexlify(b, *a):
    if is_sym(b):
        return SymBytes(b.hex())
    return binascii.hexlify(b, *a)


@model(time.sleep)
def m_sleep(*a):
    return None
