"""Models that need the code under test to be imported first (registered after install())."""
import sys

import z3

from symx import core, rt
from symx.models_names import random_functions, rnd_text, secret_functions, time_functions
from symx.core import Part, SymBytes, SymStr, bytes_view, cur, deep_eq_expr, func, is_sym, lift, mk
from symx.rt import CLASS_MODELS, MODELS, model


def key_ident(key):
    """A stable name for a cryptographic key."""
    if isinstance(key, (bytes, str)) or is_sym(key):
        return ["sym", bytes_view(key) if not isinstance(key, (str, SymStr)) else key]
    pub = key.public_key() if hasattr(key, "public_key") else key
    nums = pub.public_numbers()
    return ["pub", str(getattr(nums, "n", None) or (nums.x, nums.y))]


def register():
    import symx.cookies  # noqa: F401
    from symx import dates
    dates.register()
    import cryptojwt.utils as cu
    from cryptojwt.exception import BadSignature, BadSyntax
    from cryptojwt.jws import dsa, hmac, pss, rsa
    from cryptojwt.jws import utils as jwsu
    import cryptojwt.jws.jws as jj

    real_b64e, real_b64d = cu.b64e, cu.b64d

    @model(cu.b64e)
    def b64e(b):
        if not is_sym(b):
            return real_b64e(b)
        if not isinstance(b, SymBytes):
            raise TypeError("a bytes-like object is required, not 'str'")
        return SymBytes(func("b64u", b, core.ALPHABETS["token"], soft=True))

    @model(cu.b64d)
    def b64d(b):
        if not is_sym(b):
            return real_b64d(b)
        if isinstance(b, SymStr):
            raise TypeError("a bytes-like object is required, not 'str'")
        v = lift(b.view)
        if len(v.parts) == 1 and isinstance(v.parts[0], Part) and \
                v.parts[0].kind in ("b64u", "b64us"):
            return v.parts[0].payload
        if cur().choose(cur().fresh("b64valid"), 2) == 0:
            raise BadSyntax(b, "base64-encoded data contains illegal characters")
        return SymBytes(func("b64dec", v), "raw")

    def signer_name(self):
        if isinstance(self, hmac.HMACSigner):
            return "HS:" + self.algorithm.__name__
        if isinstance(self, dsa.ECDSASigner):
            return self.algorithm
        if isinstance(self, rsa.RSASigner):
            return "%s:%s" % (type(self.padding).__name__, self.hash.name)
        return "%s:%s" % (type(self).__name__, getattr(self, "hash_algorithm", None) and
                          self.hash_algorithm.__name__)

    def mk_sign(real):
        def sign(self, msg, key):
            if not is_sym(msg) and not is_sym(key):
                return real(self, msg, key)
            if not isinstance(msg, (bytes, SymBytes)):
                raise TypeError("msg must be bytes")
            return SymBytes(func("sig:" + signer_name(self), [key_ident(key), bytes_view(msg)],
                                 minlen=16, soft=True), "raw")
        return sign

    def mk_verify(real, hm):
        def verify(self, msg, sig, key):
            if not is_sym(msg) and not is_sym(key) and not is_sym(sig):
                return real(self, msg, sig, key)
            ok = False
            if isinstance(sig, SymBytes):
                v = lift(sig.view)
                if len(v.parts) == 1 and isinstance(v.parts[0], Part) and \
                        v.parts[0].kind == "sig:" + signer_name(self):
                    e = deep_eq_expr(v.parts[0].payload, [key_ident(key), bytes_view(msg)])
                    ok = e if isinstance(e, bool) else cur().branch(e)
            if ok:
                return True
            if hm:
                return False
            raise BadSignature("bad signature")
        return verify

    for cls, hm in ((hmac.HMACSigner, True), (rsa.RSASigner, False), (dsa.ECDSASigner, False),
                    (pss.PSSSigner, False)):
        rs, rv = cls.sign, cls.verify
        model(rs)(mk_sign(rs))
        model(rv)(mk_verify(rv, hm))

    real_lh = jwsu.left_hash

    import os
    real_join = os.path.join

    @model(real_join)
    def join(a, *rest):
        if not any(is_sym(x) for x in (a,) + rest):
            return real_join(a, *rest)
        for b in rest:
            if not isinstance(b, (str, SymStr)):
                raise TypeError("join() argument must be str, bytes, or os.PathLike object")
            if b.startswith("/") or not a:
                a = b
            elif a.endswith("/"):
                a = a + b
            else:
                a = a + "/" + b
        return a

    @model(real_lh)
    def left_hash(msg, func_="HS256", **kw):
        f = kw.get("func", func_)
        if not is_sym(msg):
            return real_lh(msg, f)
        if f not in ("HS256", "HS384", "HS512"):
            return None
        n = {"HS256": 22, "HS384": 32, "HS512": 43}[f]
        return func("left_hash:" + f, msg, core.ALPHABETS["token"], length=n, soft=True)

    # clock ------------------------------------------------------------------------------
    for f in time_functions():
        model(f)(_now)

    # randomness -------------------------------------------------------------------------
    for f in random_functions():
        model(f)(_rndstr)
    for f in secret_functions():
        model(f)(lambda n=32: rnd(n))
    import time
    import uuid
    model(uuid.uuid4)(_uuid)
    model(time.time)(_now)


class _Uuid:
    def __init__(self, s):
        self.s = s
        self.hex = s

    def __str__(self):
        return self.s


def _uuid():
    return _Uuid(rnd(32))


def _now(*a, **k):
    return core.cur().env.time_value()


def _rndstr(size=16, alphabet=""):
    return rnd(size)


def rnd(n):
    """A generated random value: a fixed representative, distinct from every other one (it differs
    from them only in the middle, so that comparing a prefix or suffix is not enough) and contained
    in no string the environment chose before."""
    p = core.cur()
    if is_sym(n):
        n = core.concretise(n, "rndstr length")
    v = rnd_text(p.meta.setdefault("rnd_n", 0), n)
    p.meta["rnd_n"] += 1
    for nm, (kind, e) in p.inputs.items():
        if kind == "str" and not ("~" in v and "~" not in p.meta.get("alpha", {}).get(nm, "~")):
            p.add(z3.Not(z3.Contains(e, core.zstr(v))))
    return v
