"""http.cookies and AES-GCM over symbolic values."""
import hashlib
import http.cookies as hc
import os

from cryptography.exceptions import InvalidTag
from cryptography.hazmat.primitives.ciphers.aead import AESGCM
from symx import core, rt
from symx.core import (SymBytes, SymStr, Unsupported, alpha_re, bytes_view, cur, deep_eq_expr, func,
                       is_sym, lift, mk, sexpr)
from symx.rt import CLASS_MODELS, SymHash, model
import z3

LEGAL = hc._LegalChars + ":"
# what http.cookies leaves of a text it quotes
QUOTED = "".join(c for c in map(chr, range(32, 127)) if c not in ";,")


def _legal(v):
    """Whether a value goes into a cookie as it is."""
    v = lift(v)
    e = True
    for p in v.parts:
        if isinstance(p, str):
            if not set(p) <= set(LEGAL):
                return False
        elif p.alpha is None or not set(p.alpha) <= set(LEGAL):
            e = False
    if any(not isinstance(p, str) and p.kind and not (p.alpha and set(p.alpha) <= set(LEGAL))
           for p in v.parts):
        return False
    if e or cur().choose(cur().fresh("cookiequote"), 2) == 0:
        return e
    # (quoting what needn't be quoted does no harm, so that case isn't excluded above)
    for p in v.parts:
        if not isinstance(p, str) and not (p.alpha and set(p.alpha) <= set(LEGAL)):
            cur().add(z3.InRe(p.expr, alpha_re(LEGAL)))
    return True


def quote(v):
    if not is_sym(v):
        return hc._quote(v)
    if not _legal(v):
        return mk(['"', func("cookiequote", v, QUOTED, minlen=1, soft=True), '"'])
    ps = []
    for p in lift(v).parts:
        if isinstance(p, str) or p.alpha is not None and set(p.alpha) <= set(LEGAL):
            ps.append(p)
        else:
            q = func("cookieplain", SymStr((p,)), LEGAL if p.alpha is None else
                     "".join(c for c in LEGAL if c in p.alpha), minlen=p.minlen, soft=True)
            cur().add(lift(q).parts[0].expr == p.expr)
            ps.append(q)
    return mk(ps)


def unquote(v):
    if not is_sym(v):
        return hc._unquote(v)
    ps = lift(v).parts
    if len(ps) == 3 and ps[0] == ps[2] == '"' and getattr(ps[1], "kind", 0) == "cookiequote":
        return ps[1].payload
    if not bool(lift(v).startswith('"')):
        return mk([p if isinstance(p, str) or p.kind != "cookieplain" else p.payload for p in ps])
    raise Unsupported("a quoted cookie value")


class MorselModel(dict):
    _reserved = dict(hc.Morsel._reserved)
    _flags = hc.Morsel._flags

    def __init__(self, key, value, coded):
        super().__init__({k: "" for k in self._reserved})
        self.key, self.value, self.coded_value = key, value, coded

    def __setitem__(self, k, v):
        k = k.lower()
        if k not in self._reserved:
            raise hc.CookieError("Invalid attribute %r" % (k,))
        super().__setitem__(k, v)

    def __bool__(self):
        return True

    def text(self):
        out = [self.key, "=", self.coded_value]
        for k, v in sorted(self.items()):
            if isinstance(v, str) and v == "":
                continue
            if k == "expires" and isinstance(v, int) and not isinstance(v, bool):
                out += ["; Expires=", hc._getdate(v)]
            elif k in self._flags:
                if v:
                    out += ["; ", self._reserved[k]]
            else:
                out += ["; ", self._reserved[k], "=", rt.to_str(v)]
        return mk(out)

    OutputString = text


class CookieModel(dict):
    """SimpleCookie whose values may be symbolic."""

    def __init__(self, input=None):
        super().__init__()
        if input:
            self.load(input)

    def __setitem__(self, k, v):
        if isinstance(v, MorselModel):
            super().__setitem__(k, v)
            return
        if not hc._is_legal_key(k):
            raise hc.CookieError("Illegal key %r" % (k,))
        v = v if is_sym(v) else str(v)
        coded = quote(v)
        if k in self:
            m = self[k]
            m.value, m.coded_value = v, coded
        else:
            super().__setitem__(k, MorselModel(k, v, coded))

    def load(self, raw):
        if isinstance(raw, dict):
            for k, v in raw.items():
                self[k] = v
            return
        if not is_sym(raw):
            real = hc.SimpleCookie(raw)
            for k, m in real.items():
                mm = MorselModel(k, m.value, m.coded_value)
                for a, b in m.items():
                    dict.__setitem__(mm, a, b)
                dict.__setitem__(self, k, mm)
            return
        last = None
        for piece in lift(raw).split(";"):
            piece = piece.strip() if isinstance(piece, str) else lift(piece).strip()
            k, eq, v = (piece if isinstance(piece, str) else lift(piece)).partition("=")
            if is_sym(k):
                raise Unsupported("a cookie of unknown name")
            if k.lower() in MorselModel._reserved and last is not None:
                if k.lower() in MorselModel._flags and not eq:
                    last[k] = True
                elif eq:
                    last[k] = v
            elif eq:
                last = MorselModel(k, unquote(v), v)
                dict.__setitem__(self, k, last)

    def output(self, attrs=None, header="Set-Cookie:", sep="\015\012"):
        out = []
        for k, m in sorted(self.items()):
            out += ([sep] if out else []) + [header, " ", m.text()]
        return mk(out)

    def js_output(self, *a):
        raise Unsupported("js_output")


CLASS_MODELS[hc.SimpleCookie] = CookieModel


class AESGCMModel:
    """Authenticated encryption: what wasn't encrypted with the key doesn't decrypt."""

    def __init__(self, key):
        self.key = key
        n = 32 if isinstance(key, SymBytes) else len(key)
        if n not in (16, 24, 32):
            raise ValueError("AESGCM key must be 128, 192, or 256 bits.")

    def _known(self):
        return cur().meta.setdefault("aesgcm", [])

    def encrypt(self, nonce, data, aad):
        load = [bytes_view(x) for x in (self.key, nonce, data, aad or b"")]
        ct = SymBytes(mk([func("aes", load, soft=True,
                               minlen=core._minlen(lift(bytes_view(data)).parts),
                               length=len(data) if isinstance(data, bytes) else None),
                          func("aestag", load, length=16, soft=True)]), "raw")
        self._known().append((load, ct, data))
        return ct

    def decrypt(self, nonce, data, aad):
        load = [bytes_view(x) for x in (self.key, nonce, aad or b"")]
        if not any(is_sym(x) for x in (self.key, nonce, data, aad)):
            return AESGCM(self.key).decrypt(nonce, data, aad)
        *text, tag = lift(bytes_view(data)).parts
        if getattr(tag, "kind", None) != "aestag":
            raise InvalidTag()      # a tag isn't made up
        for (k, n, _, a), ct, plain in self._known():
            x, y = lift(bytes_view(ct)).parts
            e = deep_eq_expr(load + [mk(text), mk([tag])], [k, n, a, mk([x]), mk([y])])
            if e is True or (e is not False and cur().branch(e)):
                return plain
        raise InvalidTag()


CLASS_MODELS[AESGCM] = AESGCMModel


@model(hashlib.new)
def m_hashlib_new(name, data=b"", **kw):
    return SymHash(name.replace("-", "").lower(), data)


@model(os.urandom)
def m_urandom(n):
    from symx.models import rnd
    return rnd(n).encode()
