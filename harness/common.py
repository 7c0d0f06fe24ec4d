"""Shared fixtures: relying parties with fixed keys, scripted providers, token minting.

Everything here runs both under the symbolic engine and natively during replay."""
import copy
import json
import os

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import KeyJar
from oidcmsg.message import Message

from oidcrp.rp_handler import RPHandler

BASE = "https://rp.example.com"
ISS = "https://op.example.org"
ISS2 = "https://op2.example.net"

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys.json")) as _f:
    KEYS = json.load(_f)


def jwks(who, private=False):
    out = []
    for k in KEYS[who]:
        k = dict(k)
        if not private:
            for a in ("d", "p", "q", "dp", "dq", "qi"):
                k.pop(a, None)
        out.append(k)
    return {"keys": out}


_KEYOBJ = {}


def private_key(who, kty):
    k = (who, kty)
    if k not in _KEYOBJ:
        for d in KEYS[who]:
            if d["kty"] == kty:
                _KEYOBJ[k] = key_from_jwk_dict(d)
    return _KEYOBJ[k]


def impersonate(who, whom, kty="RSA"):
    """The key of one party under the name of another's."""
    d = {k["kty"]: k for k in KEYS[who]}[kty]
    return key_from_jwk_dict(dict(d, kid={k["kty"]: k for k in KEYS[whom]}[kty]["kid"]))


FORGED = {w: impersonate("evil", w) for w in KEYS}


def sign(claims, alg="RS256", who="op", secret=None):
    """A compact JWS minted by `who` (or with a shared secret)."""
    if who.startswith("as "):
        return JWS(json.dumps(claims), alg=alg).sign_compact([FORGED[who[3:]]])
    if alg == "none":
        return JWS(json.dumps(claims), alg="none").sign_compact()
    if alg.startswith("HS"):
        key = SYMKey(key=secret)
    elif alg.startswith("ES"):
        key = private_key(who, "EC")
    else:
        key = private_key(who, "RSA")
    return JWS(json.dumps(claims), alg=alg).sign_compact([key])


for _w in KEYS:
    private_key(_w, "RSA")
    private_key(_w, "EC")


class Response:
    """What the library expects from its HTTP library."""

    def __init__(self, status_code=200, text="", ctype="application/json", url="", reason="OK"):
        self.status_code = status_code
        self.text = text
        self.headers = {"content-type": ctype} if ctype else {}
        self.url = url
        self.reason = reason

    def json(self):
        return json.loads(self.text)


class HTTP:
    """Scripted HTTP library: records every request, answers from a function."""

    def __init__(self, answer=None):
        self.answer = answer
        self.log = []

    def __call__(self, url, method="GET", **kwargs):
        self.log.append({"url": url, "method": method, "data": kwargs.get("data"),
                         "headers": kwargs.get("headers") or {}, "kwargs": kwargs})
        return self.answer(url, method, kwargs)

    def send(self, url, method="GET", **kwargs):
        return self(url, method, **kwargs)


SERVICES = {
    "web_finger": {"class": "oidcrp.oidc.webfinger.WebFinger"},
    "discovery": {"class": "oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery"},
    "registration": {"class": "oidcrp.oidc.registration.Registration"},
    "authorization": {"class": "oidcrp.oidc.authorization.Authorization"},
    "access_token": {"class": "oidcrp.oidc.access_token.AccessToken"},
    "refresh_access_token": {"class": "oidcrp.oidc.refresh_access_token.RefreshAccessToken"},
    "userinfo": {"class": "oidcrp.oidc.userinfo.UserInfo"},
    "end_session": {"class": "oidcrp.oidc.end_session.EndSession"},
}

OAUTH2_SERVICES = {
    "discovery": {"class": "oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery"},
    "authorization": {"class": "oidcrp.oauth2.authorization.Authorization"},
    "access_token": {"class": "oidcrp.oauth2.access_token.AccessToken"},
    "refresh_access_token": {"class": "oidcrp.oauth2.refresh_access_token.RefreshAccessToken"},
}

SECRET = "a-secret-of-sufficient-length-0123456789"


def services(*without, **extra):
    s = copy.deepcopy(SERVICES)
    for w in without:
        s.pop(w)
    s.update(extra)
    return s


def provider_info(iss, **kw):
    pi = {"issuer": iss,
          "authorization_endpoint": iss + "/authorization",
          "token_endpoint": iss + "/token",
          "userinfo_endpoint": iss + "/userinfo",
          "registration_endpoint": iss + "/registration",
          "end_session_endpoint": iss + "/end_session"}
    pi.update(kw)
    return pi


def client_config(iss, **kw):
    c = {"issuer": iss,
         "client_id": "client-at-" + iss.split("//")[1].split(".")[0],
         "client_secret": SECRET + iss[8:11],
         "redirect_uris": ["https://rp.example.com/cb/" + iss.split("//")[1]],
         "behaviour": {"response_types": ["code"], "scope": ["openid"],
                       "token_endpoint_auth_method": "client_secret_basic"},
         "provider_info": provider_info(iss)}
    c.update(kw)
    return copy.deepcopy(c)


def handler(configs=None, http=None, srvs=None, **kw):
    """An RPHandler over fixed keys; nothing is fetched or generated on disk."""
    if configs is None:
        configs = {ISS: client_config(ISS)}
    kj = KeyJar()
    kj.import_jwks(jwks("rp", True), "")
    kj.httpc_params = {"verify": True}
    rph = RPHandler(BASE, client_configs=configs, services=srvs or services(), keyjar=kj,
                    http_lib=http or HTTP(), hash_seed="hash-seed-of-the-rp", **kw)
    return rph


def setup(rph, iss=ISS, who="op"):
    """The client for a provider whose keys are known."""
    client = rph.client_setup(iss)
    ctx(client).keyjar.import_jwks(jwks(who), iss)
    return client


def ctx(client):
    return client.client_get("service_context")


def state_of(client):
    return ctx(client).state


def query_of(url):
    """Parameters of a request URL as single values."""
    from urllib.parse import parse_qs, urlsplit
    return {k: v[0] if len(v) == 1 else v for k, v in parse_qs(urlsplit(url).query).items()}


def body_of(text):
    from urllib.parse import parse_qs
    return {k: v[0] if len(v) == 1 else v for k, v in parse_qs(text).items()}


def db_of(client):
    """A snapshot of the session store."""
    return dict(state_of(client)._db)


def same_store(env, a, b):
    """Both snapshots hold the same entries."""
    if len(a) != len(b):
        return False
    out = []
    for k in a:
        if k not in b:
            return False
        out.append(env.eq(a[k], b[k]))
    return env.and_(*out) if out else True


def outcome(fn, *a, **kw):
    """(value, None) or (None, exception)."""
    try:
        return fn(*a, **kw), None
    except Exception as err:
        return None, err


NOW = 1700000000


def id_token(q, iss=ISS, who="op", alg="RS256", secret=None, now=NOW, **claims):
    """An ID Token for the authorization request with parameters q; None drops a claim."""
    c = {"iss": iss, "sub": "subject", "aud": [q["client_id"]], "exp": now + 300, "iat": now}
    if "nonce" in q:
        c["nonce"] = q["nonce"]
    c.update(claims)
    c = {k: v for k, v in c.items() if v is not None}
    return sign(c, alg, who, secret)


class Provider:
    """A provider answering at the token and userinfo endpoints."""

    def __init__(self, token=None, userinfo=None, other=None):
        self.token = token
        self.userinfo = userinfo
        self.other = other

    def __call__(self, url, method, kw):
        for end, what in (("/token", self.token), ("/userinfo", self.userinfo)):
            if url.split("?")[0].endswith(end):
                r = what(url, method, kw) if callable(what) else what
                return r if isinstance(r, Response) else Response(200, json.dumps(r))
        if self.other:
            return self.other(url, method, kw)
        raise AssertionError("unexpected request to " + url)


def two_providers(env, http, srvs=None, behaviour=None, **kw):
    """A handler with a client at each of two providers."""
    cfg = {ISS: client_config(ISS), ISS2: client_config(ISS2)}
    if behaviour:
        for v in cfg.values():
            v["behaviour"].update(behaviour)
    rph = handler(cfg, http, srvs, **kw)
    return rph, setup(rph, ISS, "op"), setup(rph, ISS2, "op2")


class Files:
    """Stand-in for the file system while it is entered: what is written goes nowhere but into
    .written, and can be read back; other files can be read as ever."""

    def __init__(self):
        self.written = {}
        self.dirs = []

    def _find(self, name):
        for k in self.written:
            if k == name:
                return k
        return None

    def open(self, name, mode="r", *a, **kw):
        if hasattr(name, "__fspath__"):
            name = name.__fspath__()
        if not isinstance(name, str):
            return self.real["open"](name, mode, *a, **kw)
        k = self._find(name)
        if not set("wax+") & set(mode):
            return self.real["open"](name, mode, *a, **kw) if k is None else _File(self, k, mode)
        if "x" in mode and k is not None:
            raise FileExistsError(name)
        if k is None or "w" in mode:
            self.written[name if k is None else k] = b"" if "b" in mode else ""
        return _File(self, name if k is None else k, mode)

    def exists(self, name):
        return self._find(name) is not None or self.isdir(name)

    def isdir(self, name):
        return any(d == name for d in self.dirs)

    def mkdir(self, name, *a, **kw):
        self.dirs.append(name)

    def __enter__(self):
        import builtins
        import io
        self.places = [(builtins, "open", self.open), (io, "open", self.open),
                       (os.path, "exists", self.exists), (os.path, "isdir", self.isdir),
                       (os.path, "isfile", self._find), (os, "mkdir", self.mkdir),
                       (os, "makedirs", self.mkdir)]
        self.real = {"open": builtins.open}
        self.undo = [(o, n, getattr(o, n)) for o, n, _ in self.places]
        for o, n, f in self.places:
            setattr(o, n, f)
        return self

    def __exit__(self, *a):
        for o, n, f in self.undo:
            setattr(o, n, f)


class _File:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode

    def write(self, text):
        self.fs.written[self.name] = self.fs.written[self.name] + text
        return len(text)

    def read(self, *a):
        t = self.fs.written[self.name]
        if "b" in self.mode:
            return t if not isinstance(t, str) else t.encode()
        return t if isinstance(t, str) else t.decode()

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None
