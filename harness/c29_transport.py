"""C29: what goes over the wire goes the way the application configured, and nowhere else."""
import json

from cryptojwt.key_jar import KeyJar
from oidcrp import rp_handler
from oidcrp.rp_handler import RPHandler
from requests import Session
from symx.api import harness

from harness import common as c
from harness.c13_discovery import metadata

KEYS = "https://keys.example.com/jwks.json"


class Net:
    """Stands in for the network: every request made with the HTTP library ends up here,
    with what it means to it."""

    def __init__(self, answer=None):
        self.answer = answer
        self.log = []

    def request(self, session, method, url, **kw):
        for what in ("verify", "cert"):
            v = kw.pop(what, None)
            if v is None:
                v = getattr(session, what)
            if v is not None:
                kw[what] = v
        kw.setdefault("allow_redirects", True)
        self.log.append((method, url, {k: v for k, v in kw.items() if v is not None}))
        r = self.answer(url, method, kw)
        return r if isinstance(r, c.Response) else c.Response(200, json.dumps(r))

    def __enter__(self):
        self.saved = Session.request
        Session.request = lambda session, method, url, **kw: self.request(session, method, url, **kw)
        return self

    def __exit__(self, *a):
        Session.request = self.saved


def party(configs, own_keys=False, **kw):
    """An RPHandler with the HTTP library that comes with it."""
    def keys(**spec):
        kj = KeyJar()
        kj.import_jwks(c.jwks("rp", True), "")
        return kj

    if own_keys:
        return RPHandler(c.BASE, client_configs=configs, services=c.services(),
                         hash_seed="hash-seed-of-the-rp", **kw)
    saved = rp_handler.init_key_jar
    rp_handler.init_key_jar = keys
    try:
        return RPHandler(c.BASE, client_configs=configs, services=c.services(),
                         hash_seed="hash-seed-of-the-rp", **kw)
    finally:
        rp_handler.init_key_jar = saved


def dynamic():
    return {"issuer": c.ISS, "redirect_uris": ["https://rp.example.com/cb"],
            "client_preferences": {"response_types": ["code"],
                                   "token_endpoint_auth_method": ["client_secret_basic"]},
            "behaviour": {"scope": ["openid"]}}


class Op:
    """A provider with everything."""

    def __init__(self, **kw):
        self.token = None
        self.more = kw

    def __call__(self, url, method, kw):
        if url == KEYS:
            r = c.Response(200, json.dumps(c.jwks("op")))
            r.headers["Content-Type"] = "application/json"
            return r
        what = url.split("?")[0][len(c.ISS):]
        if what == "/.well-known/openid-configuration":
            return metadata(c.ISS, jwks_uri=KEYS)
        if what == "/registration":
            return c.Response(201, json.dumps(dict(json.loads(kw["data"]), client_id="client-at-op",
                                                   client_secret=c.SECRET)))
        if what == "/token":
            return self.token
        if what == "/userinfo":
            return self.more.get("userinfo") or {"sub": "subject"}
        return self.more["other"](url, method, kw)


def login(rph, op, **more):
    b = rph.begin(c.ISS)
    q = c.query_of(b["url"])
    op.token = dict({"access_token": "at-1", "token_type": "Bearer", "refresh_token": "rt-1",
                     "id_token": c.id_token(q)}, **more)
    return b["state"], rph.finalize(c.ISS, {"state": b["state"], "code": "code-1"})


@harness("C29", witness=("default", "configured"))
def configured(env):
    """Certificates are verified, redirects not followed: or whatever was configured."""
    how = env.pick("how", ["default", "verify_ssl", "httpc_params", "time limit", "proxies"])
    kw, want = {}, {"verify": True}
    if how == "verify_ssl":
        kw["verify_ssl"] = want["verify"] = env.flag("verify")
    elif how == "httpc_params":
        want = {"verify": "/etc/ssl/" + env.str("ca", "host", min=1),
                "timeout": env.int("timeout", 1, 10 ** 6)}
        if env.flag("with_certificate"):
            want["cert"] = ("/etc/ssl/" + env.str("cert", "host", min=1), "/etc/ssl/key")
        kw["httpc_params"] = dict(want)
    elif how == "time limit":
        want["timeout"] = env.int("timeout", 1, 10 ** 6)
        kw["httpc_params"] = {"timeout": want["timeout"]}
    elif how == "proxies":
        want["proxies"] = {"https": "http://" + env.str("proxy", "host", min=1)}
        kw["httpc_params"] = {"proxies": want["proxies"]}
    env.set_time(c.NOW)
    op = Op(userinfo={"sub": "subject", "_claim_names": {"age": "src1", "email": "src2"},
                      "_claim_sources": {
                          "src1": {"endpoint": "https://a.example.com/c", "access_token": "t"},
                          "src2": {"endpoint": "https://b.example.com/c"}}},
            other=lambda url, *a: {"subject": "acct:u@example.net", "links": [
                {"rel": "http://openid.net/specs/connect/1.0/issuer", "href": c.ISS}]}
            if "webfinger" in url else {"age": "7", "email": "a@b"})
    with Net(op) as net:
        rph = party({c.ISS: dynamic(), "": dynamic()}, **kw)
        rph.do_webfinger("u@example.net")
        s, res = login(rph, op)
        env.check(res["userinfo"]["sub"] == "subject", "logged in")
        client = rph.issuer2rp[c.ISS]
        client.fetch_distributed_claims(res["userinfo"])
        op.token = {"access_token": "at-2", "token_type": "Bearer"}
        rph.refresh_access_token(s)
    seen = [u.split("?")[0] for _, u, _ in net.log]
    for u in ["https://example.net/.well-known/webfinger", c.ISS + "/.well-known/openid-configuration", c.ISS + "/registration",
              c.ISS + "/token", c.ISS + "/userinfo", KEYS, "https://a.example.com/c",
              "https://b.example.com/c"]:
        env.check(u in seen, "asked")
    for method, url, args in net.log:
        for k, v in want.items():
            env.check(k in args and env.eq(args[k], v), "a request goes out as configured")
        env.check("cert" in want or "cert" not in args, "and not otherwise")
        if url != KEYS:
            env.check(args["allow_redirects"] is False, "redirects aren't followed")
    env.reach("default" if how == "default" else "configured")


@harness("C29", witness=("apart",))
def nothing_left_behind(env):
    """A request carries what is its own, and nothing of those before it."""
    code = env.str("code", "token", min=1)
    at = env.str("at", "token", min=1)
    rt = env.str("rt", "token", min=1)
    tok = env.str("own", "token", min=1)
    order = env.pick("order", ["plain last", "plain first"])
    names = {"age": "src1", "email": "src2"}
    src = {"src1": {"endpoint": "https://a.example.com/c", "access_token": tok},
           "src2": {"endpoint": "https://b.example.com/c"}}
    if order == "plain first":
        src = {"src2": src["src2"], "src1": src["src1"]}
    env.set_time(c.NOW)
    op = Op(userinfo={"sub": "subject", "_claim_names": names, "_claim_sources": src},
            other=lambda *a: {"age": "7", "email": "a@b"})
    with Net(op) as net:
        rph = party({c.ISS: dynamic()})
        b = rph.begin(c.ISS)
        q = c.query_of(b["url"])
        op.token = {"access_token": at, "token_type": "Bearer", "refresh_token": rt,
                    "id_token": c.id_token(q)}
        res = rph.finalize(c.ISS, {"state": b["state"], "code": code})
        client = rph.issuer2rp[c.ISS]
        for i in range(env.pick("times", [1, 2])):
            client.fetch_distributed_claims(res["userinfo"])
        op.token = {"access_token": "at-2", "token_type": "Bearer"}
        rph.refresh_access_token(b["state"])
        rph.get_user_info(b["state"], access_token="at-2")
    n = 0
    for method, url, args in net.log:
        h = args.get("headers") or {}
        data = args.get("data")
        a = h.get("Authorization")
        if url == c.ISS + "/token":
            env.check(method == "POST", "method")
            body = c.body_of(data)
            n += 1
            if n == 1:
                env.check(env.eq(body["code"], code), "the code")
                env.check("refresh_token" not in body, "nothing else")
            else:
                env.check(env.eq(body["refresh_token"], rt), "the refresh token")
                env.check("code" not in body, "nothing else")
            env.check(a.startswith("Basic "), "the client")
        elif url == c.ISS + "/registration":
            env.check(method == "POST" and a is None, "registration")
        else:
            env.check(method == "GET" and not data, "nothing but a question")
            if url == c.ISS + "/userinfo":
                want = "Bearer at-2" if n == 2 else "Bearer " + at
                env.check(env.eq(a, want), "the access token")
            elif url == "https://a.example.com/c":
                env.check(env.eq(a, "Bearer " + tok), "the source's own token")
            else:
                env.check(a is None, "no token where none belongs")
    env.check(n == 2, "both asked for")
    env.reach("apart")


@harness("C29", witness=("elsewhere",))
def redirected(env):
    """Where an answer points isn't followed: nothing goes to another host."""
    where = env.pick("where", ["/.well-known/openid-configuration", "/registration", "/token",
                               "/userinfo", "refresh"])
    status = env.int("status", 300, 399)
    to = "https://" + env.str("to", "host", min=1)
    op = Op()
    on = {"": where != "refresh"}

    def answer(url, method, kw):
        if on[""] and url.split("?")[0] == c.ISS + (where if where != "refresh" else "/token"):
            r = c.Response(status, json.dumps(op(url, method, kw)) if where == "/token" else "{}")
            r.headers["location"] = to
            return r
        return op(url, method, kw)
    env.set_time(c.NOW)
    with Net(answer) as net:
        rph = party({c.ISS: dynamic()})
        if where == "refresh":
            s, _ = login(rph, op)
            on[""] = True
            before = c.db_of(rph.issuer2rp[c.ISS])
            _, err = c.outcome(rph.refresh_access_token, s)
            env.check(c.same_store(env, before, c.db_of(rph.issuer2rp[c.ISS])), "nothing changes")
        else:
            _, err = c.outcome(login, rph, op)
    env.check(err is not None, "not a success")
    for m, u, a in net.log:
        env.check(u.startswith(c.ISS + "/") or u == KEYS, "only the provider is asked")
        env.check(u == KEYS or a["allow_redirects"] is False, "redirects aren't followed")
    env.reach("elsewhere")


@harness("C29", witness=("kept",))
def cookies(env):
    """A cookie of one host is not sent to another."""
    v = env.str("value", "alnum", min=1)
    attrs = env.pick("attributes", ["", "; Path=/", "; Domain=op.example.org", "; Max-Age=0",
                                    "; Expires=Wed, 21 Oct 2065 07:28:00 GMT; Secure"])
    op = Op(userinfo={"sub": "subject", "_claim_names": {"age": "src1"},
                      "_claim_sources": {"src1": {"endpoint": "https://a.example.com/c"}}},
            other=lambda *a: {"age": "7"})

    def answer(url, method, kw):
        r = op(url, method, kw)
        r = r if isinstance(r, c.Response) else c.Response(200, json.dumps(r))
        if url.startswith(c.ISS):
            r.headers["set-cookie"] = "session=" + v + attrs
        return r
    env.set_time(c.NOW)
    with Net(answer) as net:
        rph = party({c.ISS: dynamic()})
        _, res = login(rph, op)
        rph.issuer2rp[c.ISS].fetch_distributed_claims(res["userinfo"])
    env.check("https://a.example.com/c" in [u for _, u, _ in net.log], "asked")
    for m, u, a in net.log:
        if not u.startswith(c.ISS):
            env.check(not a.get("cookies"), "a cookie is sent to another host")
            env.check("cookie" not in {k.lower() for k in a.get("headers") or {}}, "in a header")
    env.reach("kept")


@harness("C29", witness=("changed",))
def callback(env):
    """What the application's callback makes of a request is what is sent."""
    extra = env.str("extra", "token", min=1)
    calls = []

    def cb(method, url, **kw):
        calls.append((method, url))
        kw["headers"] = dict(kw.get("headers") or {}, **{"X-Trace": extra})
        kw["timeout"] = 5
        return kw

    op = Op()
    env.set_time(c.NOW)
    with Net(op) as net:
        rph = party({c.ISS: dynamic()})
        client = rph.init_client(c.ISS)
        client.http.req_callback = cb
        rph.do_provider_info(client)
        rph.do_client_registration(client, c.ISS)
    sent = [x for x in net.log if x[1] != KEYS]
    env.check(len(sent) == 2, "asked")
    env.check([(m, u) for m, u, _ in sent] == calls, "for every request")
    for m, u, a in sent:
        env.check(env.eq(a["headers"]["X-Trace"], extra), "its header")
        env.check(a["timeout"] == 5, "its timeout")
        env.check(a["allow_redirects"] is False and a["verify"] is True, "as configured otherwise")
    env.check(sent[1][2]["headers"]["Content-Type"] == "application/json", "what was there stays")
    env.reach("changed")
