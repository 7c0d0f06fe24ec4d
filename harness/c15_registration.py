"""C15: dynamic registration registers what is then used, and adopts what the provider issued."""
import base64
import json
from urllib.parse import quote_plus

from symx.api import harness

from harness import common as c
from harness.c13_discovery import metadata
from oidcrp.client_auth import valid_service_context

RT = ["code", "id_token", "id_token token", "code id_token", "code token", "code id_token token"]
GT = {"code": ["authorization_code"], "id_token": ["implicit"], "id_token token": ["implicit"]}


class Dynamic:
    """Providers that register clients."""

    def __init__(self, reg, md=None):
        self.reg = reg
        self.md = md or {}
        self.requests = {}

    def __call__(self, url, method, kw):
        iss = "/".join(url.split("/")[:3])
        what = url[len(iss):]
        if what == "/.well-known/openid-configuration":
            return c.Response(200, json.dumps(metadata(iss, response_types_supported=RT, **self.md)))
        if what == "/registration":
            self.requests.setdefault(iss, []).append((method, json.loads(kw["data"])))
            r = self.reg(iss, self.requests[iss][-1][1])
            return r if isinstance(r, c.Response) else c.Response(201, json.dumps(r))
        return c.Response(200, json.dumps({"access_token": "at", "token_type": "Bearer"}))


def rp(http, rtypes, **kw):
    cfg = {"client_preferences": {"response_types": rtypes, "token_endpoint_auth_method":
                                  ["client_secret_basic"]}, "redirect_uris": None,
           "behaviour": {"scope": ["openid"]}, "hash_seed": "the-seed"}
    cfg.update(kw)
    cfg = {k: v for k, v in cfg.items() if v is not None}
    return c.handler({i: dict(json.loads(json.dumps(cfg)), issuer=i) for i in (c.ISS, c.ISS2)}, http)


@harness("C15", witness=("registered",))
def uris(env):
    """The redirect URI of a login is one registered for it, and of that provider alone."""
    rtypes = [env.pick("response_type", RT)]
    if env.flag("another"):
        rtypes.append(env.pick("second", [x for x in RT if x != rtypes[0]]))
    http = c.HTTP()
    http.answer = d = Dynamic(lambda iss, rq: dict(rq, client_id="client-at-" + iss))
    rph = rp(http, rtypes)
    used = {}
    for iss in (c.ISS, c.ISS2):
        q = c.query_of(rph.begin(iss)["url"])
        (method, rq), = d.requests[iss]
        env.check(method == "POST", "registered with POST")
        env.check(q["redirect_uri"] in rq["redirect_uris"], "a redirect URI that isn't registered")
        env.check(q["redirect_uri"].startswith(c.BASE + "/"), "of the relying party")
        env.check(rq["response_types"] == rtypes, "response types registered")
        env.check(q["response_type"] == rtypes[0], "response type used")
        want = set()
        for r in rtypes:
            want.update(GT.get(r, ["authorization_code", "implicit"]))
        env.check(set(rq["grant_types"]) == want, "grant types fit the response types")
        env.check(q["client_id"] == "client-at-" + iss, "the client ID issued")
        used[iss] = set(rq["redirect_uris"])
    env.check(not used[c.ISS] & used[c.ISS2], "different redirect URIs at different providers")
    env.reach("registered")


@harness("C15", witness=("used",))
def credentials(env):
    """What the provider issued is used at that provider, and only there."""
    cid = {i: env.str("client_id_%d" % k, "token", min=1) for k, i in enumerate((c.ISS, c.ISS2))}
    sec = {i: env.str("secret_%d" % k, "token", min=1) for k, i in enumerate((c.ISS, c.ISS2))}
    http = c.HTTP()
    http.answer = d = Dynamic(lambda iss, rq: dict(rq, client_id=cid[iss], client_secret=sec[iss],
                                                   client_secret_expires_at=0))
    rph = rp(http, ["code"])
    s = {}
    for iss in (c.ISS, c.ISS2):
        b = rph.begin(iss)
        s[iss] = b["state"]
        env.check(env.eq(c.query_of(b["url"])["client_id"], cid[iss]), "client ID in the request")
    for iss in env.pick("order", [(c.ISS, c.ISS2), (c.ISS2, c.ISS)]):
        rph.finalize_auth(rph.issuer2rp[iss], iss, {"code": "c", "state": s[iss]})
        http.log.clear()
        rph.get_tokens(s[iss])
        h = http.log[0]["headers"]["Authorization"]
        want = base64.b64encode((quote_plus(cid[iss]) + ":" + quote_plus(sec[iss])).encode())
        env.check(env.eq(h, "Basic " + want.decode()), "the credentials issued there")
    rph.begin(c.ISS)
    env.check(len(d.requests[c.ISS]) == 1, "registered once")
    env.reach("used")


@harness("C15", witness=("refused",))
def refused(env):
    """Without a registration there is no client and no login."""
    how = env.pick("answer", ["error", "status", "no client_id", "text", "empty"])

    def reg(iss, rq):
        if how == "error":
            return c.Response(400, json.dumps({"error": env.str("error", "token", min=1)}))
        if how == "status":
            return c.Response(env.pick("code", [401, 403, 404, 500, 502]), "no")
        if how == "no client_id":
            return {"client_secret": "sec", "redirect_uris": rq["redirect_uris"]}
        return c.Response(200, "no" if how == "text" else "{}")
    http = c.HTTP()
    http.answer = Dynamic(reg)
    rph = rp(http, ["code"])
    b, err = c.outcome(rph.begin, c.ISS)
    env.check(err is not None, "a login without a client")
    env.check(c.ISS not in rph.issuer2rp, "the client is kept")
    env.reach("refused")


@harness("C15", witness=("both", "one"))
def keys(env):
    """Only public keys are handed out, in one way."""
    http = c.HTTP()
    http.answer = d = Dynamic(lambda iss, rq: dict(rq, client_id="cid"))
    kw = {}
    env.maybe(kw, "jwks_uri", "https://rp.example.com/jwks.json")
    env.maybe(kw, "jwks", c.jwks("rp"))
    rph = rp(http, ["code"], **kw)
    rph.begin(c.ISS)
    rq = d.requests[c.ISS][0][1]
    env.check(not ("jwks" in rq and "jwks_uri" in rq), "keys in two ways")
    if kw:
        env.check("jwks" in rq or "jwks_uri" in rq, "keys that were configured")
    if "jwks_uri" in rq:
        env.check(rq["jwks_uri"] == kw["jwks_uri"], "the address configured")
    for k in rq.get("jwks", {"keys": []})["keys"]:
        env.check("d" not in k and "k" not in k, "a secret key is handed out")
    env.reach("both" if len(kw) == 2 else "one")


@harness("C15", witness=("apart",))
def similar_issuers(env):
    """Providers whose names differ, however little, get redirect URIs of their own."""
    a, b = "https://" + env.str("a", "host", min=1), "https://" + env.str("b", "host", min=1)
    env.assume(env.not_(env.eq(a, b)))
    rtypes = env.pick("response_types", [["code"], ["id_token"], ["code", "id_token"]])
    http = c.HTTP()
    seen = []

    def answer(url, method, kw):
        if url.endswith("/.well-known/openid-configuration"):
            return c.Response(200, json.dumps(metadata(
                url[:-len("/.well-known/openid-configuration")], response_types_supported=RT,
                jwks_uri="https://keys.example.com/jwks.json")))
        seen.append(json.loads(kw["data"]))
        return c.Response(201, json.dumps(dict(seen[-1], client_id="id-%d" % len(seen))))
    http.answer = answer
    cfg = {"client_preferences": {"response_types": rtypes}, "behaviour": {"scope": ["openid"]},
           "hash_seed": "the-seed"}
    rph = c.handler({"": cfg}, http)
    q = [c.query_of(rph.begin(issuer_id=x)["url"]) for x in (a, b)]
    env.check(len(seen) == 2, "registered with both")
    for x in seen[0]["redirect_uris"]:
        for y in seen[1]["redirect_uris"]:
            env.check(env.not_(env.eq(x, y)), "a redirect URI shared by two providers")
    for i in range(2):
        env.check(env.or_(*[env.eq(q[i]["redirect_uri"], x) for x in seen[i]["redirect_uris"]]),
                  "a redirect URI registered with another provider")
        env.check(q[i]["client_id"] == "id-%d" % (i + 1), "the client ID issued there")
    env.reach("apart")


@harness("C15", witness=("valid", "expired"))
def secret_expires(env):
    """A secret is good until the time the provider gave it."""
    eta = env.int("expires_at", 0, 2 * 10 ** 9)
    http = c.HTTP()
    http.answer = Dynamic(lambda iss, rq: dict(rq, client_id="cid", client_secret="sec",
                                               client_secret_expires_at=eta))
    rph = rp(http, ["code"])
    env.set_time(c.NOW)
    client = rph.client_setup(c.ISS)
    now = env.int("now", 1, 2 * 10 ** 9)
    if env.flag("asked_for"):
        got = valid_service_context(c.ctx(client), now)
    else:
        env.set_time(now)
        got = valid_service_context(c.ctx(client))
    env.check(env.eq(got, env.or_(eta == 0, eta >= now)), "valid until it expires, 0 is never")
    env.reach("valid" if got else "expired")


@harness("C15", witness=("read",))
def read_back(env):
    """The registration is read at the address and with the token the provider issued."""
    tok = {i: env.str("token_%d" % k, "token", min=1) for k, i in enumerate((c.ISS, c.ISS2))}
    uri = {i: i + "/reg/" + env.str("uri_%d" % k, "path", min=1)
           for k, i in enumerate((c.ISS, c.ISS2))}
    http = c.HTTP()
    http.answer = Dynamic(lambda iss, rq: dict(
        rq, client_id="cid", client_secret="sec", client_secret_expires_at=0,
        registration_access_token=tok[iss], registration_client_uri=uri[iss]))
    rph = rp(http, ["code"], services=c.services(registration_read={
        "class": "oidcrp.oidc.read_registration.RegistrationRead"}))
    cl = {i: rph.client_setup(i) for i in (c.ISS, c.ISS2)}
    iss = env.pick("at", [c.ISS, c.ISS2])
    name = env.str("name", "alnum", min=1)
    http.log.clear()
    http.answer = lambda *a: c.Response(200, json.dumps(
        {"client_id": "cid", "redirect_uris": ["https://rp.example.com/x"], "client_name": name}))
    got = cl[iss].do_request("registration_read")
    env.check(len(http.log) == 1, "one request")
    r = http.log[0]
    env.check(r["method"] == "GET", "with GET")
    env.check(env.eq(r["url"], uri[iss]), "at the address issued")
    env.check(env.eq(r["headers"]["Authorization"], "Bearer " + tok[iss]), "with the token issued")
    env.check(not r["data"], "without a body")
    env.check(env.eq(got["client_name"], name), "what the provider has on record")
    env.reach("read")
