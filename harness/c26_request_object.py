"""C26: request objects, by value, by reference or pushed, are the whole request, signed."""
import json

from cryptojwt.jws.jws import factory
from cryptojwt.jwk.jwk import key_from_jwk_dict
from oidcrp import oauth2
from symx.api import harness

from harness import common as c
from harness.c15_registration import Dynamic, rp

PUBLIC = [key_from_jwk_dict(k) for k in c.jwks("rp")["keys"]]


def opened(env, jws, alg):
    """What is in a request object, by the client's public keys."""
    j = factory(jws)
    env.check(j.jwt.headers["alg"] == alg, "signed as agreed")
    if alg == "none":
        return j.jwt.payload()
    cl = j.verify_compact(jws, PUBLIC, sigalg=alg)
    return json.loads(cl) if isinstance(cl, str) else cl


def party(env, http, alg=None, pkce=False, **kw):
    cid = env.str("client_id", "token", min=1)
    cfg = c.client_config(c.ISS, client_id=cid, **kw)
    if alg:
        cfg["behaviour"]["request_object_signing_alg"] = alg
    if pkce:
        cfg["add_ons"] = {"pkce": {"function": "oidcrp.oauth2.add_on.pkce.add_support",
                                   "kwargs": {"code_challenge_length": 64,
                                              "code_challenge_method": "S256"}}}
    rph = c.handler({c.ISS: cfg, c.ISS2: c.client_config(c.ISS2)}, http)
    env.set_time(c.NOW)
    return rph, c.setup(rph), cid


@harness("C26", witness=("value", "reference"))
def passed(env):
    """By value and by reference, at two sessions of one client."""
    how = env.pick("how", ["request", "request_uri"])
    alg = env.pick("alg", [None, "RS256", "ES256", "PS256", "none"])
    pkce = env.flag("pkce")
    http = c.HTTP()
    rph, cl, cid = party(env, http, alg, pkce)
    fs = c.Files()
    extra = {"login_hint": env.str("hint", "print", min=1)}
    if env.flag("claims"):
        extra["claims"] = {"id_token": {"acr": {"value": env.str("acr", "print", min=1)}}}
    asked, seen = [extra, {"prompt": "login"}], []
    with fs:
        bs = [rph.begin(c.ISS, req_args=a, behaviour_args={"request_param": how}) for a in asked]
        for b, a in zip(bs, asked):
            env.check(b["url"].split("?")[0] == c.ISS + "/authorization", "at the provider")
            q = c.query_of(b["url"])
            if how == "request":
                jws = q.pop("request")
                env.reach("value")
            else:
                uri = q.pop("request_uri")
                env.check(uri.startswith(c.BASE + "/requests/"), "where the client publishes")
                env.check(uri not in seen, "each request its own")
                seen.append(uri)
                name = uri[len(c.BASE + "/requests/"):]
                jws, = [v for k, v in fs.written.items() if k.split("/")[-1] == name]
                env.reach("reference")
            obj = opened(env, jws, alg or "RS256")
            env.check(env.eq(obj.pop("iss"), cid), "by this client")
            aud = obj.pop("aud")
            env.check(env.eq(aud if isinstance(aud, list) else [aud], [c.ISS]),
                      "for the provider alone")
            env.check(env.eq(obj.pop("iat"), c.NOW), "at this time")
            st = c.state_of(cl).get_item(dict, "auth_request", b["state"])
            env.check(env.eq(obj["state"], b["state"]), "the state of the session")
            env.check(c.state_of(cl).get_state_by_nonce(obj["nonce"]) == b["state"],
                      "the nonce of the session")
            for k, v in a.items():
                got = obj[k] if not isinstance(obj[k], str) or isinstance(v, str) else \
                    json.loads(obj[k])
                env.check(env.eq(got, v), "what was asked")
            env.check(set(obj) == set(st), "all of the request, and nothing else")
            env.check(("code_challenge" in obj) == pkce, "code challenge included")
            for k in ("client_id", "redirect_uri", "response_type", "scope"):
                env.check(env.eq(q.pop(k), obj[k]), "beside it the same as in it")
            env.check(not q, "beside it only what OAuth 2 requires")
        # and the login goes on as usual
        http.answer = c.Provider({"access_token": "at", "token_type": "Bearer",
                                  "id_token": c.id_token({"client_id": cid,
                                                          "nonce": obj["nonce"]})},
                                 {"sub": "subject"})
        env.set_time(c.NOW)
        rph.finalize_auth(cl, c.ISS, {"state": bs[1]["state"], "code": "code"})
        rph.get_tokens(bs[1]["state"])
        body = c.body_of(http.log[-1]["data"])
        env.check(env.eq(body["redirect_uri"], obj["redirect_uri"]), "the same redirect URI")
        env.check(("code_verifier" in body) == pkce, "and the verifier")


def registered(env, uris):
    http = c.HTTP()
    http.answer = d = Dynamic(lambda iss, rq: dict(rq, client_id="client-at-" + iss,
                                                   request_uris=uris(iss, rq)))
    rph = rp(http, ["code"], client_preferences={
        "response_types": ["code"], "request_uri_usable": True,
        "token_endpoint_auth_method": ["client_secret_basic"]})
    d.md = {"require_request_uri_registration": True, "request_uri_parameter_supported": True}
    env.set_time(c.NOW)
    rph.client_setup(c.ISS)
    return rph, d


@harness("C26", witness=("written", "refused"), bounds={"segments": 2}, thorough={"segments": 4})
def place(env):
    """Where the object is kept is not for the provider to say."""
    uri = c.BASE
    for i in range(env.pick("segments", list(range(1, env.b["segments"] + 2)))):
        uri = uri + "/" + env.str("segment%d" % i, "jwt")
    rph, d = registered(env, lambda iss, rq: [uri])
    fs = c.Files()
    with fs:
        b, err = c.outcome(rph.begin, c.ISS, behaviour_args={"request_param": "request_uri"})
    for f in fs.written:
        env.check(not f.startswith("/"), "below where the relying party runs")
        for seg in f.split("/"):
            env.check(seg != "..", "below where the relying party runs")
    if err is None:
        env.check(env.eq(c.query_of(b["url"])["request_uri"], uri),
                  "the address registered")
        env.check(len(fs.written) == 1, "written")
        env.reach("written")
    else:
        env.check(not fs.written, "nothing is written")
        env.reach("refused")


@harness("C26", witness=("kept",))
def registered_uri(env):
    """Each login's object at the address registered."""
    rph, d = registered(env, lambda iss, rq: [c.BASE + "/req_uri/one", c.BASE + "/req_uri/two"])
    fs = c.Files()
    with fs:
        b = [rph.begin(c.ISS, req_args={"login_hint": env.str("hint%d" % i, "print", min=1)},
                       behaviour_args={"request_param": "request_uri"}) for i in range(2)]
    env.reach("kept")
    for x in b:
        uri = c.query_of(x["url"])["request_uri"]
        env.check(uri in (c.BASE + "/req_uri/one", c.BASE + "/req_uri/two"), "a registered one")
        obj = opened(env, fs.written[uri[len(c.BASE) + 1:]], "RS256")
        env.check(env.eq(obj["state"], x["state"]), "the object of a login replaced by another's")


class Pusher(c.HTTP):
    """The HTTP client of the add-on."""

    def get(self, url, **kw):
        return self(url, "GET", **kw)

    def post(self, url, **kw):
        return self(url, "POST", **kw)

    def request(self, method, url, **kw):
        return self(url, method, **kw)


@harness("C26", witness=("pushed", "not pushed"))
def pushed(env):
    """Two logins whose requests are pushed first."""
    kind = env.pick("client", ["oidc", "oauth2"])
    fmt = env.pick("format", ["jws", "urlencoded"])
    rule = env.pick("rule", ["lax", "strict"])
    alg = env.pick("alg", [None, "ES256"]) if fmt == "jws" else None
    par = c.ISS + "/" + env.str("path", "token", min=1)
    http, push = c.HTTP(), Pusher()
    cid = env.str("client_id", "token", min=1)
    kw = {"http_client": push, "body_format": fmt, "merge_rule": rule}
    if alg:
        kw["signing_algorithm"] = alg
    cfg = c.client_config(c.ISS, client_id=cid)
    cfg["provider_info"]["pushed_authorization_request_endpoint"] = par
    cfg["add_ons"] = {
        "pushed_authorization": {
            "function": "oidcrp.oauth2.add_on.pushed_authorization.add_support", "kwargs": kw}}
    if kind == "oidc":
        rph = c.handler({c.ISS: cfg}, http)
    else:
        rph = c.handler({c.ISS: cfg}, http, c.OAUTH2_SERVICES, client_cls=oauth2.Client)
    env.set_time(c.NOW)
    cl = c.setup(rph)
    status = env.pick("status", [200, 201, 400, 500])
    for i in range(2):
        given = env.str("uri%d" % i, "print", min=1)
        push.answer = lambda u, m, k: c.Response(
            status, json.dumps({"request_uri": given, "expires_in": 60} if status < 300 else
                               {"error": "invalid_request"}))
        hint = env.str("hint%d" % i, "print", min=1)
        b = rph.begin(c.ISS, req_args={"login_hint": hint})
        env.check(len(push.log) == i + 1, "pushed once")
        env.check(env.eq(push.log[i]["url"], par), "to where the provider says")
        body = c.body_of(push.log[i]["data"])
        if fmt == "jws":
            obj = opened(env, body.pop("request"), alg or "RS256")
            env.check(env.eq(obj.pop("iss"), cid), "by this client")
            aud = obj.pop("aud")
            env.check(env.eq(aud if isinstance(aud, list) else [aud], [c.ISS]),
                      "for the provider alone")
            env.check(env.eq(obj.pop("iat"), c.NOW), "at this time")
            for k in body:
                env.check(env.eq(body[k], obj[k]), "beside it the same as in it")
        else:
            obj = body
        sent = c.state_of(cl).get_item(dict, "auth_request", b["state"])
        env.check(set(obj) == set(sent), "all of the request, and nothing else")
        env.check(env.eq(obj["state"], b["state"]), "the state of the session")
        env.check(env.eq(obj["login_hint"], hint), "what was asked")
        env.check(env.eq(obj["client_id"], cid), "by this client")
        env.check(b["url"].split("?")[0] == c.ISS + "/authorization", "at the provider")
        q = c.query_of(b["url"])
        if status < 300:
            env.check(env.eq(q.pop("request_uri"), given), "by the reference it got")
            env.check(not set(q) & {"state", "nonce", "login_hint"}, "and not a second time")
            env.reach("pushed")
        else:
            env.check("request_uri" not in q, "no reference it didn't get")
            env.reach("not pushed")
        for k in q:
            env.check(env.eq(q[k], obj[k]), "the same request")
        env.check("client_id" in q, "it says whose request it is")
        if rule == "lax" or status >= 400:
            env.check({"client_id", "response_type"} <= set(q), "with what OAuth 2 requires")
        http.answer = c.Provider({"access_token": "at%d" % i, "token_type": "Bearer"})
        if kind == "oidc":
            http.answer.token["id_token"] = c.id_token({"client_id": cid, "nonce": obj["nonce"]})
        rph.finalize_auth(cl, c.ISS, {"state": b["state"], "code": "code"})
        rph.get_tokens(b["state"])
        env.check(env.eq(c.body_of(http.log[-1]["data"])["redirect_uri"], obj["redirect_uri"]),
                  "the login goes on")
