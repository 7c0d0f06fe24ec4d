"""C11: the client authenticates as itself, with the configured method, and leaks nothing else."""
import base64
import json
from urllib.parse import quote_plus

from cryptojwt.jws.jws import factory as jws_factory
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from symx.api import harness

from harness import common as c
from oidcrp import oauth2

JWT_BEARER = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"


def do(env, rph, http, client, what):
    b = rph.begin(c.ISS)
    s = b["state"]
    rph.finalize_auth(client, c.ISS, {"code": "code-1", "state": s})
    http.answer = c.Provider({"access_token": "at", "token_type": "Bearer",
                              "refresh_token": "rt-1"})
    http.log.clear()
    rph.get_tokens(s)
    if what == "refresh":
        http.log.clear()
        rph.refresh_access_token(s)
    env.check(len(http.log) == 1, "one request")
    return http.log[0], c.body_of(http.log[0]["data"])


@harness("C11", witness=("basic", "post"))
def secrets(env):
    """Basic and post carry exactly the client's ID and secret, and nothing carries it otherwise."""
    kind = env.pick("client", ["oidc", "oauth2"])
    meth = env.pick("method", ["client_secret_basic", "client_secret_post"])
    what = env.pick("request", ["code", "refresh"])
    cid = env.str("client_id", "print", min=1)
    secret = env.str("client_secret", "print", min=1)
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS].update(client_id=cid, client_secret=secret)
    cfg[c.ISS]["behaviour"]["token_endpoint_auth_method"] = meth
    kw = {} if kind == "oidc" else {"client_cls": oauth2.Client}
    rph = c.handler(cfg, http, c.OAUTH2_SERVICES if kw else None, **kw)
    client = c.setup(rph)
    env.set_time(c.NOW)
    req, body = do(env, rph, http, client, what)
    env.check("client_assertion" not in body, "no assertion")
    if meth == "client_secret_basic":
        h = req["headers"]["Authorization"]
        env.check(h.startswith("Basic "), "Basic authentication")
        want = base64.b64encode((quote_plus(cid) + ":" + quote_plus(secret)).encode()).decode()
        env.check(env.eq(h[len("Basic "):], want),
                  "client ID and secret, form-encoded, separated by a colon, in base64")
        env.check("client_secret" not in body, "the secret is not repeated in the body")
        if what == "code":
            env.check(env.eq(body["client_id"], cid), "client ID")
        env.reach("basic")
    else:
        env.check(env.eq(body["client_secret"], secret), "the secret is in the body")
        env.check(env.eq(body["client_id"], cid), "with the client ID")
        env.check("Authorization" not in req["headers"], "not in a header as well")
        env.reach("post")


@harness("C11", witness=("secret", "private"))
def assertions(env):
    """Signed assertions: by the client, for the endpoint, with the agreed algorithm and key."""
    kind = env.pick("client", ["oidc", "oauth2"])
    meth = env.pick("method", ["client_secret_jwt", "private_key_jwt"])
    what = env.pick("request", ["code", "refresh"])
    family = ["HS256", "HS384", "HS512"] if meth == "client_secret_jwt" else \
        ["RS256", "ES256", "RS512"]
    where = env.pick("algorithm_from", ["default", "preference", "registration", "provider",
                                        "provider_mixed"])
    conf = {}
    alg = None
    cid = "client-at-op"
    secret = c.SECRET + c.ISS[8:11]
    if meth == "client_secret_jwt" and kind == "oidc" and env.flag("long_secret"):
        secret = "".join("%s-%d-" % (c.SECRET, i) for i in range(5))
    conf["client_secret"] = secret
    # see unstated_algorithm
    env.assume(not (meth == "client_secret_jwt" and where == "default"))
    if where == "preference":
        alg = env.pick("alg", family)
        conf["client_preferences"] = {"token_endpoint_auth_signing_alg": alg}
    elif where == "provider":
        alg = env.pick("alg", family)
        conf["provider_info"] = c.provider_info(
            c.ISS, token_endpoint_auth_signing_alg_values_supported=[alg])
    elif where == "provider_mixed":
        lst = env.pick("list", [["RS256", "HS256"], ["HS256", "RS256"]])
        alg = "HS256" if meth == "client_secret_jwt" else "RS256"
        conf["provider_info"] = c.provider_info(
            c.ISS, token_endpoint_auth_signing_alg_values_supported=lst)
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS, **conf)}
    cfg[c.ISS]["behaviour"]["token_endpoint_auth_method"] = meth
    kw = {} if kind == "oidc" else {"client_cls": oauth2.Client}
    rph = c.handler(cfg, http, c.OAUTH2_SERVICES if kw else None, **kw)
    client = c.setup(rph)
    if where == "registration":
        rr = {"client_id": cid}
        if meth == "client_secret_jwt" or env.flag("echoed"):
            alg = env.pick("alg", family)
            rr["token_endpoint_auth_signing_alg"] = alg
        c.ctx(client).set("registration_response", rr)
    now = env.int("now", 1600000000, 1900000000)
    env.set_time(now)
    req, body = do(env, rph, http, client, what)
    env.check("client_secret" not in body, "the secret is not sent")
    env.check(not req["headers"].get("Authorization"), "nor in a header")
    env.check(body["client_assertion_type"] == JWT_BEARER, "assertion type")
    jws = jws_factory(body["client_assertion"])
    used = jws.jwt.headers["alg"]
    env.check(used == alg if alg else used in family, "signed with an algorithm of the method")
    if meth == "client_secret_jwt":
        key = SYMKey(key=secret)
        env.reach("secret")
    else:
        key = c.private_key("rp", "EC" if used.startswith("ES") else "RSA")
        env.reach("private")
    info = JWS(alg=used).verify_compact(body["client_assertion"], [key])
    env.check(info["iss"] == cid and info["sub"] == cid, "by and about the client")
    aud = info["aud"]
    env.check(aud == c.ISS + "/token" or aud == [c.ISS + "/token"], "for the token endpoint")
    env.check(bool(info["jti"]), "with an ID")
    env.check(info["exp"] > now, "not expired")
    env.check(info["exp"] <= now + 3600, "and not for long")
    env.check(env.eq(info["iat"], now), "issued now")


@harness("C11", witness=("unique",))
def assertions_are_not_reused(env):
    """Every request carries an assertion of its own."""
    meth = env.pick("method", ["client_secret_jwt", "private_key_jwt"])
    http = c.HTTP()
    alg = "HS256" if meth == "client_secret_jwt" else "RS256"
    cfg = {c.ISS: c.client_config(c.ISS,
                                  client_preferences={"token_endpoint_auth_signing_alg": alg})}
    cfg[c.ISS]["behaviour"]["token_endpoint_auth_method"] = meth
    rph = c.handler(cfg, http)
    client = c.setup(rph)
    env.set_time(c.NOW)
    ids = []
    for i in range(3):
        req, body = do(env, rph, http, client, "code")
        ids.append(jws_factory(body["client_assertion"]).jwt.payload()["jti"])
    env.check(len(set(ids)) == 3, "different IDs")
    env.reach("unique")


@harness("C11", witness=("missing",))
def no_secret_no_request(env):
    """A method that needs a secret or key the client lacks does not send a bare request."""
    meth = env.pick("method", ["client_secret_post", "no_such_method"])
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS)}
    if meth == "client_secret_post":
        del cfg[c.ISS]["client_secret"]
    cfg[c.ISS]["behaviour"]["token_endpoint_auth_method"] = meth
    rph = c.handler(cfg, http)
    client = c.setup(rph)
    env.set_time(c.NOW)
    b = rph.begin(c.ISS)
    rph.finalize_auth(client, c.ISS, {"code": "code-1", "state": b["state"]})
    _, err = c.outcome(rph.get_tokens, b["state"])
    env.check(err is not None, "reported")
    env.check(http.log == [], "nothing is sent")
    env.reach("missing")


@harness("C11", witness=("unstated",))
def unstated_algorithm(env):
    """client_secret_jwt where nobody states an algorithm: an HMAC."""
    kind = env.pick("client", ["oidc", "oauth2"])
    registered = env.flag("registered")
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS]["behaviour"]["token_endpoint_auth_method"] = "client_secret_jwt"
    kw = {} if kind == "oidc" else {"client_cls": oauth2.Client}
    rph = c.handler(cfg, http, c.OAUTH2_SERVICES if kw else None, **kw)
    client = c.setup(rph)
    if registered:
        c.ctx(client).set("registration_response", {"client_id": "client-at-op"})
    env.set_time(c.NOW)
    env.reach("unstated")
    req, body = do(env, rph, http, client, "code")
    used = jws_factory(body["client_assertion"]).jwt.headers["alg"]
    env.check(used in ["HS256", "HS384", "HS512"],
              "client_secret_jwt without a stated algorithm is not signed with an HMAC")
