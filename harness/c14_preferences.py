"""C14: only what the provider supports is chosen among the client's preferences."""
import json

from symx.api import harness

from harness import common as c
from harness.c13_discovery import fresh, metadata

SINGLE = {"id_token_signed_response_alg": "id_token_signing_alg_values_supported",
          "userinfo_signed_response_alg": "userinfo_signing_alg_values_supported",
          "request_object_signing_alg": "request_object_signing_alg_values_supported",
          "token_endpoint_auth_method": "token_endpoint_auth_methods_supported",
          "token_endpoint_auth_signing_alg": "token_endpoint_auth_signing_alg_values_supported",
          "subject_type": "subject_types_supported",
          "id_token_encrypted_response_alg": "id_token_encryption_alg_values_supported",
          "userinfo_encrypted_response_enc": "userinfo_encryption_enc_values_supported"}
LIST = {"response_types": "response_types_supported", "grant_types": "grant_types_supported",
        "default_acr_values": "acr_values_supported", "scope": "scopes_supported"}
DEFAULT = {"token_endpoint_auth_method": "client_secret_basic",
           "id_token_signed_response_alg": "RS256"}


def discovered(env, pref, values, prov, supported):
    """A client with one preference, at a provider with its metadata; nothing is sent twice."""
    http = c.HTTP()
    rph = fresh("oidc", c.ISS, http, behaviour={}, client_preferences={pref: values})
    client = rph.init_client(c.ISS)
    md = {"issuer": c.ISS}
    if supported is not None:
        md[prov] = supported
    from oidcmsg.message import Message
    srv = client.client_get("service", "provider_info")
    _, err = c.outcome(srv.update_service_context, Message(**md))
    return c.ctx(client).behaviour, err


def is_in(env, v, lst):
    return env.or_(*[env.eq(v, x) for x in lst])


@harness("C14", witness=("first", "second", "none", "unstated"))
def single_valued(env):
    """Preferences of one value: the first preferred that is supported."""
    pref = env.pick("preference", sorted(SINGLE))
    one = env.flag("as_a_string")
    p = [env.str("preferred_%d" % i, "token", min=1) for i in range(1 if one else 2)]
    s = None
    if env.flag("stated"):
        s = [env.str("supported_%d" % i, "token", min=1) for i in range(2)]
    got, err = discovered(env, pref, p[0] if one else list(p), SINGLE[pref],
                          None if s is None else list(s))
    if s is None:
        s = [DEFAULT[pref]] if pref in DEFAULT else list(p)
        env.reach("unstated")
    if err is not None:
        env.check(env.not_(env.or_(*[is_in(env, v, s) for v in p])), "a supported value is refused")
        env.check(pref not in got, "nothing is chosen")
        env.reach("none")
        return
    env.check(pref in got, "a value is chosen")
    v = got[pref]
    env.check(is_in(env, v, p), "the value was preferred")
    env.check(is_in(env, v, s), "the value is not supported by the provider")
    if len(p) == 2 and bool(is_in(env, p[0], s)):
        env.check(env.eq(v, p[0]), "the first supported value")
        env.reach("first")
    elif len(p) == 2:
        env.check(env.eq(v, p[1]), "the second value")
        env.reach("second")


@harness("C14", witness=("all", "some"))
def list_valued(env):
    """Preferences of several values: those preferred that are supported."""
    pref = env.pick("preference", sorted(LIST))
    p = [env.str("preferred_%d" % i, "token", min=1) for i in range(2)]
    s = [env.str("supported_%d" % i, "token", min=1) for i in range(2)] \
        if env.flag("stated") else None
    got, err = discovered(env, pref, list(p), LIST[pref], None if s is None else list(s))
    if s is None:
        s = list(p)
    want = [v for v in p if bool(is_in(env, v, s))]
    if err is not None:
        env.check(want == [], "a supported value is refused")
        return
    env.check(env.eq(got[pref], want), "exactly the supported values, in order of preference")
    env.reach("all" if len(want) == 2 else "some")


@harness("C14", witness=("used", "refused"))
def chosen_is_used(env):
    """The method and algorithm chosen are those registered and used at the token endpoint."""
    prefs = {"token_endpoint_auth_method": env.pick("methods", [
        ["client_secret_basic", "client_secret_post"], ["client_secret_post", "private_key_jwt"],
        ["client_secret_jwt"]]),
        "response_types": ["code"]}
    sup = env.pick("supported", [["client_secret_basic"], ["client_secret_post", "private_key_jwt"],
                                 ["private_key_jwt", "client_secret_basic"], None])
    md = metadata(c.ISS, token_endpoint_auth_methods_supported=sup)
    seen = []

    def answer(url, method, kw):
        if url.endswith("/.well-known/openid-configuration"):
            return c.Response(200, json.dumps(md))
        if url == c.ISS + "/registration":
            seen.append(json.loads(kw["data"]))
            return c.Response(201, json.dumps(dict(seen[0], client_id="cid", client_secret="sec")))
        return c.Response(200, json.dumps({"access_token": "at", "token_type": "Bearer"}))
    http = c.HTTP(answer)
    rph = fresh("oidc", c.ISS, http, behaviour={"scope": ["openid"]}, client_preferences=prefs,
                client_id="", client_secret="", redirect_uris=[])
    b, err = c.outcome(rph.begin, c.ISS)
    m = [x for x in prefs["token_endpoint_auth_method"] if x in (sup or ["client_secret_basic"])]
    if not m:
        env.check(err is not None, "no method in common, no login")
        env.check(seen == [], "nor a registration")
        env.check(rph.issuer2rp == {}, "nor a client")
        env.reach("refused")
        return
    env.check(err is None, "the login begins")
    env.check(seen[0]["token_endpoint_auth_method"] == m[0], "registered")
    env.check(seen[0]["response_types"] == ["code"], "response types")
    env.check(seen[0]["grant_types"] == ["authorization_code"], "grant types")
    http.log.clear()
    client = rph.issuer2rp[c.ISS]
    rph.finalize_auth(client, c.ISS, {"code": "c", "state": b["state"]})
    rph.get_tokens(b["state"])
    r = http.log[-1]
    body = c.body_of(r["data"])
    how = "client_secret_basic" if "Authorization" in r["headers"] else (
        "private_key_jwt" if "client_assertion" in body else "client_secret_post")
    env.check(how == m[0], "used")
    env.reach("used")
