"""C13: provider metadata is taken only from the provider asked, and then used."""
import json

from symx.api import harness

from harness import common as c
from oidcrp import oauth2


def metadata(iss, **kw):
    pi = c.provider_info(iss, jwks_uri=iss + "/jwks.json",
                         response_types_supported=["code"], grant_types_supported=["authorization_code"],
                         subject_types_supported=["public"],
                         id_token_signing_alg_values_supported=["RS256"])
    pi.update(kw)
    return {k: v for k, v in pi.items() if v is not None}


def fresh(kind, asked, http, **kw):
    cfg = c.client_config(c.ISS)
    del cfg["provider_info"]
    cfg["issuer"] = asked
    cfg.update(kw)
    a = {} if kind == "oidc" else {"client_cls": oauth2.Client}
    return c.handler({asked: cfg}, http, c.OAUTH2_SERVICES if a else None, **a)


def same_provider(env, a, b):
    """The same issuer, but for a slash at the end."""
    b = b.rstrip("/")
    return env.or_(env.eq(a, b), env.eq(a, b + "/"))


@harness("C13", witness=("accepted", "refused"))
def issuer(env):
    """Metadata counts only with the issuer that was asked; then the client goes by it."""
    kind = env.pick("client", ["oidc", "oauth2"])
    asked = env.pick("asked", [c.ISS, c.ISS + "/", c.ISS + "/tenant", c.ISS + "/some/tenant/"])
    allow = env.pick("issuer_mismatch", [None, False]) if asked == c.ISS else None
    said = "https://" + env.str("said", "path")
    md = metadata(c.ISS, issuer=said, registration_endpoint=None)
    http = c.HTTP(lambda *a: c.Response(200, json.dumps(md)))
    kw = {} if allow is None else {"allow": {"issuer_mismatch": allow}}
    rph = fresh(kind, asked, http, **kw)
    client, err = c.outcome(rph.client_setup, asked)
    env.check(len(http.log) == 1, "one request")
    env.check(env.eq(http.log[0]["url"], asked.rstrip("/") + "/.well-known/openid-configuration"),
              "to the provider asked")
    env.check(http.log[0]["method"] == "GET", "with GET")
    if err is None:
        env.check(same_provider(env, said, asked), "metadata of another issuer is accepted")
        cx = c.ctx(client)
        env.check(env.eq(cx.issuer, said), "the issuer is as the provider writes it")
        env.check(env.eq(cx.provider_info["issuer"], said), "metadata is kept")
        env.check(all(x is client for x in rph.issuer2rp.values()), "one client")
        again, err = c.outcome(rph.client_setup, asked)
        env.check(again is client and len(http.log) == 1, "it is set up once")
        env.reach("accepted")
    else:
        env.check(env.not_(same_provider(env, said, asked)), "metadata of the provider is refused")
        env.check(len(rph.issuer2rp) == 0, "no client is kept")
        env.reach("refused")


@harness("C13", witness=("refused",))
def refusal_leaves_nothing(env):
    """Metadata of another issuer leaves neither endpoints nor keys behind."""
    kind = env.pick("client", ["oidc", "oauth2"])
    said = env.str("said", "host", min=1)
    env.assume(env.not_(env.eq("https://" + said, c.ISS)))
    http = c.HTTP(lambda *a: c.Response(200, json.dumps(
        metadata("https://" + said, **({"jwks": c.jwks("op2")} if kind == "oauth2" else {})))))
    rph = fresh(kind, c.ISS, http)
    client = rph.init_client(c.ISS)
    _, err = c.outcome(rph.do_provider_info, client)
    env.check(err is not None, "metadata of another issuer is accepted")
    cx = c.ctx(client)
    env.check(cx.issuer == c.ISS, "issuer as before")
    env.check(not cx.provider_info, "no metadata")
    for s in client.client_get("services").values():
        env.check(not s.endpoint, "no endpoint")
    env.check(cx.keyjar.owners() == rph.keyjar.owners(), "no keys")
    env.reach("refused")


@harness("C13", witness=("error", "incomplete"))
def no_metadata(env):
    """An error, or metadata without what is required, makes no client."""
    kind = env.pick("client", ["oidc", "oauth2"])
    how = env.pick("answer", ["error", "status", "issuer", "authorization_endpoint", "jwks_uri",
                              "response_types_supported", "text"])
    def answer(url, method, kw):
        if how == "error":
            return c.Response(400, json.dumps({"error": env.str("error", "token", min=1)}))
        if how == "status":
            return c.Response(env.pick("code", [401, 404, 500, 503, 302]), "no")
        if how == "text":
            return c.Response(200, "no")
        return c.Response(200, json.dumps(metadata(c.ISS, **{how: None})))
    http = c.HTTP(answer)
    rph = fresh(kind, c.ISS, http)
    _, err = c.outcome(rph.client_setup, c.ISS)
    if kind == "oauth2" and how in ("authorization_endpoint", "jwks_uri"):
        return
    env.check(err is not None, "a client without metadata")
    env.check(len(rph.issuer2rp) == 0, "no client is kept")
    env.check(all("/.well-known/" in x["url"] for x in http.log), "nothing else is asked")
    env.reach("error" if how in ("error", "status", "text") else "incomplete")


@harness("C13", witness=("used",))
def endpoints(env):
    """Requests go where the metadata says, whatever the addresses."""
    how = env.pick("metadata", ["discovered", "configured", "rediscovered"])
    e = {k: "https://www.example.org/" + env.str(k, "path", min=1)
         for k in ("authorization_endpoint", "token_endpoint", "userinfo_endpoint",
                   "end_session_endpoint")}
    e["revocation_endpoint"] = "https://nowhere.example.org/"
    md = metadata(c.ISS, registration_endpoint=None, **e)
    del md["jwks_uri"]
    if how != "configured":
        md["jwks_uri"] = c.ISS + "/jwks"

    now = {}

    def answer(url, method, kw):
        if url.startswith(c.ISS):
            return c.Response(200, json.dumps(now or md))
        if method == "POST":
            return c.Response(200, json.dumps({"access_token": "at", "token_type": "Bearer"}))
        return c.Response(200, json.dumps({"sub": "subject"}))
    http = c.HTTP(answer)
    if how == "discovered":
        rph = fresh("oidc", c.ISS, http)
    elif how == "rediscovered":
        # the provider has moved since it was asked first
        now.update(metadata(c.ISS, registration_endpoint=None))
        rph = fresh("oidc", c.ISS, http)
        client = rph.client_setup(c.ISS)
        now.clear()
        client.do_request("provider_info")
    else:
        rph = c.handler({c.ISS: c.client_config(c.ISS, provider_info=md)}, http)
    b = rph.begin(c.ISS)
    env.check(env.eq(b["url"].split("?")[0], e["authorization_endpoint"]),
              "authorization request goes elsewhere")
    http.log.clear()
    rph.finalize(c.ISS, {"state": b["state"], "code": "code"})
    env.check(len(http.log) == 2, "two requests")
    env.check(env.eq(http.log[0]["url"], e["token_endpoint"]), "token request goes elsewhere")
    env.check(env.eq(http.log[1]["url"], e["userinfo_endpoint"]), "user info request goes elsewhere")
    env.check(env.eq(rph.logout(b["state"])["url"].split("?")[0], e["end_session_endpoint"]),
              "logout request goes elsewhere")
    env.reach("used")
