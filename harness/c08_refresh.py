"""C08: refreshing uses the session's own current refresh token, and keeps what is not replaced."""
from symx.api import harness

from harness import common as c
from oidcrp import oauth2


@harness("C08", witness=("rotated", "kept"), bounds={"rounds": 2}, thorough={"rounds": 3})
def refresh_chain(env):
    """A chain of refreshes, some answered with new tokens: each uses the current one."""
    kind = env.pick("client", ["oidc", "oauth2"])
    meth = env.pick("method", ["client_secret_basic", "client_secret_post"])
    http = c.HTTP()
    beh = {"token_endpoint_auth_method": meth}
    if kind == "oidc":
        rph, cl1, cl2 = c.two_providers(env, http, behaviour=beh)
    else:
        rph, cl1, cl2 = c.two_providers(env, http, c.OAUTH2_SERVICES, beh,
                                        client_cls=oauth2.Client)
    env.set_time(c.NOW)
    b1, b2 = rph.begin(c.ISS), rph.begin(c.ISS)
    rts = {}
    for i, b in enumerate((b1, b2)):
        rts[i] = env.str("rt%d" % i, "token", min=1)
        tr = {"access_token": "at%d" % i, "token_type": "Bearer", "refresh_token": rts[i],
              "scope": ["openid", "granted"]}
        if kind == "oidc":
            tr["id_token"] = c.id_token(c.query_of(b["url"]), exp=c.NOW + 100)
        http.answer = c.Provider(tr)
        rph.finalize_auth(cl1, c.ISS, {"code": "code%d" % i, "state": b["state"]})
        rph.get_tokens(b["state"])
    other = c.state_of(cl1).get_state(b2["state"]).to_dict()
    cur = rts[0]
    for n in range(env.b["rounds"]):
        new = env.str("new_at%d" % n, "token", min=1)
        tr = {"access_token": new, "token_type": "Bearer"}
        rot = env.flag("rotate%d" % n)
        if rot:
            nrt = env.str("new_rt%d" % n, "token", min=1)
            tr["refresh_token"] = nrt
        http.answer = c.Provider(tr)
        http.log.clear()
        scope = env.str("scope", "token", min=1) if n == 0 and env.flag("with_scope") else ""
        got, err = c.outcome(rph.refresh_access_token, b1["state"], scope=scope)
        env.check(err is None, "a refresh with a refresh token at hand succeeds")
        env.check(len(http.log) == 1, "one request")
        req = http.log[0]
        env.check(req["url"] == c.ISS + "/token", "at the provider of the session")
        env.check(req["method"] == "POST", "by POST")
        body = c.body_of(req["data"])
        env.check(env.eq(body["refresh_token"], cur), "with the current refresh token")
        env.check(body["grant_type"] == "refresh_token", "as a refresh")
        if scope:
            env.check(env.eq(body["scope"], scope), "for the scope asked for")
        env.check("code" not in body, "not with the code")
        env.check(env.eq(got["access_token"], new), "the new access token is returned")
        env.check(env.eq(rph.get_valid_access_token(b1["state"])[0], new),
                  "and is the session's token from then on")
        if kind == "oidc":
            env.check(rph.has_active_authentication(b1["state"]),
                      "the authentication is not lost by refreshing")
        if rot:
            cur = nrt
            env.reach("rotated")
        else:
            env.reach("kept")
    env.check(env.eq(c.state_of(cl1).get_state(b2["state"]).to_dict(), other),
              "another session is unchanged")
    http.log.clear()
    rph.refresh_access_token(b2["state"])
    env.check(env.eq(c.body_of(http.log[0]["data"])["refresh_token"], rts[1]),
              "and refreshes with its own refresh token")


@harness("C08", witness=("failed",))
def failed_refresh(env):
    """An error from the provider is reported and changes nothing."""
    http = c.HTTP()
    rph, cl1, cl2 = c.two_providers(env, http)
    env.set_time(c.NOW)
    b = rph.begin(c.ISS)
    tr = {"access_token": "at", "token_type": "Bearer", "refresh_token": "rt",
          "id_token": c.id_token(c.query_of(b["url"]))}
    http.answer = c.Provider(tr)
    rph.finalize_auth(cl1, c.ISS, {"code": "code", "state": b["state"]})
    rph.get_tokens(b["state"])
    before = c.db_of(cl1)
    import json
    e = env.str("error", "token", min=1)
    status = env.pick("status", [200, 400, 401, 500, 503])
    http.answer = lambda u, m, k: c.Response(status, json.dumps(
        {"error": e, "access_token": "evil", "token_type": "Bearer"}))
    _, err = c.outcome(rph.refresh_access_token, b["state"])
    env.check(err is not None, "the error is reported")
    env.check(c.same_store(env, before, c.db_of(cl1)), "nothing is stored")
    env.check(rph.get_valid_access_token(b["state"])[0] == "at", "the old token is still there")
    env.check(rph.has_active_authentication(b["state"]), "and the authentication")
    env.reach("failed")
