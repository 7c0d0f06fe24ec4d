"""C09: the token request redeems the code of the session with that session's own parameters."""
from symx.api import harness

from harness import common as c
from oidcrp import oauth2


@harness("C09", witness=("done",))
def redeem(env):
    """Three sessions at two providers; codes are redeemed in any order."""
    kind = env.pick("client", ["oidc", "oauth2"])
    meth = env.pick("method", ["client_secret_basic", "client_secret_post"])
    http = c.HTTP()
    beh = {"token_endpoint_auth_method": meth}
    kw = {} if kind == "oidc" else {"client_cls": oauth2.Client}
    rph, cl1, cl2 = c.two_providers(env, http, c.OAUTH2_SERVICES if kw else None, beh, **kw)
    env.set_time(c.NOW)
    uris = ["https://rp.example.com/cb/op.example.org", "https://rp.example.com/other",
            "https://rp.example.com/cb/op2.example.net"]
    ss = []
    for i, (iss, cl) in enumerate(((c.ISS, cl1), (c.ISS, cl1), (c.ISS2, cl2))):
        args = {"redirect_uri": uris[1]} if i == 1 else None
        b = rph.begin(iss, req_args=args)
        q = c.query_of(b["url"])
        env.check(q["redirect_uri"] == uris[i], "redirect URI of the authorization request")
        code = env.str("code%d" % i, "print", min=1)
        ss.append((iss, cl, b["state"], q, code))
    order = env.pick("order", [(0, 1, 2), (2, 1, 0), (1, 0, 2)])
    for i in order:
        iss, cl, s, q, code = ss[i]
        r = {"code": code, "state": s}
        rph.finalize_auth(cl, iss, r)
    for i in order:
        iss, cl, s, q, code = ss[i]
        at = env.str("at%d" % i, "token", min=1)
        http.answer = c.Provider({"access_token": at, "token_type": "Bearer"})
        http.log.clear()
        got = rph.get_tokens(s)
        env.check(env.eq(got["access_token"], at), "the token is handed out")
        env.check(len(http.log) == 1, "one request")
        req = http.log[0]
        env.check(req["url"] == iss + "/token", "to the token endpoint of the provider")
        env.check(req["method"] == "POST", "by POST")
        env.check(req["headers"]["Content-Type"] == "application/x-www-form-urlencoded",
                  "as a form")
        body = c.body_of(req["data"])
        env.check(env.eq(body["code"], code), "the code of the session")
        env.check(body["redirect_uri"] == q["redirect_uri"],
                  "the redirect URI of the authorization request")
        env.check(body["grant_type"] == "authorization_code", "grant type")
        env.check(body["client_id"] == q["client_id"], "client ID")
        if "state" in body:
            env.check(body["state"] == s, "state of the session")
        env.check(env.eq(rph.get_valid_access_token(s)[0], at), "kept for the session")
    env.reach("done")


@harness("C09", witness=("nocode",))
def no_code_no_request(env):
    """Without an accepted response with a code there is nothing to redeem."""
    http = c.HTTP()
    rph, cl1, cl2 = c.two_providers(env, http)
    env.set_time(c.NOW)
    s = rph.begin(c.ISS)["state"]
    s2 = rph.begin(c.ISS)["state"]
    rph.finalize_auth(cl1, c.ISS, {"code": env.str("code", "token", min=1), "state": s2})
    how = env.pick("how", ["fresh", "error", "unknown"])
    if how == "error":
        rph.finalize_auth(cl1, c.ISS, {"error": "access_denied", "state": s})
    _, err = c.outcome(rph.get_tokens, "no-such-session" if how == "unknown" else s)
    env.check(err is not None, "refused")
    env.check(http.log == [], "nothing is sent")
    env.reach("nocode")
