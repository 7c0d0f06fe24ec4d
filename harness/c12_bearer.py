"""C12: which access token is presented at the user info endpoint, and how."""
import json

from symx.api import harness

from harness import common as c


def at_userinfo(env, http, token):
    """One request to the user info endpoint, with the token as bearer token in the header."""
    env.check(len(http.log) == 1, "one request")
    r = http.log[0]
    env.check(r["url"] == c.ISS + "/userinfo", "at the user info endpoint, token not in the URL")
    env.check(env.eq(r["headers"]["Authorization"], "Bearer " + token),
              "the token as bearer token in the header")
    if r["data"]:
        env.check("access_token" not in c.body_of(r["data"]), "not in the body")


@harness("C12", witness=("front", "back", "refreshed", "explicit"))
def latest_token(env):
    """The most recent token of the session, unless one is given."""
    rtype = env.pick("response_type", ["code", "code token", "token"])
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS]["behaviour"]["response_types"] = [rtype]
    rph = c.handler(cfg, http)
    client = c.setup(rph)
    env.set_time(c.NOW)
    s = rph.begin(c.ISS)["state"]
    other = rph.begin(c.ISS)["state"]
    info = {"sub": "subject"}
    latest = None
    r = {"state": s}
    if "code" in rtype:
        r["code"] = "code-1"
    if "token" in rtype:
        latest = env.str("front_token", "token", min=1)
        r.update(access_token=latest, token_type="Bearer")
        env.reach("front")
    rph.finalize_auth(client, c.ISS, r)
    if "code" in rtype and env.flag("redeem"):
        latest = env.str("back_token", "token", min=1)
        http.answer = c.Provider({"access_token": latest, "token_type": "Bearer",
                                  "refresh_token": "rt"}, info)
        rph.get_tokens(s)
        env.reach("back")
        if env.flag("refresh"):
            latest = env.str("new_token", "token", min=1)
            http.answer = c.Provider({"access_token": latest, "token_type": "Bearer"}, info)
            rph.refresh_access_token(s)
            env.reach("refreshed")
    # a token of another session is not used
    rph.finalize_auth(client, c.ISS, {"state": other, "code": "code-2", "access_token": "foreign",
                                      "token_type": "Bearer"})
    http.answer = c.Provider(None, info)
    http.log.clear()
    how = env.pick("how", ["session", "explicit", "service", "headers"])
    if how == "headers":
        # the authentication method alone, for whoever makes the request themselves
        h, err = c.outcome(client.client_get("service", "userinfo").get_headers, None,
                           "GET", authn_method="bearer_header", key=s)
        if latest is None:
            env.check(err is not None, "no token, no header")
        else:
            env.check(err is None, "a header")
            env.check(env.eq(h["Authorization"], "Bearer " + latest), "with the latest token")
        return
    if how == "explicit":
        tok = env.str("explicit", "token", min=1)
        rph.get_user_info(s, access_token=tok)
        at_userinfo(env, http, tok)
        env.reach("explicit")
    else:
        if how == "session":
            got, err = c.outcome(rph.get_user_info, s)
        else:
            got, err = c.outcome(client.do_request, "userinfo", state=s)
        if latest is None:
            env.check(err is not None, "no token, no request")
            env.check(http.log == [], "nothing is sent")
        else:
            env.check(err is None, "user info is fetched")
            at_userinfo(env, http, latest)


@harness("C12", witness=("done",))
def finalize_uses_the_token_of_the_login(env):
    """The request for user info at the end of a login carries the token of that login."""
    rtype = env.pick("response_type", ["code", "id_token token", "code token", "code id_token",
                                       "code id_token token"])
    collect = env.flag("collect_tokens")
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS]["behaviour"]["response_types"] = [rtype]
    rph = c.handler(cfg, http)
    client = c.setup(rph)
    env.set_time(c.NOW)
    b = rph.begin(c.ISS)
    q = c.query_of(b["url"])
    front = env.str("front_token", "token", min=1)
    back = env.str("back_token", "token", min=1)
    from cryptojwt.jws.utils import left_hash
    r, h = {"state": b["state"]}, {}
    if "code" in rtype:
        r["code"] = "code-1"
        h["c_hash"] = left_hash("code-1", "HS256")
    if " token" in rtype:
        r.update(access_token=front, token_type="Bearer")
        h["at_hash"] = left_hash(front, "HS256")
    if "id_token" in rtype:
        r["id_token"] = c.id_token(q, **h)
    http.answer = c.Provider({"access_token": back, "token_type": "Bearer",
                              "id_token": c.id_token(q)}, {"sub": "subject"})
    args = {"collect_tokens": True} if collect and "code" in rtype else None
    got, err = c.outcome(rph.finalize, c.ISS, r, behaviour_args=args)
    env.check(err is None, "the login succeeds")
    want = back if args or " token" not in rtype else front
    env.check(env.eq(got["token"], want), "the token handed out")
    ui = [x for x in http.log if x["url"].endswith("/userinfo")]
    env.check(len(ui) == 1, "user info is fetched once")
    env.check(env.eq(ui[0]["headers"]["Authorization"], "Bearer " + want),
              "with the token that is handed out")
    for x in http.log:
        if x["url"].endswith("/token"):
            env.check(want == back, "the token endpoint is asked only where its token is used")
    env.reach("done")


@harness("C12", witness=("latest", "explicit", "none"))
def in_the_body(env):
    """Where the user info service is configured so, the token goes into the body, and only there."""
    http = c.HTTP()
    conf = {"default_authn_method": "bearer_body", "http_method": "POST"}
    srv = {"class": "oidcrp.oidc.userinfo.UserInfo", "kwargs": {"conf": conf}}
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS]["behaviour"]["response_types"] = ["code token"]
    rph = c.handler(cfg, http, c.services(userinfo=srv))
    client = c.setup(rph)
    env.set_time(c.NOW)
    s, other = [rph.begin(c.ISS)["state"] for _ in range(2)]
    rph.finalize_auth(client, c.ISS, {"state": other, "code": "code-2", "access_token": "foreign",
                                      "token_type": "Bearer"})
    latest = None
    how = env.pick("how", ["session", "explicit", "service"])
    steps = env.pick("steps", [0, 1, 2, 3])
    if steps > 0:
        latest = env.str("front_token", "token", min=1)
        rph.finalize_auth(client, c.ISS, {"state": s, "code": "code-1", "access_token": latest,
                                          "token_type": "Bearer"})
    if steps > 1:
        latest = env.str("back_token", "token", min=1)
        http.answer = c.Provider({"access_token": latest, "token_type": "Bearer",
                                  "refresh_token": "rt"})
        rph.get_tokens(s)
    if steps > 2:
        latest = env.str("new_token", "token", min=1)
        http.answer = c.Provider({"access_token": latest, "token_type": "Bearer"})
        rph.refresh_access_token(s)
    http.answer = c.Provider(None, {"sub": "subject"})
    http.log.clear()
    if how == "explicit":
        latest = env.str("explicit", "token", min=1)
        got, err = c.outcome(rph.get_user_info, s, access_token=latest)
    elif how == "session":
        got, err = c.outcome(rph.get_user_info, s)
    else:
        got, err = c.outcome(client.do_request, "userinfo", state=s)
    if latest is None:
        env.check(err is not None and http.log == [], "no token, no request")
        env.reach("none")
        return
    env.check(err is None and len(http.log) == 1, "one request")
    r = http.log[0]
    env.check(r["url"] == c.ISS + "/userinfo" and r["method"] == "POST", "at the user info endpoint")
    env.check(env.eq(c.body_of(r["data"]), {"access_token": latest}), "the token in the body")
    env.check("Authorization" not in r["headers"], "and not in the header")
    env.reach("explicit" if how == "explicit" else "latest")
