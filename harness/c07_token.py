"""C07: a token handed out as valid is one of the session and has not expired."""
from symx.api import harness

from harness import common as c
from oidcrp import oauth2


@harness("C07", witness=("indefinite", "expiring", "none"), bounds={"refreshes": 1},
         thorough={"refreshes": 2})
def valid_token(env):
    """Tokens from the authorization endpoint, the token endpoint and refreshes."""
    kind = env.pick("client", ["oidc", "oauth2"])
    # the OAuth2 client knows responses with a code only
    rtype = env.pick("response_type", ["code", "code token", "token"][:3 if kind == "oidc" else 2])
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS]["behaviour"]["response_types"] = [rtype]
    if kind == "oidc":
        rph = c.handler(cfg, http)
    else:
        rph = c.handler(cfg, http, c.OAUTH2_SERVICES, client_cls=oauth2.Client)
    client = c.setup(rph)
    t = c.NOW
    env.set_time(t)
    s = rph.begin(c.ISS)["state"]
    other = rph.begin(c.ISS)["state"]
    _, err = c.outcome(rph.get_valid_access_token, s)
    env.check(err is not None, "no token before anything came back")
    held = {}                     # where it came from: (token, expiry or None)

    def issue(where, resp):
        resp.update(access_token=where, token_type="Bearer")
        if env.flag("expires_" + where):
            n = env.int("expires_in_" + where, 0, 10 ** 9)
            resp["expires_in"] = n
            held[where.rstrip("0123456789")] = (where, t + n)
        else:
            held[where.rstrip("0123456789")] = (where, None)
        return resp

    r = {"state": s}
    if "code" in rtype:
        r["code"] = "code-1"
    if "token" in rtype:
        issue("front", r)
    rph.finalize_auth(client, c.ISS, r)
    if "code" in rtype:
        t = t + env.int("wait", 0, 10 ** 5)
        env.set_time(t)
        http.answer = c.Provider(issue("back", {"refresh_token": "rt"}))
        rph.get_tokens(s)
        for i in range(env.b["refreshes"]):
            if not env.flag("refresh%d" % i):
                break
            t = t + env.int("wait%d" % i, 0, 10 ** 5)
            env.set_time(t)
            http.answer = c.Provider(issue("back%d" % i, {}))
            rph.refresh_access_token(s)
    now = env.int("now", c.NOW, c.NOW + 2 * 10 ** 9)
    env.assume(now >= t)
    env.set_time(now)
    got, err = c.outcome(rph.get_valid_access_token, s)
    good = [env.eq(now < e, True) if e is not None else True for _, e in held.values()]
    if err is not None:
        env.check(env.not_(env.or_(*good)), "a valid token is found when there is one")
        env.reach("none")
    else:
        tok, exp = got
        mine = [x for x in held.values() if x[0] == tok]
        env.check(len(mine) == 1, "the token is one the session holds")
        e = mine[0][1]
        if e is None:
            env.check(exp == 0, "no expiry is reported for a token without one")
            env.reach("indefinite")
        else:
            env.check(env.eq(exp, e), "the expiry time is the token's own")
            env.check(now < e, "it has not expired")
            for _, o in held.values():
                env.check(o is not None, "a token that does not expire is preferred")
                env.check(env.or_(o <= e, o <= now), "and the one living longest is chosen")
            env.reach("expiring")
    _, err = c.outcome(rph.get_valid_access_token, other)
    env.check(err is not None, "another session has none of them")
