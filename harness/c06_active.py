"""C06: when a session counts as authenticated."""
from cryptojwt.jws.utils import left_hash
from symx.api import harness

from harness import common as c


@harness("C06", witness=("active", "expired", "front", "refreshed"),
         bounds={"refreshes": 1}, thorough={"refreshes": 2})
def follows_the_latest_id_token(env):
    """Logged in exactly until the expiry of the latest of up to three ID Tokens."""
    rtype = env.pick("response_type", ["code", "id_token", "code id_token"])
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS]["behaviour"]["response_types"] = [rtype]
    rph = c.handler(cfg, http)
    client = c.setup(rph)
    t0 = c.NOW
    env.set_time(t0)
    b = rph.begin(c.ISS)
    s = b["state"]
    q = c.query_of(b["url"])
    env.check(rph.has_active_authentication(s) is False, "not before anything came back")
    latest = None
    r = {"state": s}
    if "id_token" in rtype:
        latest = env.int("exp_front", t0, t0 + 10 ** 6)
        h = {"c_hash": left_hash("code-1", "HS256")} if "code" in rtype else {}
        r["id_token"] = c.id_token(q, exp=latest, **h)
        env.reach("front")
    if "code" in rtype:
        r["code"] = "code-1"
    rph.finalize_auth(client, c.ISS, r)
    if "code" in rtype:
        tr = {"access_token": "at-1", "token_type": "Bearer", "refresh_token": "rt-1"}
        if env.flag("id_token_from_token_endpoint"):
            latest = env.int("exp_token", t0, t0 + 10 ** 6)
            tr["id_token"] = c.id_token(q, exp=latest)
        http.answer = c.Provider(tr)
        rph.get_tokens(s)
        for i in range(env.b["refreshes"]):
            if not env.flag("refresh%d" % i):
                break
            tr = {"access_token": "at-2%d" % i, "token_type": "Bearer"}
            if env.flag("id_token_from_refresh%d" % i):
                latest = env.int("exp_refresh%d" % i, t0, t0 + 10 ** 6)
                tr["id_token"] = c.id_token(q, exp=latest)
            http.answer = c.Provider(tr)
            rph.refresh_access_token(s)
            env.reach("refreshed")
    now = env.int("now", t0, t0 + 10 ** 7)
    env.set_time(now)
    got = rph.has_active_authentication(s)
    if latest is None:
        env.check(got is False, "without an ID Token nobody is authenticated")
    elif got:
        env.check(now < latest, "authenticated only while the latest ID Token is unexpired")
        env.reach("active")
    else:
        env.check(now >= latest, "authenticated as long as the latest ID Token is unexpired")
        env.reach("expired")



@harness("C06", witness=("checked",))
def sessions_are_judged_separately(env):
    """One session's expiry says nothing of another's."""
    http = c.HTTP()
    rph, cl1, cl2 = c.two_providers(env, http)
    t0 = c.NOW
    env.set_time(t0)
    bs = [(c.ISS, "op", rph.begin(c.ISS)), (c.ISS2, "op2", rph.begin(c.ISS2)),
          (c.ISS, "op", rph.begin(c.ISS))]
    exps = []
    for i, (iss, who, b) in enumerate(bs):
        exps.append(None)
        if not env.flag("login%d" % i):
            continue
        exps[i] = env.int("exp%d" % i, t0, t0 + 10 ** 6)
        q = c.query_of(b["url"])
        http.answer = c.Provider({"access_token": "at", "token_type": "Bearer",
                                  "id_token": c.id_token(q, iss, who, exp=exps[i])},
                                 {"sub": "subject"})
        rph.finalize(iss, {"code": "code", "state": b["state"]})
    now = env.int("now", t0, t0 + 10 ** 7)
    env.set_time(now)
    for e, (_, _, b) in zip(exps, bs):
        got = rph.has_active_authentication(b["state"])
        env.check(env.eq(got, False if e is None else now < e), "own ID Token decides")
    _, err = c.outcome(rph.has_active_authentication, "no-such-session")
    env.check(err is not None, "an unknown session is an error, not an authentication")
    env.reach("checked")
