"""C02: ID Tokens are bound to the authentication request by its nonce."""
import json

from symx.api import harness

from harness import common as c


def start(env, rtype, n=2):
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS]["behaviour"]["response_types"] = [rtype]
    rph = c.handler(cfg, http)
    client = c.setup(rph)
    env.set_time(c.NOW)
    bs = [rph.begin(c.ISS) for _ in range(n)]
    return rph, http, client, bs, [c.query_of(b["url"]) for b in bs]


def some_nonce(env, qs, i):
    """The nonce of the ID Token: (value or None, is it the one of request i)."""
    k = env.pick("nonce", ["own", "other", "any", "missing"])
    if k == "own":
        return qs[i]["nonce"], True
    if k == "other":
        return qs[1 - i]["nonce"], False
    if k == "missing":
        return None, False
    n = env.str("nonce_value", "print")
    for q in qs:
        env.assume(env.not_(env.eq(n, q["nonce"])))
    return n, False


@harness("C02", witness=("accepted", "refused"))
def token_endpoint(env):
    """Code flow: the ID Token from the token endpoint."""
    rph, http, client, bs, qs = start(env, "code")
    i = env.pick("session", [0, 1])
    b1, b2, q = bs[i], bs[1 - i], qs[i]
    nonce, ok = some_nonce(env, qs, i)
    sub = env.str("sub", "alnum", min=1)
    idt = c.id_token(q, nonce=nonce, sub=sub)
    http.answer = c.Provider({"access_token": "at-1", "token_type": "Bearer", "id_token": idt},
                             {"sub": sub})
    got, err = c.outcome(rph.finalize, c.ISS, {"code": "code-1", "state": b1["state"]})
    if ok:
        env.check(err is None, "the right nonce is accepted")
        env.check("error" not in got, "without error")
        env.check(env.eq(got["id_token"]["nonce"], q["nonce"]), "nonce of the request")
        env.check(rph.has_active_authentication(b1["state"]), "the user is authenticated")
        env.reach("accepted")
    else:
        env.check(err is not None, "any other nonce is refused")
        env.check(not any(r["url"].endswith("/userinfo") for r in http.log),
                  "no use is made of the tokens")
        env.check(not rph.has_active_authentication(b1["state"]), "nobody is authenticated")
        _, err = c.outcome(rph.get_valid_access_token, b1["state"])
        env.check(err is not None, "no token is kept")
        _, err = c.outcome(c.state_of(client).get_state_by_sub, sub)
        env.check(err is not None, "no subject is bound to the session")
        env.reach("refused")
    env.check(not rph.has_active_authentication(b2["state"]), "the other session is as before")


@harness("C02", witness=("accepted", "refused"))
def front_channel(env):
    """Implicit and hybrid flow: the ID Token in the authorization response."""
    rtype = env.pick("response_type", ["id_token", "id_token token", "code id_token",
                                       "code id_token token"])
    rph, http, client, bs, qs = start(env, rtype)
    i = env.pick("session", [0, 1])
    b1, b2, q = bs[i], bs[1 - i], qs[i]
    nonce, ok = some_nonce(env, qs, i)
    sub = env.str("sub", "alnum", min=1)
    resp = {"state": b1["state"]}
    claims = {"nonce": nonce, "sub": sub}
    from cryptojwt.jws.utils import left_hash
    if "code" in rtype:
        resp["code"] = "code-1"
        claims["c_hash"] = left_hash("code-1", "HS256")
    if " token" in rtype:
        resp.update(access_token="at-1", token_type="Bearer")
        claims["at_hash"] = left_hash("at-1", "HS256")
    resp["id_token"] = c.id_token(q, **claims)
    before = c.db_of(client)
    got, err = c.outcome(rph.finalize_auth, client, c.ISS, resp)
    if ok:
        env.check(err is None, "the right nonce is accepted")
        env.check(rph.has_active_authentication(b1["state"]), "the user is authenticated")
        env.reach("accepted")
    else:
        env.check(err is not None, "any other nonce is refused")
        env.check(c.same_store(env, before, c.db_of(client)), "nothing is stored")
        env.check(not rph.has_active_authentication(b1["state"]), "nobody is authenticated")
        env.reach("refused")
    env.check(not rph.has_active_authentication(b2["state"]), "the other session is as before")
    env.check(http.log == [], "nothing is sent")


@harness("C02", witness=("done",))
def interleaved_sessions(env):
    """Two logins of one provider finished in any order; ID Tokens possibly swapped."""
    rph, http, client, bs, qs = start(env, "code")
    order = env.pick("order", [(0, 1), (1, 0)])
    swap = env.flag("swap")
    subs = [env.str("sub0", "alnum", min=1), env.str("sub1", "alnum", min=1)]
    for i in order:
        idt = c.id_token(qs[1 - i] if swap else qs[i], sub=subs[i])
        http.answer = c.Provider(
            {"access_token": "at-%d" % i, "token_type": "Bearer", "id_token": idt},
            {"sub": subs[i]})
        got, err = c.outcome(rph.finalize, c.ISS,
                             {"code": "code-%d" % i, "state": bs[i]["state"]})
        env.check((err is None) == (not swap), "accepted exactly when not swapped")
        if not swap:
            env.check(env.eq(got["id_token"]["sub"], subs[i]), "subject of the session")
            env.check(got["state"] == bs[i]["state"], "session")
    for i in (0, 1):
        env.check(rph.has_active_authentication(bs[i]["state"]) == (not swap), "authentication")
    env.reach("done")
