"""C24: a session is about one user, from the first ID Token to the last refresh."""
from cryptojwt.jws.utils import left_hash
from symx.api import harness

from harness import common as c


def party(env, http, rtype="code", registered=None):
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS]["behaviour"]["response_types"] = [rtype]
    rph = c.handler(cfg, http)
    client = c.setup(rph)
    if registered:
        c.ctx(client).set("registration_response",
                          {"client_id": "client-at-op", "id_token_signed_response_alg": registered})
    env.set_time(c.NOW)
    b = rph.begin(c.ISS)
    return rph, client, b["state"], c.query_of(b["url"])


@harness("C24", witness=("same", "other", "none"))
def hybrid(env):
    """The ID Token from the token endpoint is about the user of the one before."""
    rtype = env.pick("response_type", ["code id_token", "code id_token token"])
    http = c.HTTP()
    rph, client, s, q = party(env, http, rtype)
    front, back = env.str("front_sub", "nospace", min=1), env.str("back_sub", "nospace", min=1)
    r = {"state": s, "code": "code-1"}
    h = {"c_hash": left_hash("code-1", "HS256")}
    if " token" in rtype:
        r.update(access_token="at-0", token_type="Bearer")
        h["at_hash"] = left_hash("at-0", "HS256")
    r["id_token"] = c.id_token(q, sub=front, **h)
    tr = {"access_token": "at-1", "token_type": "Bearer"}
    has = env.flag("id_token_at_the_back")
    if has:
        tr["id_token"] = c.id_token(q, sub=back)
    ui = env.str("userinfo_sub", "nospace", min=1)
    http.answer = c.Provider(tr, {"sub": ui})
    args = {"collect_tokens": True} if " token" in rtype else None
    got, err = c.outcome(rph.finalize, c.ISS, r, behaviour_args=args)
    if err is None and "error" not in got:
        if has:
            env.check(env.eq(front, back), "ID Tokens about two users make one login")
            env.reach("same")
        else:
            env.reach("none")
        env.check(got["id_token"] is not None, "the ID Token is handed out")
        env.check(env.eq(got["id_token"]["sub"], front), "the user")
        env.check(env.eq(ui, front), "user info about that user")
        env.check(env.eq(got["userinfo"]["sub"], front), "user info about that user")
        env.check(env.eq(c.state_of(client).get_state_by_sub(front), s), "bound to the session")
    else:
        env.check(env.not_(env.and_(env.or_(not has, env.eq(front, back)), env.eq(ui, front))),
                  "a login of one user is refused")
        rec = c.state_of(client).get_state(s).to_dict()
        env.check("user_info" not in rec, "no user info is kept")
        if has and env.not_(env.eq(front, back)):
            env.check("token_response" not in rec, "no token is kept")
            _, err = c.outcome(c.state_of(client).get_state_by_sub, back)
            env.check(err is not None, "the other user isn't bound to the session")
        env.reach("other")


@harness("C24", witness=("same", "other"))
def refreshed(env):
    """So is the one that comes with a refresh."""
    http = c.HTTP()
    rph, client, s, q = party(env, http)
    sub = env.str("sub", "nospace", min=1)
    tr = {"access_token": "at-1", "token_type": "Bearer", "refresh_token": "rt"}
    first = c.id_token(q, sub=sub)
    http.answer = c.Provider(dict(tr, id_token=first))
    rph.finalize_auth(client, c.ISS, {"state": s, "code": "code-1"})
    rph.get_tokens(s)
    about = env.pick("about", ["sub", "nonce", "aud", "iss", "exp"])
    kw, good = {"nonce": None, "sub": sub}, True
    if about == "sub":
        kw["sub"] = env.str("new_sub", "nospace", min=1)
        good = env.eq(kw["sub"], sub)
    elif about == "nonce":
        kw["nonce"] = env.str("nonce", "token", min=1) if env.flag("any_nonce") else q["nonce"]
        good = env.eq(kw["nonce"], q["nonce"])
    elif about == "aud":
        kw["aud"] = [env.str("aud", "token", min=1)]
        good = env.eq(kw["aud"][0], "client-at-op")
    elif about == "iss":
        kw["iss"] = env.pick("iss", [c.ISS2, c.ISS + "/", c.ISS])
        c.ctx(client).keyjar.import_jwks(c.jwks("op"), kw["iss"]) if kw["iss"] != c.ISS else None
        good = kw["iss"] == c.ISS
    else:
        kw["exp"] = env.int("exp", c.NOW - 10 ** 6, c.NOW + 10 ** 6)
        if env.and_(kw["exp"] < c.NOW, kw["exp"] >= c.NOW - 15):
            return  # within what clocks may differ
        good = kw["exp"] >= c.NOW
    n = env.pick("refreshes_before", [0, 1])
    http.answer = c.Provider(dict(tr, access_token="at-2"))
    for i in range(n):
        rph.refresh_access_token(s)
    before = c.db_of(client)
    new = c.id_token(q, **kw)
    http.answer = c.Provider(dict(tr, access_token="at-3", id_token=new))
    got, err = c.outcome(rph.refresh_access_token, s)
    if err is None:
        env.check(good, "an ID Token about someone or somewhere else is taken")
        env.check(rph.get_valid_access_token(s)[0] == "at-3", "the new token is in use")
        env.reach("same")
    else:
        env.check(env.not_(good), "a proper ID Token is refused")
        env.check(c.same_store(env, before, c.db_of(client)), "nothing changes")
        env.reach("other")
    # whatever came of it: user info is taken about the user who logged in
    ui = env.str("userinfo_sub", "nospace", min=1)
    http.answer = c.Provider(None, {"sub": ui})
    got, err = c.outcome(rph.get_user_info, s)
    env.check(env.eq(err is None, env.eq(ui, sub)), "user info about the user who logged in")


@harness("C24", witness=("taken", "refused"))
def signed(env):
    """An ID Token that comes with a refresh is signed the way that was agreed upon."""
    reg = env.pick("registered", [None, "RS256", "ES256"])
    http = c.HTTP()
    rph, client, s, q = party(env, http, registered=reg)
    tr = {"access_token": "at-1", "token_type": "Bearer", "refresh_token": "rt"}
    http.answer = c.Provider(dict(tr, id_token=c.id_token(q, alg=reg or "RS256")))
    rph.finalize_auth(client, c.ISS, {"state": s, "code": "code-1"})
    rph.get_tokens(s)
    who, alg = env.pick("signer", [("op", "RS256"), ("op", "ES256"), ("evil", "RS256"),
                                   ("as op", "RS256"), ("op2", "RS256"), ("op", "none"),
                                   ("guess", "HS256"), ("rp", "RS256")])
    before = c.db_of(client)
    idt = c.id_token(q, who=who if who != "guess" else "op", alg=alg,
                     secret="some-other-secret-of-sufficient-length-0123456789")
    http.answer = c.Provider(dict(tr, access_token="at-2", id_token=idt))
    got, err = c.outcome(rph.refresh_access_token, s)
    if who == "op" and alg == (reg or "RS256"):
        env.check(err is None, "the provider's signature is accepted")
        env.reach("taken")
    elif who == "op" and alg == "ES256" and reg is None:
        pass  # nothing was agreed upon
    else:
        env.check(err is not None, "an ID Token the provider hasn't signed as agreed is taken")
        env.check(c.same_store(env, before, c.db_of(client)), "nothing changes")
        env.reach("refused")
