"""C17: user info handed out is about the user who logged in, from those who may say it."""
import json

from symx.api import harness

from harness import common as c
from oidcrp.oidc import FetchException

SRC = "https://claims.example.com"


def login(env, http, sub, rtype="code", rph=None, behaviour=None, alg="RS256", **kw):
    """A session whose ID Token is about sub; nothing has been asked for yet."""
    q = c.query_of(rph.begin(c.ISS)["url"])
    client = rph.issuer2rp[c.ISS]
    idt = c.id_token(q, sub=sub, **kw)
    r = {"state": q["state"]}
    tr = {"access_token": "at-" + kw.get("jti", "1"), "token_type": "Bearer"}
    if rtype == "code":
        r["code"] = "code-1"
        http.answer = c.Provider(dict(tr, id_token=idt, refresh_token="rt"))
        rph.finalize_auth(client, c.ISS, r)
        rph.get_tokens(q["state"])
    else:
        rph.finalize_auth(client, c.ISS, dict(r, id_token=idt, **tr))
    http.log.clear()
    return q["state"]


def party(env, http, rtype="code", **behaviour):
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS]["behaviour"].update(behaviour, response_types=[rtype])
    rph = c.handler(cfg, http)
    client = c.setup(rph)
    ctx = c.ctx(client)
    ctx.keyjar.import_jwks(c.jwks("op2"), SRC)
    env.set_time(c.NOW)
    return rph, client


@harness("C17", witness=("same", "other"))
def subject(env):
    """Info is taken only about the subject of the session's own ID Token."""
    how = env.pick("id_token", ["token endpoint", "front", "second session"])
    rtype = "id_token token" if how == "front" else "code"
    http = c.HTTP()
    rph, client = party(env, http, rtype)
    from cryptojwt.jws.utils import left_hash
    h = {"at_hash": left_hash("at-1", "HS256")} if how == "front" else {}
    sub, sub2 = env.str("sub", "nospace", min=1), env.str("ui_sub", "nospace", min=1)
    first = login(env, http, "first", rtype, rph, **h)
    s = login(env, http, sub, rtype, rph, **h)
    if how == "second session":
        third = login(env, http, env.str("third", "nospace", min=1), rtype, rph)
    name = env.str("name", "print", min=1)
    http.answer = c.Provider(userinfo={"sub": sub2, "name": name})
    before = c.db_of(client)
    api = env.pick("through", ["handler", "client"])
    if api == "handler":
        got, err = c.outcome(rph.get_user_info, s)
    else:
        got, err = c.outcome(client.do_request, "userinfo", state=s)
    same = env.eq(sub, sub2)
    if err is None:
        env.check(same, "info about someone else is taken")
        env.check(env.eq(got["sub"], sub2), "the subject")
        env.check(env.eq(got["name"], name), "what the provider says")
        ui = c.state_of(client).get_state(s)["user_info"]
        env.check(env.eq(ui["sub"], sub2) and env.eq(ui["name"], name), "it is kept")
        env.check("user_info" not in c.state_of(client).get_state(first), "for that session only")
        env.reach("same")
    else:
        env.check(env.not_(same), "info about the user is refused")
        env.check(c.same_store(env, before, c.db_of(client)), "nothing is kept")
        env.reach("other")


@harness("C17", witness=("taken", "refused"))
def missing_subject(env):
    """Info that doesn't say whom it is about is not taken."""
    http = c.HTTP()
    rph, client = party(env, http)
    s = login(env, http, "subject", rph=rph)
    info = {"name": env.pick("name", ["A Name", ""])}
    env.maybe(info, "sub", lambda: env.pick("sub", ["subject", "", None, 1, ["subject"]]))
    http.answer = c.Provider(userinfo=info)
    before = c.db_of(client)
    got, err = c.outcome(rph.get_user_info, s)
    if err is None:
        env.check(info.get("sub") in ("subject", ["subject"]) and got["sub"] == "subject",
                  "info about nobody is taken")
        env.reach("taken")
    else:
        env.check(info.get("sub") != "subject", "info about the user is refused")
        env.check(c.same_store(env, before, c.db_of(client)), "nothing is kept")
        env.reach("refused")


@harness("C17", witness=("taken", "refused"))
def signed(env):
    """Signed info counts only if it's signed by the provider the way that was agreed."""
    agreed = env.pick("agreed", ["RS256", "ES256", "HS256", None])
    http = c.HTTP()
    kw = {"userinfo_signed_response_alg": agreed} if agreed else {}
    rph, client = party(env, http, **kw)
    s = login(env, http, "subject", rph=rph)
    sub = env.str("ui_sub", "nospace", min=1)
    claims = {"sub": sub, "name": env.str("name", "print", min=1)}
    claims["iss"] = env.pick("iss", [c.ISS, c.ISS2])
    claims["aud"] = [c.ctx(client).client_id]
    alg = env.pick("alg", ["RS256", "ES256", "HS256", "none"])
    secret = c.client_config(c.ISS)["client_secret"]
    c.ctx(client).keyjar.add_symmetric("", secret)  # as registration does
    who = env.pick("who", ["op", "evil"] + (["as op"] if alg == "RS256" else []))
    body = c.sign(claims, alg, who, secret if who == "op" else "another-" + secret)
    ctype = env.pick("type", ["application/jwt", "application/jwt; charset=utf-8"])
    http.answer = c.Provider(userinfo=lambda *a: c.Response(200, body, ctype))
    before = c.db_of(client)
    got, err = c.outcome(rph.get_user_info, s)
    good = who == "op" and alg != "none" and (agreed is None or agreed == alg)
    if err is None:
        env.check(alg != "none", "unsigned")
        env.check(who == "op", "not signed by the provider")
        env.check(agreed is None or agreed == alg, "not by the algorithm agreed upon")
        env.check(env.eq(sub, "subject"), "info about someone else is taken")
        env.check(env.eq(got["name"], claims["name"]), "the claims are those signed")
        env.reach("taken")
    else:
        env.check(env.not_(env.and_(good, claims["iss"] == c.ISS, env.eq(sub, "subject"))),
                  "proper info is refused")
        env.check(c.same_store(env, before, c.db_of(client)), "nothing is kept")
        env.reach("refused")


@harness("C17", witness=("taken",))
def symmetric(env):
    """Info signed with the configured client secret counts."""
    http = c.HTTP()
    rph, client = party(env, http, userinfo_signed_response_alg="HS256")
    s = login(env, http, "subject", rph=rph)
    claims = {"sub": "subject", "iss": c.ISS, "name": env.str("name", "print", min=1)}
    secret = env.pick("secret", [c.client_config(c.ISS)["client_secret"],
                                 "some-other-secret-of-sufficient-length-0123456789"])
    body = c.sign(claims, "HS256", "op", secret)
    http.answer = c.Provider(userinfo=lambda *a: c.Response(200, body, "application/jwt"))
    got, err = c.outcome(rph.get_user_info, s)
    right = secret == c.client_config(c.ISS)["client_secret"]
    env.reach("taken")
    env.check(right or err is not None, "not signed by the provider")
    env.check(not right or err is None,
              "info signed with the statically configured secret is refused")


@harness("C17", witness=("added", "refused", "unknown"))
def aggregated(env):
    """Another source's claims count where its signature verifies and for what it is named."""
    http = c.HTTP()
    rph, client = party(env, http)
    s = login(env, http, "subject", rph=rph)
    who = env.pick("signed_by", ["op2", "evil", "as op2", "unknown"])
    v = env.str("value", "print", min=1)
    w = env.str("other", "print", min=1)
    jwt = c.sign({"iss": SRC if who != "unknown" else "https://nobody.example.com",
                  "age": v, "email": w, "sub": "someone else", "nickname": w}, "RS256",
                 who if who != "unknown" else "evil")
    names = {"age": "src1"}
    more = env.pick("named", ["nothing else", "email", "sub", "email elsewhere"])
    # another source, of which nothing is known, may have any name
    src2 = env.str("src2", "alnum", min=1)
    env.assume(env.not_(env.eq(src2, "src1")))
    if more in ("email", "sub"):
        names[more] = "src1"
    elif more == "email elsewhere":
        names["email"] = src2
    nick = env.str("nickname", "print", min=1)
    info = {"sub": "subject", "nickname": nick, "_claim_names": names,
            "_claim_sources": {"src1": {"JWT": jwt}}}
    http.answer = c.Provider(userinfo=info)
    before = c.db_of(client)
    got, err = c.outcome(rph.get_user_info, s)
    if err is None:
        env.check(env.eq(got["sub"], "subject"), "the subject is that of the ID Token")
        env.check(env.eq(got["nickname"], nick), "claims not named are the provider's own")
        if who == "op2":
            env.check(env.eq(got["age"], v), "the claim named is added")
            env.reach("added")
        else:
            env.check("age" not in got, "claims their source doesn't vouch for")
            env.reach("unknown")
        if more == "email" and who == "op2":
            env.check(env.eq(got["email"], w), "the claim named is added")
        else:
            env.check("email" not in got, "a claim that source isn't named for")
        kept = c.state_of(client).get_state(s)["user_info"]
        env.check(env.eq(kept["sub"], "subject"), "so is what is kept")
    else:
        env.check(who != "op2" or more == "sub", "proper claims are refused")
        env.check(c.same_store(env, before, c.db_of(client)), "nothing is kept")
        env.reach("refused")


@harness("C17", witness=("fetched", "failed"))
def distributed(env):
    """Claims are fetched from their source, which gets no other token than its own."""
    http = c.HTTP()
    rph, client = party(env, http)
    s = login(env, http, "subject", rph=rph)
    t1, v1 = env.str("token", "token", min=1), env.str("age", "print", min=1)
    t2, v2 = env.str("token2", "token", min=1), env.str("mail", "print", min=1)
    nick = env.str("nickname", "print", min=1)
    second = env.pick("second", [None, "own token", "callback", "open"])
    names = {"age": "src1"}
    sources = {"src1": {"endpoint": "https://a.example.com/claims", "access_token": t1}}
    over = env.flag("claims_the_subject")
    if over:
        names["sub"] = "src1"
    if second:
        names["email"] = "src2"
        sources["src2"] = {"endpoint": "https://b.example.com/claims"}
        if second == "own token":
            sources["src2"]["access_token"] = t2
    info = {"sub": "subject", "nickname": nick, "_claim_names": names, "_claim_sources": sources}
    http.answer = c.Provider(userinfo=info)
    got, err = c.outcome(rph.get_user_info, s)
    env.check(err is None, "the info itself is fine")
    http.log.clear()
    status = env.int("status", 200, 599)
    a1 = {"age": v1, "nickname": "x", "email": "not asked for", "sub": "someone else"}
    a2 = {"email": v2, "age": "not asked for"}
    http.answer = lambda url, *a: c.Response(status, json.dumps(a1)) \
        if url == "https://a.example.com/claims" else c.Response(200, json.dumps(a2))
    cb = (lambda url: t2) if second == "callback" else None
    res, err = c.outcome(client.fetch_distributed_claims, got, cb)
    for x in http.log:
        h = x["headers"].get("Authorization")
        if x["url"] == "https://a.example.com/claims":
            env.check(env.eq(h, "Bearer " + t1), "its token")
        else:
            env.check(x["url"] == "https://b.example.com/claims", "only the sources are asked")
            if second == "open":
                env.check(h is None, "no token there")
            else:
                env.check(env.eq(h, "Bearer " + t2), "its token")
    if err is None:
        env.check(env.eq(status, 200), "an error is taken for claims")
        env.check(len(http.log) == len(sources), "each source is asked once")
        env.check(env.eq(res["age"], v1), "the claim")
        env.check(env.eq(res["nickname"], nick), "claims not named are the provider's own")
        env.check(env.eq(res["sub"], "subject"), "the subject is that of the ID Token")
        if second:
            env.check(env.eq(res["email"], v2), "the claim of the other source")
        else:
            env.check("email" not in res, "claims not named")
        env.reach("fetched")
    else:
        env.check(env.not_(env.eq(status, 200)), "proper claims are refused")
        env.check(isinstance(err, FetchException), "the failure is reported")
        env.reach("failed")
