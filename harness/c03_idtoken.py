"""C03: only ID Tokens meant for this client, from this provider, current and properly signed."""
import json

from cryptojwt.jws.utils import left_hash
from symx.api import harness

from harness import common as c

SKEW = 15
STORAGE = 4 * 3600


def login(env, rtype, claims, resp=None, sign=None, registered=None, keys=None):
    """One attempt to log in with an ID Token of the given claims over either channel, by a
    client that knows the given registration response and keys of other issuers.
    Returns (accepted?, claims handed out)."""
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS)}
    cfg[c.ISS]["behaviour"]["response_types"] = [rtype]
    rph = c.handler(cfg, http)
    client = c.setup(rph)
    for iss, who in (keys or {}).items():
        c.ctx(client).keyjar.import_jwks(c.jwks(who), iss)
    if registered is not None:
        c.ctx(client).set("registration_response", registered)
    b = rph.begin(c.ISS)
    q = c.query_of(b["url"])
    kw = dict(claims(q) if callable(claims) else claims)
    if rtype == "code":
        idt = c.id_token(q, **kw, **(sign or {}))
        tr = {"access_token": "at-1", "token_type": "Bearer", "id_token": idt}
        http.answer = c.Provider(tr, {"sub": "subject"})
        got, err = c.outcome(rph.finalize, c.ISS, {"code": "code-1", "state": b["state"]})
        acc = err is None and "error" not in got
        out = got["id_token"] if acc else None
    else:
        r = {"state": b["state"]}
        if "code" in rtype:
            r["code"] = "code-1"
            kw.setdefault("c_hash", left_hash("code-1", "HS256"))
        if " token" in rtype:
            r.update(access_token="at-1", token_type="Bearer")
            kw.setdefault("at_hash", left_hash("at-1", "HS256"))
        r["id_token"] = c.id_token(q, **kw, **(sign or {}))
        r.update(resp or {})
        got, err = c.outcome(rph.finalize_auth, client, c.ISS, r)
        acc = err is None and not got.get("error")
        out = got["__verified_id_token"] if acc else None
    env.check(rph.has_active_authentication(b["state"]) == acc or not acc,
              "an accepted ID Token authenticates")
    if not acc:
        env.check(not rph.has_active_authentication(b["state"]),
                  "a refused ID Token does not authenticate")
    return acc, out


CHANNELS = ["code", "id_token", "code id_token token"]


@harness("C03", witness=("accepted", "iss", "aud", "azp"))
def issuer_and_audience(env):
    """Issuer, audience and authorized party are this provider and this client."""
    rtype = env.pick("response_type", CHANNELS)
    env.set_time(c.NOW)
    me = "client-at-op"
    what = env.pick("deviation", ["none", "iss", "no_iss", "aud", "no_aud", "aud2", "azp", "aud2azp"])
    cl, ok, sg, keys = {}, True, {}, {}
    reg = {"client_id": me, "client_secret": c.SECRET} if env.flag("registered") else None
    if what == "iss":
        # the keys of every one of these are known
        cl["iss"] = env.pick("iss", [c.ISS2, "https://op.example.org/", "", c.BASE, me,
                                     "https://OP.example.org", c.ISS])
        ok = cl["iss"] == c.ISS
        if not ok and cl["iss"]:
            keys[cl["iss"]] = "op2"
            sg["who"] = env.pick("signer", ["op", "op2"])
    elif what == "no_iss":
        cl["iss"], ok = None, False
    elif what == "aud":
        a = env.str("aud", "print", min=1)
        as_list = env.flag("aud_list")
        cl["aud"] = [a] if as_list else a
        ok = bool(a == me)
        if not as_list and not ok:
            # a list of audiences in one string is read as one; JSON text is not an audience
            env.assume(env.not_(env.eq(a[:1], "[")))
            env.assume(env.not_(me in a))
    elif what == "no_aud":
        cl["aud"], ok = None, False
    elif what == "aud2":
        cl["aud"], ok = [me, env.str("aud", "print", min=1)], False
    elif what == "azp":
        cl["azp"] = env.str("azp", "print", min=1)
        ok = bool(cl["azp"] == me)
    elif what == "aud2azp":
        other = env.str("aud", "print", min=1)
        cl["aud"] = [other, me] if env.flag("order") else [me, other]
        cl["azp"] = env.str("azp", "print", min=1)
        ok = bool(cl["azp"] == me)
    acc, out = login(env, rtype, cl, None, sg, reg, keys)
    if ok:
        env.check(acc, "a token from the provider for this client is accepted")
        env.reach("accepted")
    else:
        env.check(not acc, "a token from or for somebody else is refused (%s)" % what)
        env.reach(what[:3])


@harness("C03", witness=("accepted", "expired", "early", "old"))
def validity_period(env):
    """Expiry and time of issue are judged against the clock, with the skew configured."""
    rtype = env.pick("response_type", ["code", "id_token"])
    skew = env.pick("skew", [None, 0, 60])
    now = env.int("now", 1600000000, 1900000000)
    env.set_time(now)
    exp = env.int("exp", 0)
    iat = env.int("iat", 0)
    s = SKEW if skew is None else skew
    cfg = {} if skew is None else {"clock_skew": skew}
    # login() asks for the authentication status at the same time
    http = c.HTTP()
    conf = {c.ISS: c.client_config(c.ISS, **cfg)}
    conf[c.ISS]["behaviour"]["response_types"] = [rtype]
    rph = c.handler(conf, http)
    client = c.setup(rph)
    b = rph.begin(c.ISS)
    q = c.query_of(b["url"])
    idt = c.id_token(q, exp=exp, iat=iat, now=0)
    if rtype == "code":
        http.answer = c.Provider({"access_token": "at-1", "token_type": "Bearer",
                                  "id_token": idt}, {"sub": "subject"})
        got, err = c.outcome(rph.finalize, c.ISS, {"code": "code-1", "state": b["state"]})
    else:
        got, err = c.outcome(rph.finalize_auth, client, c.ISS,
                             {"state": b["state"], "id_token": idt})
    if err is None:
        env.check(exp >= now - s, "not expired by more than the allowed clock skew")
        env.check(iat <= now + s, "not issued in the future beyond the allowed clock skew")
        env.check(iat + STORAGE >= now - s, "not issued too long ago")
        env.check(exp >= iat, "not expired before it was issued")
        env.reach("accepted")
    else:
        env.check(env.or_(exp < now - s, iat > now + s, iat + STORAGE < now - s, exp < iat),
                  "a current token is accepted")
        if exp < now - s:
            env.reach("expired")
        elif iat > now + s:
            env.reach("early")
        else:
            env.reach("old")
        env.check(not rph.has_active_authentication(b["state"]), "nobody is authenticated")


@harness("C03", witness=("accepted", "refused"))
def signature(env):
    """Key and algorithm: whoever does not hold the provider's key cannot log anybody in."""
    rtype = env.pick("response_type", ["code", "id_token"])
    env.set_time(c.NOW)
    expected = env.pick("registered", [None, "", "RS256", "ES256", "HS256"])
    who, alg = env.pick("signer", [("op", "RS256"), ("op", "ES256"), ("evil", "RS256"),
                                   ("evil", "ES256"), ("op2", "RS256"), ("op", "none"),
                                   ("secret", "HS256"), ("guess", "HS256"), ("rp", "RS256")])
    secret = None
    if who == "secret":
        secret = c.SECRET + c.ISS[8:11]
    elif who == "guess":
        secret = "some-other-secret-of-sufficient-length-0123456789"
    sg = {"who": who if who not in ("secret", "guess") else "op", "alg": alg, "secret": secret}
    http = c.HTTP()
    conf = {c.ISS: c.client_config(c.ISS), c.ISS2: c.client_config(c.ISS2)}
    conf[c.ISS]["behaviour"]["response_types"] = [rtype]
    rph = c.handler(conf, http)
    client = c.setup(rph)
    c.ctx(client).keyjar.import_jwks(c.jwks("op2"), c.ISS2)
    if expected is not None:
        reg = {"client_id": "client-at-op"}
        if expected:
            reg["id_token_signed_response_alg"] = expected
        c.ctx(client).set("registration_response", reg)
    b = rph.begin(c.ISS)
    q = c.query_of(b["url"])
    idt = c.id_token(q, **sg)
    if rtype == "code":
        http.answer = c.Provider({"access_token": "at-1", "token_type": "Bearer",
                                  "id_token": idt}, {"sub": "subject"})
        got, err = c.outcome(rph.finalize, c.ISS, {"code": "code-1", "state": b["state"]})
    else:
        got, err = c.outcome(rph.finalize_auth, client, c.ISS,
                             {"state": b["state"], "id_token": idt})
    env.note("case", [rtype, expected, who, alg, err is None])
    good = who == "op" and alg == (expected or "RS256")
    if good:
        env.check(err is None, "the provider's signature with the agreed algorithm is accepted")
        env.reach("accepted")
    elif who in ("evil", "op2", "guess", "rp") or alg == "none" or \
            (expected and alg != expected):
        env.check(err is not None, "a token not signed by the provider as agreed is refused")
        env.check(not rph.has_active_authentication(b["state"]), "nobody is authenticated")
        env.reach("refused")


@harness("C03", witness=("accepted", "refused"))
def hashes(env):
    """A front-channel ID Token covers the code and the access token beside it."""
    rtype = env.pick("response_type", ["id_token token", "code id_token", "code id_token token"])
    env.set_time(c.NOW)
    code = env.str("code", "token", min=1)
    at = env.str("at", "token", min=1)
    code2 = env.str("code2", "token", min=1)
    at2 = env.str("at2", "token", min=1)
    cl = {}
    cl["c_hash"] = left_hash(code2, "HS256") if env.flag("has_c_hash") else None
    cl["at_hash"] = left_hash(at2, "HS256") if env.flag("has_at_hash") else None
    resp, ok = {}, []
    if "code" in rtype:
        resp["code"] = code
        ok.append(env.and_(cl["c_hash"] is not None, env.eq(code, code2)))
    if " token" in rtype:
        resp["access_token"] = at
        ok.append(env.and_(cl["at_hash"] is not None, env.eq(at, at2)))
    acc, out = login(env, rtype, cl, resp)
    env.check(env.eq(acc, env.and_(*ok)), "accepted exactly when the hashes match")
    env.reach("accepted" if acc else "refused")


@harness("C03", witness=("accepted", "refused"))
def response_for_somebody_else(env):
    """A front-channel response that names another audience does not escape verification."""
    rtype = env.pick("response_type", ["id_token", "code id_token"])
    env.set_time(c.NOW)
    aud = env.str("aud", "token", min=1)
    forged = env.flag("forged")
    resp = {"aud": [aud]}
    acc, out = login(env, rtype, {}, resp, {"who": "evil" if forged else "op"})
    if forged or aud != "client-at-op":
        env.check(not acc, "refused")
        env.reach("refused")
    else:
        env.check(acc, "accepted")
        env.reach("accepted")
