"""C18: a provider can end its own sessions through the back channel, nobody else can."""
from symx.api import harness

from harness import common as c
from oidcrp.rp_handler import backchannel_logout

EVENT = "http://schemas.openid.net/event/backchannel-logout"


def login(rph, http, iss, sub, sid=None):
    """A finished login of sub; the key of the session."""
    q = c.query_of(rph.begin(iss)["url"])
    idt = c.id_token(q, iss=iss, who="op" if iss == c.ISS else "op2", sub=sub, sid=sid,
                     now=c.NOW)
    http.answer = c.Provider({"access_token": "at", "token_type": "Bearer", "id_token": idt},
                             {"sub": sub})
    got = rph.finalize(iss, {"state": q["state"], "code": "code"})
    return got["state"]


def party(env, http, sids=True, providers=1):
    iss = [c.ISS, c.ISS2][:providers]
    cfg = {}
    for i in iss:
        cfg[i] = c.client_config(i)
        if sids:
            cfg[i]["provider_info"]["backchannel_logout_session_supported"] = True
    rph = c.handler(cfg, http)
    env.set_time(c.NOW)
    return [rph] + [c.setup(rph, i, "op" if i == c.ISS else "op2") for i in iss]


def claims(client, **kw):
    r = {"iss": c.ISS, "aud": [c.ctx(client).client_id], "iat": c.NOW, "jti": "id-1",
         "events": {EVENT: {}}}
    r.update(kw)
    return {k: v for k, v in r.items() if v is not None}


def ask(env, client, token):
    """Delivers the logout token one of the ways an application can."""
    if env.flag("urlencoded"):
        from urllib.parse import urlencode
        return c.outcome(backchannel_logout, client, urlencode({"logout_token": token}))
    return c.outcome(backchannel_logout, client, request_args={"logout_token": token})


@harness("C18", witness=("found", "refused"))
def signature(env):
    """Only who holds the provider's key can end sessions."""
    http = c.HTTP()
    rph, client = party(env, http)
    reg = env.pick("registered", [None, "RS256", "ES256"])
    if reg:
        c.ctx(client).set("registration_response",
                          {"id_token_signed_response_alg": reg, "client_id": "client-at-op"})
    s = login(rph, http, c.ISS, "subject") if reg != "ES256" else None
    if s is None:
        s = rph.begin(c.ISS)["state"]
        c.state_of(client).store_sub2state("subject", s)
    who, alg = env.pick("signer", [("op", "RS256"), ("op", "ES256"), ("evil", "RS256"),
                                   ("as op", "RS256"), ("op2", "RS256"), ("op", "none"),
                                   ("guess", "HS256"), ("rp", "RS256")])
    cl = claims(client, sub="subject")
    tok = c.sign(cl, alg, who if who != "guess" else "op",
                 "some-other-secret-of-sufficient-length-0123456789")
    before = c.db_of(client)
    got, err = ask(env, client, tok)
    env.check(c.same_store(env, before, c.db_of(client)), "the question changes nothing")
    if who == "op" and alg == (reg or "RS256"):
        env.check(err is None and got == s, "the provider's logout token leads to the session")
        env.reach("found")
    else:
        env.check(err is not None, "a token the provider hasn't signed as agreed is refused")
        env.reach("refused")


@harness("C18", witness=("found", "refused"))
def content(env):
    """It has to be a logout token, of that provider, for this client."""
    http = c.HTTP()
    rph, client = party(env, http)
    sub = env.str("sub", "nospace", min=1)
    s = login(rph, http, c.ISS, sub)
    me = c.ctx(client).client_id
    good = True
    # keys of other issuers are known as well
    for iss in (c.ISS2, c.ISS + "/"):
        c.ctx(client).keyjar.import_jwks(c.jwks("op2"), iss)
    who = "op"
    kw = {"sub": sub}
    bad = env.pick("about", ["iss", "known iss", "aud", "iat", "nonce", "events", "jti", "subject", "two"])
    if bad == "iss":
        kw["iss"] = env.str("iss", "host", min=1) if env.flag("any_iss") else \
            c.ISS + env.str("more", "path", max=2)
        good = env.eq(kw["iss"], c.ISS)
    elif bad == "known iss":
        kw["iss"] = env.pick("known", [c.ISS2, c.ISS + "/"])
        who = env.pick("signer", ["op", "op2"])
        good = False
    elif bad in ("aud", "two"):
        aud = [env.str("aud%d" % i, "token", min=1) for i in range(2 if bad == "two" else 1)]
        good = env.or_(*[env.eq(a, me) for a in aud])
        kw["aud"] = aud if bad == "two" or env.flag("list") else aud[0]
    elif bad == "iat":
        kw["iat"] = env.int("iat", 1, 2 ** 32)
        if env.and_(kw["iat"] > c.NOW, kw["iat"] <= c.NOW + 15):
            return  # within what clocks may differ
        good = kw["iat"] <= c.NOW
    elif bad == "nonce":
        kw["nonce"] = env.str("nonce", "token", min=1)
        good = False
    elif bad == "events":
        ev = env.str("event", "nospace", min=1)
        which = env.pick("events", ["one", "two", "member", "none", "missing", "right"])
        kw["events"] = {"one": {ev: {}}, "two": {EVENT: {}, "x" + ev: {}}, "none": {},
                        "member": {EVENT: {"a": "b"}}, "missing": None, "right": {EVENT: {}}}[which]
        good = env.eq(ev, EVENT) if which == "one" else which == "right"
    elif bad == "jti":
        kw["jti"] = None
        good = False
    elif bad == "subject":
        kw["sub"] = None
        good = False
    before = c.db_of(client)
    got, err = ask(env, client, c.sign(claims(client, **kw), "RS256", who))
    env.check(c.same_store(env, before, c.db_of(client)), "the question changes nothing")
    if err is None:
        env.check(good, "what is no logout token for this client is refused")
        env.check(got == s, "the session of that subject")
        env.reach("found")
    else:
        env.check(env.not_(good), "a proper logout token is refused")
        env.reach("refused")


@harness("C18", witness=("by sid", "by sub", "nothing"))
def which(env):
    """The session meant is the one found."""
    http = c.HTTP()
    rph, client = party(env, http)
    sub = [env.str("sub%d" % i, "nospace", min=1) for i in range(2)]
    sid = [env.str("sid%d" % i, "nospace", min=1) for i in range(2)]
    env.assume(env.not_(env.eq(sid[0], sid[1])))
    s = [login(rph, http, c.ISS, sub[i], sid[i]) for i in range(2)]
    kw = {}
    what = env.pick("names", ["sub", "sid", "both"])
    if what != "sid":
        kw["sub"] = env.str("sub", "nospace", min=1)
    if what != "sub":
        kw["sid"] = env.str("sid", "nospace", min=1)
    got, err = ask(env, client, c.sign(claims(client, **kw)))
    if what != "sub":
        for i in range(2):
            if env.eq(kw["sid"], sid[i]):
                env.check(err is None and got == s[i], "the session with that ID")
                env.reach("by sid")
                return
    if what == "sid":
        env.check(isinstance(err, KeyError), "there's no such session")
        env.reach("nothing")
        return
    for i in (1, 0):
        if env.eq(kw["sub"], sub[i]):
            env.check(err is None and got == s[i], "the latest session of that subject")
            env.reach("by sub")
            return
    env.check(isinstance(err, KeyError), "there's no such session")
    env.reach("nothing")


@harness("C18", witness=("own", "other"))
def between_providers(env):
    """A provider reaches its own sessions only, even for subjects and IDs others also use."""
    http = c.HTTP()
    rph, cl1, cl2 = party(env, http, providers=2)
    sub, sid = env.str("sub", "nospace", min=1), env.str("sid", "nospace", min=1)
    order = env.pick("order", [(c.ISS, c.ISS2), (c.ISS2, c.ISS)])
    s = {i: login(rph, http, i, sub, sid) for i in order}
    who = env.pick("signer", ["op", "op2"])
    iss = env.pick("iss", [c.ISS, c.ISS2])
    at = env.pick("at", [c.ISS, c.ISS2])
    client = rph.issuer2rp[at]
    kw = {"sub": sub} if env.flag("by_sub") else {"sid": sid}
    got, err = ask(env, client, c.sign(claims(client, iss=iss, **kw), "RS256", who))
    if {"op": c.ISS, "op2": c.ISS2}[who] == iss == at:
        env.check(err is None and got == s[at], "its own session")
        env.check(rph.get_client_from_session_key(got) is client, "with that provider")
        env.reach("own")
    else:
        env.check(err is not None, "a session with another provider")
        env.reach("other")


@harness("C18", witness=("ended",))
def afterwards(env):
    """What was ended stays ended: the same token leads nowhere then."""
    http = c.HTTP()
    rph, client = party(env, http)
    sub, sid = env.str("sub", "nospace", min=1), env.str("sid", "nospace", min=1)
    other = env.str("other", "nospace", min=1)
    env.assume(env.not_(env.eq(sid, other)))
    s1 = login(rph, http, c.ISS, sub, sid)
    s2 = login(rph, http, c.ISS, "someone", other)
    env.assume(env.not_(env.eq(sub, "someone")))
    kw = {"sub": sub} if env.flag("by_sub") else {"sid": sid}
    tok = c.sign(claims(client, **kw))
    got, err = ask(env, client, tok)
    env.check(err is None and got == s1, "the session")
    rph.clear_session(got)
    got, err = ask(env, client, tok)
    env.check(isinstance(err, KeyError), "there's no such session any more")
    env.check(rph.has_active_authentication(s2), "the other one is untouched")
    env.reach("ended")
