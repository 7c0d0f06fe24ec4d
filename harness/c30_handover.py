"""C30: what a client knows can be taken up by another, which then carries on as it would have."""
import base64
import copy
import json
from urllib.parse import quote_plus

from symx.api import harness

from harness import common as c
from harness.c10_pkce import challenge, pkce
from harness.c13_discovery import metadata
from harness.c18_backchannel import EVENT
from harness.c25_dpop import proof
from oidcrp.rp_handler import backchannel_logout


class Op:
    """A provider that registers clients."""

    def __init__(self, reg=None):
        self.reg = reg
        self.token = self.info = None

    def __call__(self, url, method, kw):
        what = url.split("?")[0][len(c.ISS):]
        if what == "/.well-known/openid-configuration":
            return c.Response(200, json.dumps(metadata(
                c.ISS, jwks_uri="https://keys.example.com/jwks.json",
                backchannel_logout_session_supported=True)))
        if what == "/registration":
            return c.Response(201, json.dumps(dict(json.loads(kw["data"]), **self.reg)))
        if what == "/token":
            return c.Response(200, json.dumps(self.token))
        return c.Response(200, json.dumps(self.info))


def config(dynamic, add_ons):
    if dynamic:
        cfg = {"issuer": c.ISS, "redirect_uris": ["https://rp.example.com/cb"],
               "client_preferences": {"response_types": ["code"],
                                      "token_endpoint_auth_method": ["client_secret_basic"]},
               "behaviour": {"scope": ["openid"]}}
    else:
        cfg = c.client_config(c.ISS)
        cfg["provider_info"]["backchannel_logout_session_supported"] = True
    if add_ons:
        cfg["add_ons"] = pkce(64, "S256")
    return cfg


def carried(dump, dynamic):
    """The dump, as it is after it has been put away and fetched (a key can't be)."""
    if dynamic is None:
        return dump
    if dynamic:
        return copy.deepcopy(dump)
    return json.loads(json.dumps(dump))


def another(rph, cfg, http, how, dynamic, iss=c.ISS):
    """A process with the same configuration that takes over from rph."""
    dump = carried(c.ctx(rph.issuer2rp[iss]).dump(), dynamic)
    new = c.handler({iss: copy.deepcopy(cfg)}, http)
    if how == "fresh":
        client = new.init_client(iss)
    else:  # has begun on its own
        client = new.client_setup(iss)
        new.begin(iss)
    c.ctx(client).load(dump)
    new.issuer2rp.update({k: client for k in rph.issuer2rp})
    new.hash2issuer.update(rph.hash2issuer)
    return new




@harness("C30", witness=("begun", "tokens", "refreshed", "every"), bounds={"combinations": 0},
         thorough={"combinations": 1})
def login(env):
    """A login, its refresh and its end are the same whoever carries it on and from where."""
    dynamic = env.pick("registration", ["static", "dynamic"]) == "dynamic"
    all_ = env.b["combinations"]
    add = env.flag("pkce") if all_ else not dynamic
    at = env.pick("taken_over", ["begun", "tokens", "refreshed", "every"])
    how = env.pick("how", ["fresh", "busy"]) if all_ or at == "begun" else "fresh"
    http = c.HTTP()
    cid, secret = "client-at-op", c.SECRET + c.ISS[8:11]
    reg = None
    if dynamic:
        cid = env.str("client_id", "token", min=1)
        secret = env.str("client_secret", "alnum", min=1)
        reg = {"client_id": cid, "client_secret": secret}
    http.answer = op = Op(reg)
    cfg = config(dynamic, add)
    env.set_time(c.NOW)
    rph = c.handler({c.ISS: copy.deepcopy(cfg)}, http)
    c.setup(rph)

    def hop(point):
        env.reach(at)
        return another(rph, cfg, http, how, dynamic) if at in (point, "every") else rph

    def basic(r):
        want = "Basic " + base64.b64encode(
            (quote_plus(cid) + ":" + quote_plus(secret)).encode()).decode()
        env.check(env.eq(r["headers"]["Authorization"], want), "the client's own credentials")

    b = rph.begin(c.ISS)
    s, q = b["state"], c.query_of(b["url"])
    other = rph.begin(c.ISS)["state"]
    rph = hop("begun")
    env.check(rph.state2issuer(s) == c.ISS, "the session is known")
    code = env.str("code", "token", min=1)
    sub, sid = env.str("sub", "token", min=1), env.str("sid", "token", min=1)
    at1, at2, rt = (env.str(x, "token", min=1) for x in ("at1", "at2", "rt"))
    life = env.int("expires_in", 1, 10 ** 6)
    good = env.flag("nonce") if all_ or at == "begun" else True
    idt = c.id_token(dict(q, client_id=cid), sub=sub, sid=sid, exp=c.NOW + 10 ** 7,
                     nonce=q["nonce"] if good else "some-other-nonce")
    op.token = {"access_token": at1, "token_type": "Bearer", "refresh_token": rt,
                "expires_in": life, "id_token": idt}
    op.info = {"sub": sub}
    http.log.clear()
    res, err = c.outcome(rph.finalize, c.ISS, {"state": s, "code": code})
    env.check((err is None) == good, "the nonce is that of the session")
    r = http.log[0]
    body = c.body_of(r["data"])
    env.check(r["url"] == c.ISS + "/token", "the provider's token endpoint")
    env.check(env.eq(body["code"], code), "the code")
    env.check(body["redirect_uri"] == q["redirect_uri"], "the redirect URI")
    if add:
        env.check(challenge(body["code_verifier"], "S256") == q["code_challenge"], "the verifier")
    basic(r)
    if err is not None:
        return
    rph = hop("tokens")
    tok, exp = rph.get_valid_access_token(s)
    env.check(env.eq(tok, at1), "the access token")
    env.check(env.eq(exp, c.NOW + life), "and its expiry")
    env.check(rph.has_active_authentication(s), "logged in")
    op.token = {"access_token": at2, "token_type": "Bearer"}
    http.log.clear()
    rph.refresh_access_token(s)
    r, = http.log
    env.check(env.eq(c.body_of(r["data"])["refresh_token"], rt), "the refresh token")
    basic(r)
    rph = hop("refreshed")
    env.check(env.eq(rph.get_valid_access_token(s)[0], at2), "the latest access token")
    who = env.str("userinfo_sub", "token", min=1)
    op.info = {"sub": who}
    http.log.clear()
    _, err = c.outcome(rph.get_user_info, s)
    env.check(env.eq(http.log[0]["headers"]["Authorization"], "Bearer " + at2), "in use")
    env.check(env.eq(err is None, env.eq(who, sub)), "about the user who logged in")
    client = rph.issuer2rp[c.ISS]
    t = c.sign({"iss": c.ISS, "aud": [cid], "iat": c.NOW, "jti": "j", "events": {EVENT: {}},
                "sid": sid}, "RS256", "op")
    got = backchannel_logout(client, request_args={"logout_token": t})
    env.check(env.eq(got, s), "the session the provider means")
    lo = rph.logout(s)
    env.check(lo["url"].startswith(c.ISS + "/end_session?"), "ends where it began")
    env.check(env.eq(c.query_of(lo["url"])["id_token_hint"], idt), "the session's ID Token")
    rph.clear_session(s)
    env.check(rph.get_session_information(other)["iss"] == c.ISS, "the other session is there")
    for key in (s,):
        _, err = c.outcome(rph.get_session_information, key)
        env.check(err is not None, "the session is gone")
    _, err = c.outcome(client.client_get("service_context").state.get_state_by_sid, sid)
    env.check(err is not None, "nothing leads to it")


@harness("C30", witness=("done",))
def bound_tokens(env):
    """Tokens bound to a key are used with that key, whoever uses them."""
    http = c.HTTP()
    cfg = config(False, False)
    cfg["provider_info"]["dpop_signing_alg_values_supported"] = ["ES256"]
    cfg["add_ons"] = {"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support",
                               "kwargs": {"signing_algorithms": ["ES256"]}}}
    env.set_time(c.NOW)
    rph = c.handler({c.ISS: copy.deepcopy(cfg)}, http)
    client = c.setup(rph)
    at, rt = env.str("at", "token", min=1), env.str("rt", "token", min=1)
    http.answer = c.Provider({"access_token": at, "token_type": "Bearer", "refresh_token": rt},
                             {"sub": "subject"})
    s = rph.begin(c.ISS)["state"]
    rph.finalize_auth(client, c.ISS, {"state": s, "code": "code"})
    rph.get_tokens(s)
    if env.flag("refreshed"):
        rph.refresh_access_token(s)
    key, _ = proof(env, http.log[-1], ["ES256"])
    new = another(rph, cfg, http, env.pick("how", ["fresh", "busy"]), None)
    http.log.clear()
    for what in env.pick("then", ["userinfo", "refresh", "both"]).replace("both", "refresh userinfo").split():
        (new.get_user_info if what == "userinfo" else new.refresh_access_token)(s)
        env.check(proof(env, http.log[-1], ["ES256"])[0] == key, "the key it is bound to")
        if what == "userinfo":
            env.check(env.eq(http.log[-1]["headers"]["Authorization"].split(" ")[1], at), "token")
        else:
            env.check(env.eq(c.body_of(http.log[-1]["data"])["refresh_token"], rt), "token")
    env.reach("done")


@harness("C30", witness=("accepted", "refused"))
def learnt(env):
    """What a provider said about itself and registered goes for whoever takes over."""
    asked = env.pick("asked", [c.ISS, c.ISS + "/"])
    alg = env.pick("registered", [None, "RS256", "ES256"])
    cid = env.str("client_id", "token", min=1)
    reg = {"client_id": cid, "client_secret": c.SECRET}
    if alg:
        reg["id_token_signed_response_alg"] = alg
    cfg = config(True, False)
    cfg["issuer"] = asked
    own = env.flag("own_redirect_uris")
    if not own:
        del cfg["redirect_uris"]
    seen = []
    http = c.HTTP()
    op = Op(reg)

    def answer(url, method, kw):
        if url.endswith("/registration"):
            seen.append(json.loads(kw["data"]))
        return op(url, method, kw)
    http.answer = answer
    env.set_time(c.NOW)
    rph = c.handler({asked: copy.deepcopy(cfg)}, http)
    client = rph.client_setup(asked)
    c.ctx(client).keyjar.import_jwks(c.jwks("op"), c.ISS)
    when = env.pick("taken_over", ["set up", "begun"])
    if when == "set up":
        rph = another(rph, cfg, http, "fresh", True, asked)
    http.log.clear()
    b = rph.begin(asked)
    env.check(http.log == [], "nothing has to be asked again")
    if when == "begun":
        rph = another(rph, cfg, http, "fresh", True, asked)
    q = c.query_of(b["url"])
    env.check(q["redirect_uri"] in seen[0]["redirect_uris"], "a redirect URI that is registered")
    env.check(env.eq(q["client_id"], cid), "the client ID it was given")
    used = env.pick("alg", ["RS256", "ES256"])
    op.token = {"access_token": "at", "token_type": "Bearer",
                "id_token": c.id_token(dict(q, client_id=cid), alg=used)}
    op.info = {"sub": "subject"}
    got, err = c.outcome(rph.finalize, rph.hash2issuer[asked], {"state": b["state"], "code": "code",
                                               "iss": c.ISS, "client_id": cid})
    env.check((err is None) == (used == alg or alg is None), "the algorithm that was agreed on")
    if err is None:
        env.check(got["id_token"]["iss"] == c.ISS, "by the issuer that said so")
        b = rph.begin(asked)
        env.check(c.query_of(b["url"])["redirect_uri"] in seen[0]["redirect_uris"],
                  "a redirect URI that is registered")
    env.reach("accepted" if err is None else "refused")
