"""C19: an RP initiated logout is about its session, at its provider, and can be recognised."""
import copy

from cryptojwt.jws.utils import left_hash
from symx.api import harness

from harness import common as c
from oidcrp.exception import OidcServiceError


def login(env, rph, http, iss, rtype="code", **claims):
    """The session, and the ID Token that came at the front and the one from the back."""
    q = c.query_of(rph.begin(iss)["url"])
    who = "op" if iss == c.ISS else "op2"
    h = {"c_hash": left_hash("code", "HS256")} if rtype == "code id_token" else {}
    front = c.id_token(q, iss=iss, who=who, jti="front", **h, **claims)
    back = c.id_token(q, iss=iss, who=who, jti="back", **claims)
    http.answer = c.Provider({"access_token": "at", "token_type": "Bearer", "id_token": back,
                              "refresh_token": "rt"})
    r = {"state": q["state"]}
    if "id_token" in rtype:
        r["id_token"] = front
    if "code" in rtype:
        r["code"] = "code"
    client = rph.issuer2rp[iss]
    rph.finalize_auth(client, iss, r)
    if "code" in rtype:
        rph.get_tokens(q["state"])
        return q["state"], back
    return q["state"], front


def party(env, http, rtype="code", providers=2, **kw):
    cfg = {}
    for iss in [c.ISS, c.ISS2][:providers]:
        cfg[iss] = c.client_config(iss, **copy.deepcopy(kw))
        cfg[iss]["behaviour"]["response_types"] = [rtype]
    rph = c.handler(cfg, http)
    env.set_time(c.NOW)
    return [rph] + [c.setup(rph, i, "op" if i == c.ISS else "op2") for i in cfg]


@harness("C19", witness=("done",))
def request(env):
    """Where the user is sent, with what, for any of several sessions."""
    http = c.HTTP()
    rtype = env.pick("response_type", ["code", "id_token", "code id_token"])
    conf = env.pick("configured", ["none", "one", "list"])
    kw = {}
    if conf != "none":
        kw["post_logout_redirect_uris"] = "https://rp.example.com/bye" if conf == "one" else \
            ["https://rp.example.com/bye", "https://rp.example.com/bye2"]
    rph, cl1, cl2 = party(env, http, rtype, **kw)
    s = [login(env, rph, http, iss, rtype) for iss in (c.ISS, c.ISS, c.ISS2)]
    n = env.pick("session", [0, 1, 2])
    state, hint = s[n]
    iss = c.ISS if n < 2 else c.ISS2
    client = rph.issuer2rp[iss]
    uri = env.str("uri", "path", min=1) if env.flag("own_uri") else ""
    uri = uri and "https://rp.example.com/" + uri
    how = env.pick("through", ["logout", "close", "close with issuer"])
    if how == "logout":
        req = rph.logout(state, post_logout_redirect_uri=uri)
    elif how == "close":
        req = rph.close(state, post_logout_redirect_uri=uri)
    else:
        req = rph.close(state, iss, post_logout_redirect_uri=uri)
    env.check(req["url"].split("?")[0] == iss + "/end_session", "at the provider of the session")
    q = c.query_of(req["url"])
    env.check(q["id_token_hint"] == hint, "with the ID Token of the session")
    if uri:
        env.check(env.eq(q["post_logout_redirect_uri"], uri), "to come back where it was asked for")
    elif conf != "none":
        env.check(q["post_logout_redirect_uri"] == "https://rp.example.com/bye",
                  "to come back where it is configured")
    else:
        env.check("post_logout_redirect_uri" not in q, "with nowhere to come back")
    env.check(q["state"] not in [x for x, _ in s], "the logout's own state")
    env.check(c.state_of(client).get_state_by_logout_state(q["state"]) == state,
              "which leads back to the session")
    other = rph.issuer2rp[c.ISS2 if n < 2 else c.ISS]
    _, err = c.outcome(c.state_of(other).get_state_by_logout_state, q["state"])
    env.check(isinstance(err, KeyError), "and to no other provider's")
    for x, _ in s:
        env.check(c.state_of(rph.get_client_from_session_key(x)).get_state(x)["iss"] ==
                  rph.state2issuer(x), "the sessions are there until the user is back")
    env.check(http.log == [x for x in http.log if "/end_session" not in x["url"]],
              "the user is sent there, not the client")
    _, err = c.outcome(rph.close, state, c.ISS2 if n < 2 else c.ISS)
    env.check(err is not None, "another provider's session can't be closed there")
    env.reach("done")


@harness("C19", witness=("done",))
def several(env):
    """Each logout has a state of its own that leads to its own session, until that is removed."""
    http = c.HTTP()
    rph, client = party(env, http, providers=1)
    s = [login(env, rph, http, c.ISS)[0] for i in range(2)]
    who = [env.pick("who%d" % i, [0, 1]) for i in range(3)]
    ls = [c.query_of(rph.logout(s[i])["url"])["state"] for i in who]
    env.check(len(set(ls)) == 3, "no state is used twice")
    for i, x in zip(who, ls):
        env.check(c.state_of(client).get_state_by_logout_state(x) == s[i], "its own session")
    rph.clear_session(s[0])
    for i, x in zip(who, ls):
        got, err = c.outcome(c.state_of(client).get_state_by_logout_state, x)
        if i == 0:
            env.check(isinstance(err, KeyError), "a session that was ended")
        else:
            env.check(got == s[1], "the other session is untouched")
    env.reach("done")


@harness("C19", witness=("hint",))
def latest_token(env):
    """After a refresh the hint is the new ID Token, unless there was none."""
    http = c.HTTP()
    rph, client = party(env, http, providers=1)
    s, hint = login(env, rph, http, c.ISS)
    for i in range(2):
        if env.flag("refresh%d" % i):
            tr = {"access_token": "at%d" % i, "token_type": "Bearer"}
            if env.flag("id_token%d" % i):
                hint = c.sign({"iss": c.ISS, "sub": "subject", "aud": [c.ctx(client).client_id],
                               "exp": c.NOW + 300, "iat": c.NOW, "jti": "r%d" % i})
                tr["id_token"] = hint
            http.answer = c.Provider(tr)
            rph.refresh_access_token(s)
    q = c.query_of(rph.logout(s)["url"])
    env.check(q["id_token_hint"] == hint, "the session's latest ID Token")
    env.reach("hint")


@harness("C19", witness=("refused",))
def impossible(env):
    """No logout for what is no session, or where there's no way to log out."""
    http = c.HTTP()
    what = env.pick("what", ["unknown", "unknown provider", "no service", "ended", "no endpoint"])
    if what == "no service":
        cfg = {c.ISS: c.client_config(c.ISS)}
        rph = c.handler(cfg, http, c.services("end_session"))
        c.setup(rph)
        env.set_time(c.NOW)
        s, _ = login(env, rph, http, c.ISS)
        _, err = c.outcome(rph.logout, s)
        env.check(isinstance(err, OidcServiceError), "it is told that it can't")
        env.reach("refused")
        return
    kw = {}
    if what == "no endpoint":
        kw["provider_info"] = c.provider_info(c.ISS)
        del kw["provider_info"]["end_session_endpoint"]
    rph, cl1 = party(env, http, providers=1, **kw)
    s, _ = login(env, rph, http, c.ISS)
    args = (s,)
    if what == "unknown":
        args = (env.str("key", "token", min=1),)
        env.assume(args[0] != s)
    elif what == "unknown provider":
        args = (s, c.ISS2)
    elif what == "ended":
        rph.clear_session(s)
    _, err = c.outcome(rph.close, *args)
    env.check(err is not None, "no logout request")
    env.reach("refused")
