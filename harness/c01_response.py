"""C01: which authorization responses are accepted."""
import json

from symx.api import harness

from harness import common as c
from oidcrp import oauth2


def sessions(env):
    kind = env.pick("client", ["oidc", "oauth2"])
    http = c.HTTP()
    if kind == "oidc":
        rph, cl1, cl2 = c.two_providers(env, http)
    else:
        rph, cl1, cl2 = c.two_providers(env, http, c.OAUTH2_SERVICES, client_cls=oauth2.Client)
    env.set_time(c.NOW)
    b1 = rph.begin(c.ISS)
    b1b = rph.begin(c.ISS)
    b2 = rph.begin(c.ISS2)
    return rph, http, cl1, cl2, b1, b1b, b2


@harness("C01", witness=("accepted", "unknown", "foreign", "iss", "client"))
def only_own_sessions(env):
    """finalize_auth: accepted exactly for a state begun at the issuer answering."""
    rph, http, cl1, cl2, b1, b1b, b2 = sessions(env)
    which = env.pick("state", ["own", "foreign", "unknown", "missing", "empty"])
    code = env.str("code", "token", min=1)
    resp = {"code": code}
    if which == "own":
        resp["state"] = b1["state"]
    elif which == "foreign":
        resp["state"] = b2["state"]
    elif which == "unknown":
        resp["state"] = env.str("unknown_state", "token", min=1)
        for b in (b1, b1b, b2):
            env.assume(env.not_(env.eq(resp["state"], b["state"])))
        env.assume(env.not_(env.eq(resp["state"][:3], "ref")))
    elif which == "empty":
        resp["state"] = ""
    ok = which == "own"
    extra = env.pick("extra", ["none", "iss", "client_id"])
    if extra == "iss":
        resp["iss"] = env.str("iss", "print", min=1)
        if resp["iss"] != c.ISS:
            ok = False
            env.reach("iss")
    elif extra == "client_id":
        resp["client_id"] = env.str("client_id", "print", min=1)
        if resp["client_id"] != "client-at-op":
            ok = False
            env.reach("client")
    before1, before2 = c.db_of(cl1), c.db_of(cl2)
    got, err = c.outcome(rph.finalize_auth, cl1, c.ISS, resp)
    if ok:
        env.check(err is None, "a response to a session begun at this provider is accepted")
        env.check(env.eq(got["code"], code), "and handed back")
        st = c.state_of(cl1)
        env.check(env.eq(json.loads(st.get_state(b1["state"])["auth_response"])["code"]
                         if isinstance(st.get_state(b1["state"])["auth_response"], str)
                         else st.get_state(b1["state"])["auth_response"]["code"], code),
                  "and stored with the session")
        after = c.db_of(cl1)
        for k in before1:
            if k != b1["state"]:
                env.check(env.eq(before1[k], after[k]), "other sessions are unchanged")
        env.check(len(after) == len(before1), "nothing else is stored")
        env.check(c.same_store(env, before2, c.db_of(cl2)), "the other client is unchanged")
        env.reach("accepted")
    else:
        env.check(err is not None, "any other response is refused")
        env.check(c.same_store(env, before1, c.db_of(cl1)), "and leaves the store as it was")
        env.check(c.same_store(env, before2, c.db_of(cl2)), "at both clients")
        if which in ("unknown", "foreign"):
            env.reach(which)
    env.check(http.log == [], "no request is sent while checking a response")


@harness("C01", witness=("refused", "accepted"))
def nothing_happens_for_foreign_responses(env):
    """finalize: no request goes out and nothing is stored for a response that is refused."""
    rph, http, cl1, cl2, b1, b1b, b2 = sessions(env)
    which = env.pick("state", ["own", "foreign", "unknown"])
    code = env.str("code", "token", min=1)
    st = {"own": b1["state"], "foreign": b2["state"]}.get(which)
    if st is None:
        st = env.str("unknown_state", "token", min=1)
        for b in (b1, b1b, b2):
            env.assume(env.not_(env.eq(st, b["state"])))
        env.assume(env.not_(env.eq(st[:3], "ref")))
    at = env.str("token", "token", min=1)
    http.answer = c.Provider({"access_token": at, "token_type": "Bearer"}, {"sub": "subject"})
    before1, before2 = c.db_of(cl1), c.db_of(cl2)
    got, err = c.outcome(rph.finalize, c.ISS, {"code": code, "state": st})
    if which == "own":
        env.check(err is None, "the login is completed")
        env.check(env.eq(got["token"], at), "with the token")
        env.check(len(http.log) >= 1, "the code is redeemed")
        for r in http.log:
            env.check(r["url"].startswith(c.ISS + "/"), "at the provider of the session")
        env.check(c.same_store(env, before2, c.db_of(cl2)), "the other client is unchanged")
        env.reach("accepted")
    else:
        env.check(err is not None, "refused")
        env.check(http.log == [], "without sending anything")
        env.check(c.same_store(env, before1, c.db_of(cl1)), "or storing anything")
        env.check(c.same_store(env, before2, c.db_of(cl2)), "at either client")
        env.reach("refused")


@harness("C01", witness=("error",))
def error_responses_end_the_flow(env):
    """An error response gives an error result and has no effect."""
    rph, http, cl1, cl2, b1, b1b, b2 = sessions(env)
    e = env.str("error", "token", min=1)
    resp = {"error": e, "state": b1["state"]}
    env.maybe(resp, "error_description", lambda: env.str("descr", "token", min=1))
    env.maybe(resp, "code", lambda: env.str("code", "token", min=1))
    env.maybe(resp, "access_token", lambda: env.str("at", "token", min=1))
    before1 = c.db_of(cl1)
    got, err = c.outcome(rph.finalize, c.ISS, resp)
    if err is None:
        env.check(env.eq(got["error"], e), "the error is reported")
        env.check(env.eq(got["state"], b1["state"]), "for the session")
        for k in ("userinfo", "token", "id_token"):
            env.check(not got.get(k), "no login comes out of an error response")
    env.check(err is None, "an error response with the session's state is not an exception")
    env.check(http.log == [], "nothing is sent")
    env.check(c.same_store(env, before1, c.db_of(cl1)), "nothing is stored")
    env.reach("error")


@harness("C01", witness=("accepted", "refused"))
def from_the_issuer_of_the_session(env):
    """The issuer a response is attributed to is that of the session, to the letter."""
    rph, http, cl1, cl2, b1, b1b, b2 = sessions(env)
    iss = env.str("issuer", "print")
    before1 = c.db_of(cl1)
    got, err = c.outcome(rph.finalize_auth, cl1, iss, {"code": "code-1", "state": b1["state"]})
    if err is None:
        env.check(env.eq(iss, c.ISS), "only from the issuer of the session")
        env.reach("accepted")
    else:
        env.check(env.not_(env.eq(iss, c.ISS)), "a response of the session's issuer is accepted")
        env.check(c.same_store(env, before1, c.db_of(cl1)), "nothing is stored")
        env.reach("refused")


@harness("C01", witness=("known", "unknown"))
def to_an_issuer_with_a_client(env):
    """finalize: only providers this relying party has a client for."""
    rph, http, cl1, cl2, b1, b1b, b2 = sessions(env)
    iss = env.str("issuer", "print")
    http.answer = c.Provider({"access_token": "at-1", "token_type": "Bearer"},
                             {"sub": "subject"})
    got, err = c.outcome(rph.finalize, iss, {"code": "code-1", "state": b1["state"]})
    if err is None:
        env.check(env.eq(iss, c.ISS), "only the provider the session was begun with")
        env.check(env.eq(got["state"], b1["state"]), "the session")
        env.reach("known")
    else:
        env.check(env.not_(env.eq(iss, c.ISS)), "the provider the session was begun with")
        env.check(http.log == [], "nothing is sent")
        env.reach("unknown")
