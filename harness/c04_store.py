"""C04: session records and the look-ups that lead to them."""
from oidcmsg.message import Message
from oidcmsg.oauth2 import AccessTokenResponse, AuthorizationRequest, AuthorizationResponse
from symx.api import harness

from harness import common as c
from oidcrp.state_interface import StateInterface

TYPES = {
    "nonce": ("store_nonce2state", "get_state_by_nonce"),
    "sub": ("store_sub2state", "get_state_by_sub"),
    "sid": ("store_sid2state", "get_state_by_sid"),
    "logout": ("store_logout_state2state", "get_state_by_logout_state"),
}


def keys(env, *names):
    ks = [env.str(n, "alnum", min=1, max=24) for n in names]
    for i, a in enumerate(ks):
        env.assume(env.not_(env.eq(a[:3], "ref")))
        for b in ks[:i]:
            env.assume(env.not_(env.eq(a, b)))
    return ks


def put(st, typ, value, key):
    getattr(st, TYPES[typ][0])(value, key)


def look(st, typ, value):
    return getattr(st, TYPES[typ][1])(value)


@harness("C04", witness=("stored",))
def records_are_kept_apart(env):
    """Two sessions, then one operation on the first: the second one is what it was."""
    st = StateInterface()
    k1, k2 = keys(env, "key1", "key2")
    st.create_state(c.ISS, k1)
    st.create_state(c.ISS2, k2)
    a1, a2 = env.str("scope1", "token", min=1), env.str("token2", "token", min=1)
    st.store_item(AuthorizationRequest(response_type="code", client_id="cl", scope=a1, state=k1),
                  "auth_request", k1)
    st.store_item(AccessTokenResponse(access_token=a2, token_type="Bearer", refresh_token=a2),
                  "token_response", k2)
    held = {"token_response": AccessTokenResponse(access_token="at", token_type="Bearer"),
            "refresh_token_response": AccessTokenResponse(access_token="at2",
                                                          token_type="Bearer"),
            "auth_response": AuthorizationResponse(code="code", state=k1),
            "pkce": Message(code_verifier="verifier")}
    for typ, item in held.items():
        st.store_item(item, typ, k1)
    for typ in TYPES:
        put(st, typ, "bound", k1)
    before = st.get_state(k2).to_dict()
    op = env.pick("op", ["item", "request", "overwrite", "nonce", "sub", "sid", "logout",
                         "again", "read"])
    v = env.str("v", "token", min=1)
    if op == "item":
        typ = env.pick("typ", ["token_response", "refresh_token_response", "user_info"])
        held[typ] = AccessTokenResponse(access_token=v, token_type="Bearer")
        st.store_item(held[typ], typ, k1)
        env.check(env.eq(st.get_item(AccessTokenResponse, typ, k1)["access_token"],
                         v), "the stored item is returned")
    elif op == "request":
        held["auth_response"] = AuthorizationResponse(code=v, state=k1)
        st.store_item(held["auth_response"], "auth_response", k1)
        got = st.get_item(AuthorizationResponse, "auth_response", k1)
        env.check(env.and_(env.eq(got["code"], v), env.eq(got["state"], k1)),
                  "the stored response is returned")
    elif op == "overwrite":
        st.store_item(AuthorizationRequest(response_type="code", client_id=v, scope="openid",
                                           state=k1), "auth_request", k1)
        got = st.get_item(AuthorizationRequest, "auth_request", k1)
        env.check(env.eq(got["client_id"], v), "the newer request is returned")
    elif op in TYPES:
        put(st, op, v, k1)
    elif op == "again":
        st.create_state(c.ISS, k1)
    else:
        args = st.multiple_extend_request_args({}, k1, ["refresh_token"],
                                               ["auth_response", "token_response"])
        env.check(args == {}, "nothing of another session is handed out")
    if op not in ("overwrite", "again"):
        got = st.get_item(AuthorizationRequest, "auth_request", k1)
        env.check(env.and_(env.eq(" ".join(got["scope"]), a1), env.eq(got["state"], k1)),
                  "the request of the first session is returned unchanged")
    for typ, item in held.items():
        if op != "again":
            got = st.get_item(type(item), typ, k1)
            env.check(env.eq(got.to_dict(), item.to_dict()), "the other items of it stay")
    for typ in TYPES:
        env.check(env.eq(look(st, typ, "bound"), k1), "and what is bound to it")
    after = st.get_state(k2).to_dict()
    env.check(env.eq(before, after), "another session's record is unchanged")
    env.check(env.eq(st.get_iss(k1), c.ISS), "issuer of the first session")
    env.check(env.eq(st.get_iss(k2), c.ISS2), "issuer of the second session")
    got = st.get_item(AccessTokenResponse, "token_response", k2)
    env.check(env.eq(got["access_token"], a2), "the second session's token")
    env.reach("stored")


@harness("C04", witness=("both",))
def lookups_lead_back(env):
    """A value bound to a session leads back to that session and no other."""
    st = StateInterface()
    k1, k2 = keys(env, "key1", "key2")
    st.create_state(c.ISS, k1)
    st.create_state(c.ISS2, k2)
    t1 = env.pick("t1", sorted(TYPES))
    t2 = env.pick("t2", sorted(TYPES))
    v1 = env.str("v1", "print", min=1)
    v2 = env.str("v2", "print", min=1)
    if t1 == t2:
        env.assume(env.not_(env.eq(v1, v2)))
    put(st, t1, v1, k1)
    put(st, t2, v2, k2)
    env.check(env.eq(look(st, t1, v1), k1), "value of the first session")
    env.check(env.eq(look(st, t2, v2), k2), "value of the second session")
    env.check(env.eq(st.get_iss(k1), c.ISS), "record of the first session")
    env.check(env.eq(st.get_iss(k2), c.ISS2), "record of the second session")
    env.reach("both")


@harness("C04", witness=("unknown", "known"))
def unknown_values_lead_nowhere(env):
    """A value never bound finds no session."""
    st = StateInterface()
    k1, k2 = keys(env, "key1", "key2")
    st.create_state(c.ISS, k1)
    t1 = env.pick("t1", sorted(TYPES))
    v1 = env.str("v1", "print", min=1)
    put(st, t1, v1, k1)
    t2 = env.pick("t2", sorted(TYPES))
    u = env.str("u", "print", min=1)
    got, err = c.outcome(look, st, t2, u)
    if err is None:
        env.check(t1 == t2, "a value of another kind does not lead to the session")
        env.check(env.eq(u, v1), "only the bound value leads to the session")
        env.check(env.eq(got, k1), "to the session it was bound to")
        env.reach("known")
    else:
        env.check(isinstance(err, KeyError), "an unknown value is reported as KeyError")
        if t1 == t2:
            env.check(env.not_(env.eq(u, v1)), "a bound value is found")
        env.reach("unknown")
    got, err = c.outcome(st.get_state, k2)
    env.check(isinstance(err, KeyError), "an unknown session key is reported as KeyError")
    got, err = c.outcome(st.get_iss, k2)
    env.check(isinstance(err, KeyError), "no issuer for an unknown session")
    got, err = c.outcome(st.get_item, Message, "auth_request", k2)
    env.check(isinstance(err, KeyError), "no item for an unknown session")


@harness("C04", witness=("latest",))
def latest_binding_wins(env):
    """Re-binding a value moves it; other bindings of both sessions stay."""
    st = StateInterface()
    k1, k2 = keys(env, "key1", "key2")
    st.create_state(c.ISS, k1)
    st.create_state(c.ISS2, k2)
    t = env.pick("t", sorted(TYPES))
    o = env.pick("other", [x for x in sorted(TYPES) if x != t])
    v = env.str("v", "print", min=1)
    w = env.str("w", "print", min=1)
    put(st, o, w, k1)
    put(st, t, v, k1)
    put(st, t, v, k2)
    env.check(env.eq(look(st, t, v), k2), "the latest binding counts")
    env.check(env.eq(look(st, o, w), k1), "bindings of another kind stay")
    env.reach("latest")
