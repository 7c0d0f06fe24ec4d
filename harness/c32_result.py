"""C32: a finished login hands out what the provider sent for it."""
from cryptojwt.jws.utils import left_hash
from symx.api import harness

from harness import common as c

TYPES = ["code", "id_token", "id_token token", "code id_token", "code token",
         "code id_token token", "token"]


def party(env, http, rtype, userinfo, sids):
    cfg = c.client_config(c.ISS)
    cfg["behaviour"]["response_types"] = [rtype]
    for k, v in sids.items():
        cfg["provider_info"][k + "channel_logout_session_supported"] = v
    rph = c.handler({c.ISS: cfg}, http, c.services() if userinfo else c.services("userinfo"))
    client = c.setup(rph)
    env.set_time(c.NOW)
    b = rph.begin(c.ISS)
    return rph, client, b["state"], c.query_of(b["url"])


@harness("C32", witness=("endpoint", "ID Token", "nothing", "front", "back"))
def result(env):
    """Whichever way it comes: state, tokens, ID Token, session state, user info and sid."""
    rtype = env.pick("response_type", TYPES)
    parts = set(rtype.split())
    service = env.flag("userinfo_service")
    collect = env.flag("collect_tokens") if {"code", "token"} <= parts else False
    sids = env.pick("sessions", [{}, {"front": True}, {"front": False}, {"back": True},
                                 {"back": False, "front": True}, {"back": True, "front": False}]
                    if rtype in ("code", "id_token") else [{"back": True}])
    http = c.HTTP()
    rph, client, s, q = party(env, http, rtype, service, sids)
    code = env.str("code", "token", min=1)
    at = {n: env.str("at_" + n, "token", min=1) for n in ("front", "back")}
    sub = env.str("sub", "token", min=1)
    sid = env.str("sid", "token", min=1)
    email = {n: env.str("email_" + n, "print", min=1) for n in ("front", "back", "info")}
    kw = {"sub": sub, "sid": sid, "department": "d"}
    r = {"state": s}
    h = {}
    if "code" in parts:
        r["code"] = code
        h["c_hash"] = left_hash(code, "HS256")
    if "token" in parts:
        r.update(access_token=at["front"], token_type="Bearer", expires_in=100)
        h["at_hash"] = left_hash(at["front"], "HS256")
    if "id_token" in parts:
        r["id_token"] = c.id_token(q, email=email["front"], **kw, **h)
    ss = env.str("session_state", "token", min=1) if env.flag("has_session_state") else None
    if ss is not None:
        r["session_state"] = ss
    tr = {"access_token": at["back"], "token_type": "Bearer",
          "id_token": c.id_token(q, email=email["back"], **kw)}
    http.answer = c.Provider(tr, {"sub": sub, "email": email["info"], "shoe_size": "43",
                                  "address": {"country": "SE"}})
    got = rph.finalize(c.ISS, r, behaviour_args={"collect_tokens": True} if collect else None)
    env.check("error" not in got, "the login succeeds")
    env.check(env.eq(got["state"], s), "its state")
    redeemed = "code" in parts and ("token" not in parts or collect)
    asked = [x["url"] for x in http.log]
    want = [c.ISS + "/token"] if redeemed else []
    token = at["back"] if redeemed else at["front"] if "token" in parts else None
    if service and token is not None:
        want.append(c.ISS + "/userinfo")
    env.check(asked == want, "what is needed is asked for")
    env.check(env.eq(got["token"], token), "the access token")
    if redeemed:
        env.check(env.eq(c.body_of(http.log[0]["data"])["code"], code), "the code")
    idt = "back" if redeemed else "front" if "id_token" in parts else None
    if idt is None:
        env.check(not got["id_token"], "no ID Token from nowhere")
    else:
        env.check(env.and_(env.eq(got["id_token"]["sub"], sub),
                           env.eq(got["id_token"]["email"], email[idt]),
                           env.eq(got["id_token"]["iss"], c.ISS)), "the ID Token")
        env.reach(idt)
    u = got["userinfo"]
    if c.ISS + "/userinfo" in want:
        env.check(env.eq(http.log[-1]["headers"]["Authorization"], "Bearer " + token),
                  "with that token")
        env.check(env.eq(u.to_dict(), {"sub": sub, "email": email["info"], "shoe_size": "43",
                                       "address": {"country": "SE"}}), "the user info")
        env.reach("endpoint")
    elif idt:
        for k, v in (("sub", sub), ("email", email[idt]), ("department", "d")):
            env.check(k in u and env.eq(u[k], v), "what the ID Token says of the user")
        env.check(not set(u) & {"iss", "aud", "exp", "iat"}, "not what it says of itself")
        env.reach("ID Token")
    else:
        env.check(not u, "no user info from nowhere")
        env.reach("nothing")
    env.check(env.eq(got["session_state"], ss if ss is not None else ""), "the session state")
    st = c.state_of(client)
    if idt or c.ISS + "/userinfo" in want:
        env.check(env.eq(st.get_state_by_sub(sub), s), "the subject leads to the session")
    back, err = c.outcome(st.get_state_by_sid, sid)
    if idt and any(sids.values()):
        env.check(err is None and env.eq(back, s), "the session ID leads to the session")
    else:
        env.check(err is not None, "no session ID where there are none")
    rec = rph.get_session_information(s)
    env.check(rec["iss"] == c.ISS, "its provider")
