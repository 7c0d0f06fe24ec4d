"""C16: an HTTP answer counts as what it is."""
import json

from symx.api import harness

from harness import common as c
from oidcrp import oauth2


def logged_in(env, http, kind="oidc"):
    """Two sessions, the first of which holds tokens."""
    kw = {} if kind == "oidc" else {"client_cls": oauth2.Client}
    rph = c.handler(None, http, c.OAUTH2_SERVICES if kw else None, **kw)
    client = c.setup(rph)
    env.set_time(c.NOW)
    s = []
    for i in range(2):
        s.append(rph.begin(c.ISS)["state"])
        rph.finalize_auth(client, c.ISS, {"state": s[i], "code": "code-%d" % i})
    http.answer = c.Provider({"access_token": "at-0", "token_type": "Bearer",
                              "refresh_token": "rt-0"})
    rph.get_tokens(s[0])
    http.log.clear()
    return rph, client, s


TOKENS = {"access_token": "new", "token_type": "Bearer"}


def request(rph, s, what):
    """Does the request; what came of it and which valid answer it expects."""
    if what == "code":
        return rph.get_tokens, (s[1],), TOKENS
    if what == "refresh":
        return rph.refresh_access_token, (s[0],), TOKENS
    return rph.get_user_info, (s[0],), {"sub": "subject", "name": "x"}


@harness("C16", witness=("accepted", "refused"))
def by_status(env):
    """Whatever the body: success takes a status of success."""
    kind = env.pick("client", ["oidc", "oauth2"])
    what = env.pick("request", ["code", "refresh"] + (["userinfo"] if kind == "oidc" else []))
    http = c.HTTP()
    rph, client, s = logged_in(env, http, kind)
    fn, args, good = request(rph, s, what)
    status = env.int("status", 100, 599)
    body = env.pick("body", ["good", "error", "text", "empty", "incomplete"])
    ctype = env.pick("type", ["application/json", None, "text/plain"])
    code = env.str("error", "token", min=1)
    text = {"good": json.dumps(good), "error": json.dumps({"error": code}), "text": "no idea",
            "empty": "", "incomplete": '{"foo": "bar"}'}[body]
    http.answer = lambda *a: c.Response(status, text, ctype)
    before = c.db_of(client)
    got, err = c.outcome(fn, *args)
    env.check(len(http.log) == 1, "one request")
    if err is None:
        env.check(env.and_(status >= 200, status < 300), "an answer without a status of success is taken as a success")
        env.check(body == "good", "a body without the answer is taken as a success")
        for k, v in good.items():
            env.check(got[k] == v, "the answer is handed on")
        env.reach("accepted")
    else:
        env.check(not (body == "good" and ctype == "application/json" and bool(env.and_(status >= 200, status < 207))),
                  "a good answer is refused")
        env.check(c.same_store(env, before, c.db_of(client)), "a failure changes the session")
        if body == "error" and ctype == "application/json" and \
                bool(env.or_(env.and_(status >= 200, status < 207), env.and_(status >= 400, status < 500))):
            env.check(env.eq(err.args[0], code), "the error is reported")
        env.reach("refused")


@harness("C16", witness=("json", "urlencoded"))
def by_type(env):
    """An answer is read the way it says it is written."""
    http = c.HTTP()
    rph, client, s = logged_in(env, http, "oauth2")
    tok = env.str("token", "token", min=1)
    enc = env.pick("encoding", ["json", "urlencoded"])
    a = dict(TOKENS, access_token=tok)
    from urllib.parse import urlencode
    text = json.dumps(a) if enc == "json" else urlencode(a)
    ctype = env.pick("type", ["application/json", "application/json; charset=utf-8"]) \
        if enc == "json" else "application/x-www-form-urlencoded"
    http.answer = lambda *x: c.Response(200, text, ctype)
    got, err = c.outcome(rph.get_tokens, s[1])
    env.check(err is None, "accepted")
    env.check(env.eq(got["access_token"], tok), "the token")
    env.check(env.eq(c.state_of(client).get_state(s[1])["token_response"]["access_token"], tok),
              "in the session")
    env.reach(enc)


@harness("C16", witness=("down",))
def unreachable(env):
    """A request that fails leaves the session as it was and can be repeated."""
    http = c.HTTP()
    rph, client, s = logged_in(env, http)
    what = env.pick("request", ["code", "refresh", "userinfo"])
    fn, args, good = request(rph, s, what)
    before = c.db_of(client)

    def down(*a):
        raise ConnectionError("no route")
    http.answer = down
    for i in range(env.pick("attempts", [1, 2])):
        _, err = c.outcome(fn, *args)
        env.check(isinstance(err, ConnectionError), "the failure is reported")
        env.check(c.same_store(env, before, c.db_of(client)), "nothing changes")
    http.answer = lambda *a: c.Response(200, json.dumps(good))
    got, err = c.outcome(fn, *args)
    env.check(err is None, "once it is reachable the request works")
    a, b = http.log[0], http.log[-1]
    env.check(a["url"] == b["url"] and a["data"] == b["data"], "the same request")
    env.reach("down")
