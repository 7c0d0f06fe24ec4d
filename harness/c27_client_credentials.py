"""C27: a client acting in its own name: one token per purpose, kept, refreshed and used as such."""
import base64
import json
from urllib.parse import quote_plus

from oidcmsg.oauth2 import AccessTokenResponse
from oidcrp import oauth2
from symx.api import harness

from harness import common as c

URL = "https://op.example.org/token"
CC = "oidcrp.oauth2.client_credentials."


def party(env, http, authn=None, again=None, more=None, **conf):
    srv = {"token": {"class": CC + "cc_access_token.CCAccessToken"},
           "refresh": {"class": CC + "cc_refresh_access_token.CCRefreshAccessToken"}}
    if authn:
        srv["token"]["kwargs"] = {"conf": {"default_authn_method": authn}}
    if again:
        srv["refresh"]["kwargs"] = {"conf": {"default_authn_method": again}}
    srv.update(more or {})
    cfg = {"client_id": "client-at-op", "client_secret": c.SECRET,
           "issuer": c.ISS, "provider_info": {"issuer": c.ISS, "token_endpoint": URL}}
    cfg.update(conf)
    env.set_time(c.NOW)
    return oauth2.Client(config=cfg, httplib=http, services=srv)


def ask(client, key=None, args=None):
    kw = {} if key is None else {"state": key}
    a = {"grant_type": "client_credentials"}
    a.update(args or {})
    return client.do_request("accesstoken", request_args=a, **kw)


def renew(client, key=None, **kw):
    if key is not None:
        kw["state"] = key
    return client.do_request("refresh_token", **kw)


def kept(client, key):
    return c.ctx(client).state.get_item(AccessTokenResponse, "token_response", key)


def basic(cid, secret):
    return "Basic " + base64.b64encode(
        (quote_plus(cid) + ":" + quote_plus(secret)).encode()).decode()


def answer(d, status=200):
    return lambda url, method, kw: c.Response(status, json.dumps(d))


@harness("C27", witness=("basic", "post", "scope"))
def request(env):
    """The request is the client's own and says so."""
    authn = env.pick("method", [None, "client_secret_basic", "client_secret_post"])
    cid = env.str("client_id", "print", min=1)
    secret = env.str("client_secret", "print", min=1)
    http = c.HTTP(answer({"access_token": "at-1", "token_type": "Bearer"}))
    client = party(env, http, authn, client_id=cid, client_secret=secret)
    args, scope = {}, None
    if env.flag("scope"):
        scope = env.str("scope_value", "token", min=1)
        args["scope"] = [scope]
    key = env.pick("key", [None, "job-1"])
    resp = ask(client, key, args)
    env.check(len(http.log) == 1, "one request")
    r = http.log[0]
    env.check(r["url"] == URL and r["method"] == "POST", "to the token endpoint")
    body = c.body_of(r["data"])
    env.check(body["grant_type"] == "client_credentials", "grant type")
    want = {"grant_type"}
    if scope is not None:
        want.add("scope")
        env.check(env.eq(body["scope"], scope), "scope asked for")
        env.reach("scope")
    if authn == "client_secret_post":
        want |= {"client_id", "client_secret"}
        env.check(env.and_(env.eq(body["client_id"], cid), env.eq(body["client_secret"], secret)),
                  "client ID and secret")
        env.check("Authorization" not in r["headers"], "once")
        env.reach("post")
    else:
        env.check(env.eq(r["headers"]["Authorization"], basic(cid, secret)),
                  "client ID and secret")
        env.reach("basic")
    env.check(set(body) == want, "and nothing else")
    env.check(resp["access_token"] == "at-1", "the token is handed out")


@harness("C27", witness=("first", "renewed", "not renewed"), bounds={"refreshes": 2},
         thorough={"refreshes": 3})
def latest(env):
    """Every refresh is made with the refresh token last received."""
    key = env.pick("key", [None, "cc", "job-1"])
    again = env.pick("method", [None, "client_secret_basic", "client_secret_post"])
    http = c.HTTP()
    client = party(env, http, again=again)
    at, rt = env.str("at", "token", min=1), env.str("rt", "token", min=1)
    http.answer = answer({"access_token": at, "token_type": "Bearer", "refresh_token": rt})
    ask(client, key)
    env.reach("first")
    for i in range(env.b["refreshes"]):
        new = env.str("at%d" % i, "token", min=1)
        d = {"access_token": new, "token_type": "Bearer"}
        nrt = rt
        if env.flag("rotated%d" % i):
            nrt = d["refresh_token"] = env.str("rt%d" % i, "token", min=1)
        http.log.clear()
        http.answer = answer(d)
        resp = renew(client, key)
        env.check(len(http.log) == 1, "one request")
        r = http.log[0]
        env.check(r["url"] == URL and r["method"] == "POST", "to the token endpoint")
        body = c.body_of(r["data"])
        env.check(body["grant_type"] == "refresh_token", "grant type")
        env.check("access_token" not in body, "the access token stays here")
        if again is None:
            env.check(env.eq(r["headers"]["Authorization"], "Bearer " + rt), "the last one")
            env.check("client_secret" not in body, "the secret stays here")
        else:
            env.check(env.eq(body["refresh_token"], rt), "the last one")
        env.check(env.eq(resp["access_token"], new), "handed out")
        now = kept(client, key or "cc")
        env.check(env.eq(now["access_token"], new), "the new token is in use")
        env.check(env.eq(now["refresh_token"], nrt), "the refresh token to use next")
        env.reach("renewed" if nrt is not rt else "not renewed")
        rt = nrt


@harness("C27", witness=("apart", "alike"))
def purposes(env):
    """Tokens kept under two names have nothing to do with each other."""
    k1 = env.str("k1", "token", min=1)
    k2 = env.str("k2", "token", min=1)
    http = c.HTTP()
    client = party(env, http)
    for k, n in ((k1, "1"), (k2, "2")):
        http.answer = answer({"access_token": "at-" + n, "token_type": "Bearer",
                              "refresh_token": "rt-" + n})
        ask(client, k)
    same = env.eq(k1, k2)
    http.log.clear()
    http.answer = answer({"access_token": "at-3", "token_type": "Bearer", "refresh_token": "rt-3"})
    renew(client, k1)
    sent = http.log[0]["headers"]["Authorization"]
    if same:
        env.check(sent == "Bearer rt-2", "the last one")
        env.reach("alike")
    else:
        env.check(sent == "Bearer rt-1", "its own")
        env.check(kept(client, k2)["access_token"] == "at-2", "the other stays")
        env.check(kept(client, k2)["refresh_token"] == "rt-2", "the other stays")
        renew(client, k2)
        env.check(http.log[1]["headers"]["Authorization"] == "Bearer rt-2", "its own")
        env.reach("apart")
    env.check(kept(client, k1)["access_token"] == "at-3", "the new one")
    _, err = c.outcome(renew, client)
    _, mine = c.outcome(kept, client, "cc")
    env.check(env.implies(env.and_(env.not_(env.eq(k1, "cc")), env.not_(env.eq(k2, "cc"))),
                          env.and_(err is not None, mine is not None)),
              "nothing is made up for a name nothing is kept under")


@harness("C27", witness=("lives", "unknown"))
def lifetime(env):
    """When a token expires is reckoned from when it was received."""
    which = env.pick("request", ["first", "refresh"])
    http = c.HTTP(answer({"access_token": "at-0", "token_type": "Bearer", "refresh_token": "rt-0",
                          "expires_in": 60}))
    client = party(env, http)
    key = env.pick("key", [None, "job-1"])
    if which == "refresh":
        ask(client, key)
    now = env.int("now", c.NOW, c.NOW + 10 ** 8)
    env.set_time(now)
    d = {"access_token": "at-1", "token_type": "Bearer", "refresh_token": "rt-1"}
    life = None
    if env.flag("said"):
        life = d["expires_in"] = env.int("expires_in", 0, 10 ** 8)
    http.answer = answer(d)
    ask(client, key) if which == "first" else renew(client, key)
    item = kept(client, key or "cc")
    env.check(item["access_token"] == "at-1", "the new token")
    if life is None:
        env.check("__expires_at" not in item, "not known")
        env.reach("unknown")
    else:
        env.check(env.eq(item["__expires_at"], now + life), "received and lifetime")
        env.reach("lives")


@harness("C27", witness=("error", "garbage"))
def refused(env):
    """What isn't a token response changes nothing."""
    key = env.pick("key", [None, "job-1"])
    which = env.pick("request", ["first", "refresh"])
    http = c.HTTP(answer({"access_token": "at-0", "token_type": "Bearer", "refresh_token": "rt-0",
                          "expires_in": 60}))
    client = party(env, http)
    ask(client, key)
    how = env.pick("how", ["error", "error 200", "no token", "html", "server", "network"])
    d = {"access_token": "at-1", "token_type": "Bearer", "refresh_token": "rt-1"}
    if how in ("error", "error 200"):
        d["error"] = env.str("error", "alnum", min=1)
        http.answer = answer(d, env.pick("status", [400, 401]) if how == "error" else 200)
    elif how == "no token":
        del d[env.pick("without", ["access_token", "token_type"])]
        http.answer = answer(d)
    elif how == "html":
        txt = env.str("text", "alnum", min=1)
        http.answer = lambda *a: c.Response(200, "<html>" + txt, ctype="text/html")
    elif how == "server":
        code = env.pick("status", [500, 502, 503])
        http.answer = lambda *a: c.Response(code, json.dumps(d))
    else:
        def down(*a):
            raise ConnectionError()
        http.answer = down
    before = c.db_of(client)
    got, err = c.outcome(ask if which == "first" else renew, client, key)
    env.check(c.same_store(env, before, c.db_of(client)), "nothing changes")
    if how.startswith("error"):
        env.check(err is not None or env.eq(got["error"], d["error"]), "the error is reported")
        env.reach("error")
    else:
        env.check(err is not None, "reported")
        env.reach("garbage")
    http.answer = answer({"access_token": "at-2", "token_type": "Bearer"})
    http.log.clear()
    renew(client, key)
    env.check(http.log[0]["headers"]["Authorization"] == "Bearer rt-0", "the token kept is used")


@harness("C27", witness=("bearer", "other"))
def nothing_to_send(env):
    """Without a refresh token there is nothing to ask with, whatever others have done."""
    http = c.HTTP()
    if env.flag("another_client_before"):
        other = party(env, http)
        http.answer = answer({"access_token": "at-x", "token_type": "Bearer",
                              "refresh_token": "rt-x"})
        ask(other)
        renew(other)
    again = env.pick("method", [None, "client_secret_basic", "client_secret_post"])
    client = party(env, http, again=again)
    key = env.pick("key", [None, "job-1"])
    if env.flag("has_token"):
        http.answer = answer({"access_token": env.str("at", "token", min=1),
                              "token_type": "Bearer"})
        ask(client, key)
    before = c.db_of(client)
    http.log.clear()
    _, err = c.outcome(renew, client, key)
    env.check(err is not None, "reported")
    env.check(http.log == [], "no refresh request without a refresh token")
    env.check(c.same_store(env, before, c.db_of(client)), "nothing changes")
    env.reach("bearer" if again is None else "other")
