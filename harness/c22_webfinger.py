"""C22: the provider of a user is looked up where the user's identifier says, and only there."""
import json

from symx.api import harness

from harness import common as c
from harness.c13_discovery import metadata

REL = "http://openid.net/specs/connect/1.0/issuer"
WF = "/.well-known/webfinger"


class World:
    """Hosts that answer WebFinger requests, and providers."""

    def __init__(self, links):
        self.links = links
        self.n = 0

    def __call__(self, url, method, kw):
        path = url.split("?")[0]
        if path.endswith(WF):
            return c.Response(200, json.dumps({"subject": "x", "links": self.links(url)}),
                              "application/jrd+json")
        if path.endswith("/.well-known/openid-configuration"):
            iss = path[:-len("/.well-known/openid-configuration")]
            return c.Response(200, json.dumps(
                metadata(iss, jwks_uri="https://keys.example.com/jwks.json")))
        if path.endswith("/registration"):
            self.n += 1
            return c.Response(201, json.dumps(dict(json.loads(kw["data"]),
                                                   client_id="id-%d" % self.n)))
        return c.Response(200, json.dumps({"access_token": "at", "token_type": "Bearer"}))


def party(env, http, **kw):
    cfg = {"client_preferences": {"response_types": ["code"]}, "hash_seed": "the-seed",
           "behaviour": {"scope": ["openid"]}}
    cfg.update(kw)
    env.set_time(c.NOW)
    return c.handler({"": cfg}, http)


@harness("C22", witness=("asked",))
def query(env):
    """The host asked is that of the identifier; the identifier is asked about."""
    user = env.str("user", "alnum", min=1)
    host = env.str("host", "alnum", min=1) + ".example.com"
    path = env.str("path", "alnum", min=1)
    form = env.pick("form", ["user@host", "acct", "https", "https path", "host", "host path",
                             "port", "http", "user@host:port", "fragment"])
    ident, authority, resource = {
        "user@host": (user + "@" + host, host, "acct:" + user + "@" + host),
        "acct": ("acct:" + user + "@" + host, host, "acct:" + user + "@" + host),
        "https": ("https://" + host, host, "https://" + host),
        "https path": ("https://" + host + "/" + path, host, "https://" + host + "/" + path),
        "host": (host, host, "acct:" + host),
        "host path": (host + "/" + path, host, "https://" + host + "/" + path),
        "port": (host + ":8443", host + ":8443", "https://" + host + ":8443"),
        "http": ("http://" + host + "/" + path, host, "http://" + host + "/" + path),
        "user@host:port": ("acct:" + user + "@" + host + ":8443", host + ":8443",
                           "acct:" + user + "@" + host + ":8443"),
        "fragment": ("https://" + host + "/" + path + "#frag", host,
                     "https://" + host + "/" + path),
    }[form]
    http = c.HTTP()
    http.answer = World(lambda url: [{"rel": REL, "href": c.ISS}])
    rph = party(env, http)
    rph.begin(user_id=ident)
    first = http.log[0]
    env.check(first["method"] == "GET", "with GET")
    env.check(env.eq(first["url"].split("?")[0], "https://" + authority + WF),
              "at the host of the identifier, over TLS")
    q = c.query_of(first["url"])
    env.check(env.eq(q["resource"], resource), "about the identifier")
    env.check(q["rel"] == REL, "for the issuer")
    env.check(http.log[1]["url"] == c.ISS + "/.well-known/openid-configuration",
              "then the provider named is asked")
    env.reach("asked")


@harness("C22", witness=("found", "refused"), bounds={"links": 2}, thorough={"links": 3})
def links(env):
    """The link used is one for the issuer, and not an insecure one unless that is allowed."""
    ls = []
    for i in range(env.pick("links", range(env.b["links"] + 1))):
        rel = env.str("rel%d" % i, "nospace", min=1) if i == 0 else \
            env.pick("rel%d" % i, [REL, "http://webfinger.net/rel/avatar"])
        scheme = env.pick("scheme%d" % i, ["https://", "http://"])
        ls.append({"rel": rel, "href": scheme + "p%d." % i +
                   env.str("host%d" % i, "alnum", min=1)})
    http = c.HTTP()
    http.answer = World(lambda url: ls)
    rph = party(env, http)
    got, err = c.outcome(rph.begin, user_id="user@example.com")
    want = None
    for x in ls:
        if env.eq(x["rel"], REL):
            want = x["href"]
            break
    if want is not None and want.startswith("https://"):
        env.check(err is None, "the provider is found")
        env.check(env.eq(rph.state2issuer(got["state"]), want), "the session is with it")
        env.check(env.eq(got["url"].split("?")[0], want + "/authorization"), "the user goes there")
        for x in http.log[1:]:
            env.check(x["url"].startswith(want + "/"), "nobody else is asked")
        env.reach("found")
    else:
        env.check(err is not None, "nothing that may be used is found")
        env.check(len(http.log) == 1, "nobody is asked about it")
        env.check(len(rph.issuer2rp) == 0, "there's no client")
        env.reach("refused")


@harness("C22", witness=("same", "other"), bounds={"users": 3}, thorough={"users": 4})
def users(env):
    """Users of several providers: everybody gets to their own, sessions begun are not lost."""
    http = c.HTTP()
    http.answer = World(lambda url: [{"rel": REL, "href": "https://" + url.split("/")[2][3:]}])
    rph = party(env, http)
    ss = []
    for i in range(env.b["users"]):
        iss = env.pick("provider%d" % i, [c.ISS, c.ISS2])
        # some come by their identifier, some after choosing the provider
        if env.flag("by_identifier%d" % i):
            b = rph.begin(user_id="user%d@wf." % i + iss[8:])
        else:
            b = rph.begin(iss)
        q = c.query_of(b["url"])
        env.check(b["url"].split("?")[0] == iss + "/authorization", "to their provider")
        ss.append((iss, b["state"], q))
    for iss, s, q in ss:
        got, err = c.outcome(rph.state2issuer, s)
        env.check(got == iss, "the session is there, with its provider")
        client = rph.get_client_from_session_key(s)
        env.check(c.ctx(client).client_id == q["client_id"], "the client that began it")
        got, err = c.outcome(rph.finalize_auth, rph.issuer2rp[iss], iss,
                             {"code": "code", "state": s})
        env.check(err is None and got["state"] == s, "and can be finished")
    reg = [x["url"] for x in http.log if x["url"].endswith("/registration")]
    env.check(len(reg) == len(set(reg)), "the client registers once with a provider")
    env.check(set(rph.issuer2rp) == {x for x, _, _ in ss}, "a client for each provider")
    env.reach("same" if len({x for x, _, _ in ss}) == 1 else "other")


@harness("C22", witness=("refused",))
def bad_identifiers(env):
    """What names no host is not looked up anywhere."""
    http = c.HTTP()
    http.answer = World(lambda url: [{"rel": REL, "href": c.ISS}])
    rph = party(env, http)
    v = env.str("v", "alnum", min=1)
    ident = env.pick("form", ["=" + v, "@" + v, "!" + v, "acct:" + v, "https://", "http:///" + v])
    _, err = c.outcome(rph.begin, user_id=ident)
    env.check(isinstance(err, ValueError), "refused")
    env.check(http.log == [], "nobody is asked")
    _, err = c.outcome(rph.begin)
    env.check(isinstance(err, ValueError), "neither a provider nor a user")
    env.check(http.log == [], "nobody is asked")
    env.reach("refused")


@harness("C22", witness=("own", "default"))
def configured(env):
    """A provider with a client of its own gets that one, however the user came to name it."""
    cid = env.str("client_id", "alnum", min=1)
    http = c.HTTP()
    http.answer = World(lambda url: [{"rel": REL, "href": "https://" + url.split("/")[2][3:]}])
    cfg = {"client_preferences": {"response_types": ["code"]}, "hash_seed": "the-seed",
           "behaviour": {"scope": ["openid"]}}
    own = dict(cfg, client_id=cid, client_secret=c.SECRET, issuer=c.ISS2,
               redirect_uris=["https://rp.example.com/own"])
    env.set_time(c.NOW)
    rph = c.handler({"": cfg, c.ISS2: own}, http)
    iss = env.pick("provider", [c.ISS, c.ISS2])
    first = env.flag("chosen_before")
    if first:
        rph.begin(iss)
    b = rph.begin(user_id="user@wf." + iss[8:])
    q = c.query_of(b["url"])
    reg = [x for x in http.log if x["url"].endswith("/registration")]
    if iss == c.ISS2:
        env.check(env.eq(q["client_id"], cid), "the client configured for the provider")
        env.check(q["redirect_uri"] == "https://rp.example.com/own", "with its redirect_uri")
        env.check(not reg, "which needs no registration")
        env.reach("own")
    else:
        env.check(q["client_id"] == "id-1" and len(reg) == 1, "a client is registered")
        env.reach("default")
