"""C31: logins at one provider, however their steps interleave, go as they would alone."""
import copy
import json

from symx.api import harness

from harness import common as c
from harness.c10_pkce import challenge, pkce
from harness.c13_discovery import metadata

FRESH = ("state", "nonce", "code_challenge", "code_verifier")

# What tells a login from another.
ASKS = {
    "scope": ({"scope": ["openid", "email"]}, {"scope": ["openid", "profile"]}),
    "one's scope": ({"scope": ["openid", "email"]}, None),
    "type": ({"response_type": "code id_token"}, None),
    "redirect": ({"redirect_uri": "https://rp.example.com/other"}, None),
    "claims": ({"claims": {"id_token": {"acr": {"value": "2"}}}}, {"max_age": 60}),
    "prompt": ({"prompt": "login"}, {"prompt": "none", "login_hint": "someone"}),
    "the same": (None, None),
}


def config(env, style, add):
    cfg = c.client_config(c.ISS)
    cfg["behaviour"]["response_types"] = ["code", "code id_token"]
    cfg["redirect_uris"] = ["https://rp.example.com/cb", "https://rp.example.com/other"]
    cfg["request_args"] = {"ui_locales": ["sv"]}
    if style != "static":
        for k in ("client_id", "client_secret", "provider_info"):
            del cfg[k]
        cfg["client_preferences"] = cfg.pop("behaviour")
        cfg["behaviour"] = {"scope": ["openid"]}
    if add:
        cfg["add_ons"] = pkce(64, "S256")
    return {{"named": "bobcat"}.get(style, c.ISS): cfg}


class World:
    """A relying party and a provider, and what each login gets to see there."""

    def __init__(self, env, style, add, asks, tokens, info, steps):
        self.http = c.HTTP(self.answer)
        cfg = config(env, style, add)
        self.name, = cfg
        self.rph = c.handler(cfg, self.http)
        self.asks, self.tokens, self.info = asks, tokens, info
        self.begun, self.q, self.seen, self.out = {}, {}, {}, {}
        self.setups = []
        self.now = None
        self.steps = steps

    def answer(self, url, method, kw):
        what = url.split("?")[0][len(c.ISS):]
        if what == "/.well-known/openid-configuration":
            self.setups.append(what)
            return c.Response(200, json.dumps(metadata(
                c.ISS, jwks_uri="https://keys.example.com/jwks.json",
                response_types_supported=["code", "code id_token"],
                scopes_supported=["openid", "email", "profile"])))
        if what == "/registration":
            self.setups.append(what)
            return c.Response(201, json.dumps(dict(
                json.loads(kw["data"]), client_id="client-%d" % len(self.setups),
                client_secret=c.SECRET)))
        d = c.body_of(kw["data"]) if kw.get("data") else {}
        self.seen[self.now].append((method, url, d, dict(kw["headers"])))
        if what == "/userinfo":
            return c.Response(200, json.dumps(self.info[self.now]))
        n = self.now
        t = dict(self.tokens[n][0 if d["grant_type"] == "authorization_code" else 1])
        t["token_type"] = "Bearer"
        if d["grant_type"] == "authorization_code":
            t["id_token"] = c.id_token(self.q[n], sub=self.info[n]["sub"])
        return c.Response(200, json.dumps(t))

    def step(self, n):
        self.now = n
        k = len(self.out.setdefault(n, []))
        self.seen.setdefault(n, [])
        self.out[n].append(getattr(self, self.steps[k])(n))

    def begin(self, n):
        b = self.rph.begin(self.name, req_args=copy.deepcopy(self.asks[n]))
        c.ctx(self.rph.issuer2rp[c.ISS]).keyjar.import_jwks(c.jwks("op"), c.ISS)
        self.begun[n], self.q[n] = b["state"], c.query_of(b["url"])
        return [b["url"].split("?")[0],
                {k: v for k, v in self.q[n].items() if k not in FRESH}]

    def finish(self, n):
        r = {"state": self.begun[n], "code": "code-" + n}
        if "id_token" in self.q[n]["response_type"]:
            from cryptojwt.jws.utils import left_hash
            r["id_token"] = c.id_token(self.q[n], sub=self.info[n]["sub"],
                                       c_hash=left_hash("code-" + n, "HS256"))
        got = self.rph.finalize(c.ISS, r)
        if "error" in got:
            return [got["error"]]
        return [got["state"] == self.begun[n], got["token"], got["userinfo"].to_dict(),
                got["id_token"]["nonce"] == self.q[n]["nonce"], got["id_token"]["sub"]]

    def renew(self, n):
        r = self.rph.refresh_access_token(self.begun[n])
        return [r["access_token"], self.rph.get_valid_access_token(self.begun[n])]

    def leave(self, n):
        q = c.query_of(self.rph.logout(self.begun[n])["url"])
        self.rph.clear_session(self.begun[n])
        _, err = c.outcome(self.rph.get_session_information, self.begun[n])
        q.pop("state", None)
        q.pop("id_token_hint")
        return [q, err is None]




STEPS = ["begin", "finish", "renew", "leave"]


@harness("C31", witness=("same",), bounds={"steps": 3, "combinations": 0},
         thorough={"steps": 4, "combinations": 1})
def interleaved(env):
    """Two logins, step by step in every order, do and return what they do alone."""
    steps = env.b["steps"]
    differ = env.pick("differ", sorted(ASKS))
    full = env.b["combinations"]
    style = env.pick("config", ["static", "dynamic", "named"]) if full else (
        {"scope": "static", "type": "named", "redirect": "dynamic"}.get(differ, "static"))
    add = differ in ("type", "redirect", "the same")
    order, left = [], {"a": steps, "b": steps}
    while left["a"] or left["b"]:
        who = [n for n in "ab" if left[n]]
        if not order and ASKS[differ][0] == ASKS[differ][1]:
            who = ["a"]
        n = env.pick("step%d" % len(order), who) if len(who) > 1 else who[0]
        left[n] -= 1
        order.append(n)
    asks = dict(zip("ab", ASKS[differ]))
    tokens = {n: ({"access_token": env.str("at_" + n, "token", min=1),
                   "refresh_token": env.str("rt_" + n, "token", min=1), "expires_in": 3600},
                  {"access_token": env.str("at2_" + n, "token", min=1)}) for n in "ab"}
    info = {n: {"sub": env.str("sub_" + n, "token", min=1)} for n in "ab"}
    env.set_time(c.NOW)
    what = list(STEPS)
    if steps < len(what):  # one or the other
        del what[2 if differ in ("scope", "prompt", "the same", "type") else 3]
    args = (env, style, add, asks, tokens, info, what)
    both = World(*args)
    for n in order:
        both.step(n)
    env.check(len(both.setups) == {"static": 0}.get(style, 2), "the client is set up once")
    for n in "ab":
        alone = World(*args)
        for _ in range(steps):
            alone.step(n)
        env.check(env.eq(alone.out[n], both.out[n]), "what a login asks and returns")
        a, b = alone.seen[n], both.seen[n]
        env.check(len(a) == len(b), "as many requests")
        for x, y in zip(a, b):
            verifier = y[2].pop("code_verifier", None)
            env.check((x[2].pop("code_verifier", None) is None) == (verifier is None), "a verifier")
            if verifier:
                env.check(challenge(verifier, "S256") == both.q[n]["code_challenge"],
                          "the login's verifier")
            x[2].pop("state", None)
            env.check(y[2].pop("state", both.begun[n]) == both.begun[n], "the login's state")
            env.check(env.eq(x, y), "what the provider sees")
    env.check(both.begun["a"] != both.begun["b"], "two states")
    env.check(both.q["a"]["nonce"] != both.q["b"]["nonce"], "two nonces")
    env.reach("same")
