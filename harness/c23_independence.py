"""C23: what happens at one provider makes no difference to what a client does at another."""
import copy
import json

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from symx.api import harness

from harness import common as c
from harness.c13_discovery import metadata

A, B = c.ISS, c.ISS2
WHO = {A: "op", B: "op2"}
FRESH = ("state", "nonce", "code_challenge", "code_verifier")


class World:
    """Providers with their own metadata, registration answers, tokens and user info."""

    def __init__(self, md, reg, tok, info):
        self.md, self.reg, self.tok, self.info = md, reg, tok, info
        self.q = {}

    def __call__(self, url, method, kw):
        iss = "/".join(url.split("/")[:3])
        what = url[len(iss):].split("?")[0]
        if what == "/.well-known/openid-configuration":
            return c.Response(200, json.dumps(metadata(
                iss, jwks_uri="https://keys.example.com/jwks.json", **self.md[iss])))
        if what == "/registration":
            ans = dict(json.loads(kw["data"]), client_id="client-at-" + iss[8:])
            ans.update(self.reg[iss])
            return c.Response(201, json.dumps(ans))
        if what == "/token":
            idt = c.id_token(self.q[iss], iss=iss, who=WHO[iss], now=c.NOW, sub="subject",
                             alg=self.reg[iss].get("id_token_signed_response_alg", "RS256"))
            return c.Response(200, json.dumps(dict({"token_type": "Bearer", "id_token": idt},
                                                   **self.tok[iss])))
        return c.Response(200, json.dumps(dict({"sub": "subject"}, **self.info[iss])))


def config(style, pkce):
    cfg = {"client_preferences": {
        "response_types": ["code"], "token_endpoint_auth_method": ["client_secret_basic",
                                                                   "client_secret_post"],
        "id_token_signed_response_alg": ["ES256", "RS256"]},
        "behaviour": {"scope": ["openid", "email"]}, "hash_seed": "the-seed",
        "request_args": {"claims": {"id_token": {"acr": None}}}}
    if pkce:
        cfg["add_ons"] = {"pkce": {"function": "oidcrp.oauth2.add_on.pkce.add_support",
                                   "kwargs": {"code_challenge_length": 64,
                                              "code_challenge_method": "S256"}}}
    if style == "default":
        return {"": cfg}
    if style == "shared":  # as from constants or YAML references
        return {A: dict(cfg, issuer=A), B: dict(cfg, issuer=B)}
    static = {"redirect_uris": ["https://rp.example.com/cb"], "client_secret": c.SECRET}
    return {A: dict(cfg, issuer=A, client_id="static-a", **static),
            B: dict(cfg, issuer=B, client_id="static-b", **static)}


class Party:
    def __init__(self, cfg, world):
        self.world = world
        self.http = c.HTTP()
        self.http.answer = world
        self.rph = c.handler(cfg, self.http)
        self.url, self.result = {}, {}

    def setup(self, iss):
        self.rph.client_setup(iss)
        c.ctx(self.rph.issuer2rp[iss]).keyjar.import_jwks(c.jwks(WHO[iss]), iss)

    def begin(self, iss):
        b = self.rph.begin(iss)
        self.url[iss] = b
        self.world.q[iss] = c.query_of(b["url"])

    def finish(self, iss):
        self.result[iss] = c.outcome(self.rph.finalize, iss,
                                     {"code": "code", "state": self.url[iss]["state"]})

    def run(self, steps):
        for what, iss in steps:
            getattr(self, what)(iss)

    def seen(self, iss):
        """What a provider gets to see, without what is new for every request."""
        out = []
        for x in self.http.log:
            if not x["url"].startswith(iss + "/"):
                continue
            d = x["data"]
            if d and d[0] != "{":
                d = {k: v for k, v in c.body_of(d).items() if k not in FRESH}
            elif d:
                d = json.loads(d)
            out.append((x["method"], x["url"], d,
                        {k: v for k, v in x["headers"].items()}))
        q = {k: v for k, v in c.query_of(self.url[iss]["url"]).items() if k not in FRESH}
        return out, self.url[iss]["url"].split("?")[0], q

    def kept(self, iss):
        """What the client knows."""
        x = c.ctx(self.rph.issuer2rp[iss])
        return {k: getattr(x, k) for k in (
            "client_id", "client_secret", "redirect_uris", "behaviour", "issuer", "callback",
            "client_preferences", "register_args")}


def steps(iss, *what):
    return [(w, iss) for w in what]


ORDERS = {
    "after": steps(B, "setup", "begin", "finish") + steps(A, "setup", "begin", "finish"),
    "around setup": steps(A, "setup") + steps(B, "setup", "begin", "finish") +
    steps(A, "begin", "finish"),
    "within": steps(A, "setup", "begin") + steps(B, "setup", "begin", "finish") +
    steps(A, "finish"),
    "interleaved": [(w, i) for w in ("setup", "begin", "finish") for i in (B, A)],
}

METADATA = {
    "auth methods": {"token_endpoint_auth_methods_supported": ["client_secret_post"]},
    "algorithms": {"id_token_signing_alg_values_supported": ["RS256", "ES256"]},
    "scopes": {"scopes_supported": ["openid"], "claims_supported": ["sub"]},
    "nothing": {},
}
REGISTRATION = {
    "auth methods": {"token_endpoint_auth_method": "client_secret_post"},
    "algorithms": {"id_token_signed_response_alg": "ES256"},
    "scopes": {"scope": "openid"},
    "nothing": {},
}


@harness("C23", witness=("same",), bounds={"secret": 32})
def providers(env):
    """One provider sees the same requests whatever another says, and however logins interleave."""
    style = env.pick("config", ["default", "shared", "static"])
    about = env.pick("about", sorted(METADATA))
    pkce = env.flag("pkce")
    order = env.pick("order", sorted(ORDERS))
    md = {A: {"token_endpoint_auth_methods_supported": ["client_secret_basic",
                                                        "client_secret_post"],
              "id_token_signing_alg_values_supported": ["RS256"]},
          B: METADATA[about]}
    reg = {A: {"client_secret": c.SECRET}, B: dict(REGISTRATION[about])}
    reg[B]["client_secret"] = c.SECRET + "b"
    if about == "nothing":
        reg[B]["client_secret"] = env.str("secret", "alnum", length=env.b["secret"])
        reg[B]["client_id"] = env.str("client_id", "alnum", min=1)
    tok = {A: {"access_token": "at-a", "refresh_token": "rt-a"},
           B: {"access_token": env.str("access_token", "token", min=1)}}
    info = {A: {"email": "user@example.com"}, B: {"name": env.str("name", "print", min=1)}}
    env.set_time(c.NOW)
    alone = Party(config(style, pkce), World(copy.deepcopy(md), copy.deepcopy(reg), tok, info))
    alone.run(steps(A, "setup", "begin", "finish"))
    both = Party(config(style, pkce), World(md, reg, tok, info))
    both.run(ORDERS[order])
    env.check(env.eq(alone.seen(A), both.seen(A)), "what the provider sees")
    env.check(env.eq(alone.kept(A), both.kept(A)), "what the client goes by")
    ra, rb = alone.result[A], both.result[A]
    env.check(ra[1] is None and rb[1] is None, "the login succeeds")
    env.check(env.eq(ra[0]["token"], rb[0]["token"]), "the token")
    env.check(env.eq(ra[0]["userinfo"].to_dict(), rb[0]["userinfo"].to_dict()), "the user info")
    env.reach("same")


@harness("C23", witness=("own", "foreign"))
def secrets(env):
    """The secrets agreed with two providers authenticate the client, and the provider, at the one
    they were agreed with and nowhere else."""
    style = env.pick("config", ["default", "shared"])
    end = {A: env.str("secret_a", "alnum", min=1), B: env.str("secret_b", "alnum", min=1)}
    env.assume(end[A] != end[B])
    secret = {i: c.SECRET + end[i] for i in (A, B)}
    reg = {i: {"client_secret": secret[i], "token_endpoint_auth_method": "client_secret_jwt",
               "token_endpoint_auth_signing_alg": "HS256",
               "id_token_signed_response_alg": "HS256"} for i in (A, B)}
    md = {i: {"token_endpoint_auth_methods_supported": ["client_secret_jwt"],
              "id_token_signing_alg_values_supported": ["HS256", "RS256"]} for i in (A, B)}
    signer = env.pick("ID Token signed with", ["own", "the other's"])
    world = World(md, reg, {}, {A: {}, B: {}})
    cfg = config(style, False)
    for x in cfg.values():
        x["client_preferences"].update(token_endpoint_auth_method=["client_secret_jwt"],
                                       id_token_signed_response_alg=["HS256", "RS256"])

    def answer(url, method, kw):
        if not url.endswith("/token"):
            return world(url, method, kw)
        iss = url[:-6]
        key = secret[iss] if signer == "own" else secret[{A: B, B: A}[iss]]
        return c.Response(200, json.dumps({
            "token_type": "Bearer", "access_token": "at", "id_token": c.id_token(
                world.q[iss], iss=iss, now=c.NOW, alg="HS256", secret=key)}))

    env.set_time(c.NOW)
    p = Party(cfg, world)
    p.http.answer = answer
    for w, i in ORDERS[env.pick("order", sorted(ORDERS))]:
        getattr(p, w)(i)
    for iss in (A, B):
        req = [x for x in p.http.log if x["url"] == iss + "/token"][0]
        jwt = c.body_of(req["data"])["client_assertion"]
        for i in (A, B):
            ok = c.outcome(JWS(alg="HS256").verify_compact, jwt,
                           [SYMKey(key=secret[i], alg="HS256")])
            env.check((ok[1] is None) == (i == iss), "authenticated with the secret agreed there")
        got, err = p.result[iss]
        if signer == "own":
            env.check(err is None and "id_token" in got and got["id_token"]["sub"] == "subject", "the own secret")
            env.reach("own")
        else:
            env.check(err is not None or "error" in got, "the secret of another is accepted")
            env.reach("foreign")
