"""C25: DPoP proofs are for the request they come with, by a key of the client's own."""
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
from cryptojwt.jws.jws import factory
from symx.api import harness

from harness import common as c


def party(env, http, algs, supported, path="", **kw):
    """Clients at two providers that use DPoP. The path of the first's endpoints is a choice."""
    cfg = {}
    for i in (c.ISS, c.ISS2):
        cfg[i] = c.client_config(i, **kw)
        if supported.get(i) is not None:
            if path and i == c.ISS:
                for k in ("token_endpoint", "userinfo_endpoint"):
                    cfg[i]["provider_info"][k] = i + "/" + path + "/" + k.split("_")[0]
            cfg[i]["provider_info"]["dpop_signing_alg_values_supported"] = supported[i]
        cfg[i]["add_ons"] = {"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support",
                                      "kwargs": {"signing_algorithms": list(algs)}}}
    rph = c.handler(cfg, http)
    env.set_time(c.NOW)
    return rph, c.setup(rph, c.ISS), c.setup(rph, c.ISS2, "op2")


def login(rph, http, iss, tr=None):
    q = c.query_of(rph.begin(iss)["url"])
    http.answer = c.Provider(dict({"access_token": "at", "token_type": "Bearer",
                                   "refresh_token": "rt"}, **(tr or {})), {"sub": "subject"})
    rph.finalize_auth(rph.issuer2rp[iss], iss, {"state": q["state"], "code": "code"})
    return q["state"]


def proof(env, req, algs):
    """The proof with a request: its key and claims."""
    jws = factory(req["headers"]["dpop"])
    h = jws.jwt.headers
    env.check(h["typ"] == "dpop+jwt", "the type")
    env.check(h["alg"] in algs, "an algorithm both sides allow")
    env.check(set(h["jwk"]) <= {"kty", "crv", "x", "y", "e", "n", "kid", "use", "alg"},
              "the public key alone")
    key = key_from_jwk_dict(h["jwk"])
    key.deserialize()
    cl = JWS(alg=h["alg"]).verify_compact(req["headers"]["dpop"], [key])
    env.check(cl["htm"] == req["method"], "for the method of the request")
    env.check(env.eq(cl["htu"], req["url"].split("?")[0]), "for the address of the request")
    return {k: v for k, v in h["jwk"].items() if k in ("kty", "crv", "x", "y", "e", "n")}, cl


@harness("C25", witness=("done",))
def proofs(env):
    """Token, refresh and user info requests in any order at two providers."""
    http = c.HTTP()
    path = env.str("path", "token", min=1)
    rph, cl1, cl2 = party(env, http, ["ES256", "ES384"],
                          {c.ISS: ["RS256", "ES256"], c.ISS2: ["ES256"]}, path=path)
    authn = env.pick("method", ["client_secret_basic", "client_secret_post"])
    for x in (cl1, cl2):
        c.ctx(x).behaviour["token_endpoint_auth_method"] = authn
    s = {i: login(rph, http, i) for i in (c.ISS, c.ISS2)}
    now = env.int("now", c.NOW, c.NOW + 10 ** 6)
    http.log.clear()
    used, ids, n = {}, [], 0
    got = set()
    for i in range(3):
        iss = env.pick("at%d" % i, [c.ISS, c.ISS2])
        what = env.pick("what%d" % i, ["token", "userinfo", "refresh"]) if iss in got else "token"
        got.add(iss)
        fn = {"token": rph.get_tokens, "userinfo": rph.get_user_info,
              "refresh": rph.refresh_access_token}[what]
        now = env.int("now%d" % i, now, c.NOW + 10 ** 6) if i else now
        env.set_time(now)
        fn(s[iss])
        n += 1
        env.check(len(http.log) == n, "one request each")
        req = http.log[-1]
        key, cl = proof(env, req, ["ES256"])
        env.check(env.eq(cl["iat"], now), "made at that time")
        env.check(cl["jti"] not in ids, "with an ID of its own")
        ids.append(cl["jti"])
        env.check(used.setdefault(iss, key) == key, "always the same key at a provider")
        if what == "userinfo":
            env.check(req["headers"]["Authorization"] == "Bearer at", "beside the token")
        elif authn == "client_secret_basic":
            env.check(req["headers"]["Authorization"][:6] == "Basic ", "beside the client's own")
        else:
            env.check(c.body_of(req["data"])["client_secret"] == c.SECRET + iss[8:11],
                      "beside the client's own")
    if len(used) == 2:
        env.check(used[c.ISS] != used[c.ISS2], "another key at another provider")
    env.reach("done")


@harness("C25", witness=("proof", "none"))
def choice(env):
    """The algorithm is the first of the client's that the provider supports."""
    algs = env.pick("client", [["ES256"], ["ES384", "ES256"], ["ES512", "ES384"]])
    sup = env.pick("provider", [None, [], ["RS256"], ["ES256"], ["ES256", "ES384"],
                                ["RS256", "ES512", "ES384"]])
    http = c.HTTP()
    rph, cl1, cl2 = party(env, http, algs, {c.ISS: sup, c.ISS2: ["ES256"]})
    s = login(rph, http, c.ISS)
    http.log.clear()
    got, err = c.outcome(rph.get_tokens, s)
    env.check(err is None, "the request is made")
    both = [a for a in algs if a in (sup or [])]
    if both:
        proof(env, http.log[0], [both[0]])
        env.reach("proof")
    else:
        env.check("dpop" not in http.log[0]["headers"], "no proof where it isn't supported")
        env.reach("none")
