"""C10: PKCE: the challenge sent belongs to the verifier kept for the session."""
import base64
import hashlib

from symx.api import harness

from harness import common as c
from oidcrp import oauth2

HASH = {"S256": hashlib.sha256, "S384": hashlib.sha384, "S512": hashlib.sha512}


def pkce(length, method):
    return {"pkce": {"function": "oidcrp.oauth2.add_on.pkce.add_support",
                     "kwargs": {"code_challenge_length": length,
                                "code_challenge_method": method}}}


def challenge(verifier, method):
    d = HASH[method](verifier.encode()).digest()
    return base64.urlsafe_b64encode(d).decode().rstrip("=")


@harness("C10", witness=("done",))
def verifier_matches_challenge(env):
    """Logins interleaved: each code goes with the verifier of its own challenge."""
    kind = env.pick("client", ["oidc", "oauth2"])
    method = env.pick("method", sorted(HASH))
    length = env.pick("length", [43, 64, 128])
    http = c.HTTP()
    cfg = {c.ISS: c.client_config(c.ISS, add_ons=pkce(length, method))}
    kw = {} if kind == "oidc" else {"client_cls": oauth2.Client}
    rph = c.handler(cfg, http, c.OAUTH2_SERVICES if kw else None, **kw)
    client = c.setup(rph)
    env.set_time(c.NOW)
    ss = []
    for i in range(2):
        b = rph.begin(c.ISS)
        ss.append((b["state"], c.query_of(b["url"])))
    env.check(ss[0][1]["code_challenge"] != ss[1][1]["code_challenge"],
              "every session has a challenge of its own")
    order = env.pick("order", [(0, 1), (1, 0)])
    for i in order:
        s, q = ss[i]
        rph.finalize_auth(client, c.ISS, {"code": env.str("code%d" % i, "token", min=1),
                                          "state": s})
    seen = []
    for i in order:
        s, q = ss[i]
        env.check(q["code_challenge_method"] == method, "challenge method")
        env.check("code_verifier" not in q, "the verifier is not disclosed in the front channel")
        http.answer = c.Provider({"access_token": "at", "token_type": "Bearer"})
        http.log.clear()
        rph.get_tokens(s)
        env.check(len(http.log) == 1, "one token request")
        body = c.body_of(http.log[0]["data"])
        v = body["code_verifier"]
        env.check(len(v) == length, "verifier of the configured length")
        env.check(all(ch.isalnum() or ch in "-._~" for ch in v), "of unreserved characters")
        env.check(challenge(v, method) == q["code_challenge"],
                  "the verifier sent is the one the challenge was made from")
        seen.append(v)
    env.check(seen[0] != seen[1], "verifiers differ")
    env.reach("done")


@harness("C10", witness=("refused",))
def unknown_method(env):
    """An unknown transformation is refused instead of sending a request without protection."""
    http = c.HTTP()
    m = env.str("method", "alnum", min=1)
    for k in HASH:
        env.assume(env.not_(env.eq(m, k)))
    cfg = {c.ISS: c.client_config(c.ISS, add_ons=pkce(64, m))}
    rph = c.handler(cfg, http)
    c.setup(rph)
    _, err = c.outcome(rph.begin, c.ISS)
    env.check(err is not None, "refused")
    env.reach("refused")
