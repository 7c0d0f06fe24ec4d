from symx.api import harness
from harness import common as c
import json

@harness("T00", witness=("done",))
def code_flow(env):
    now = 1700000000
    env.set_time(now)
    http = c.HTTP()
    rph = c.handler(http=http)
    client = c.setup(rph)
    b = rph.begin(c.ISS)
    q = c.query_of(b["url"])
    env.check(env.eq(q["state"], b["state"]), "state in url")
    sub = env.str("sub", "alnum", min=1)
    code = env.str("code", "alnum", min=1)
    at = env.str("at", "alnum", min=1)
    idt = {"iss": c.ISS, "sub": sub, "aud": [ "client-at-op"], "nonce": q["nonce"], "exp": now+300, "iat": now}
    jw = c.sign(idt)
    def answer(url, method, kw):
        if url.endswith("/token"):
            return c.Response(200, json.dumps({"access_token": at, "token_type": "Bearer", "id_token": jw}))
        return c.Response(200, json.dumps({"sub": sub}))
    http.answer = answer
    r = rph.finalize(c.ISS, {"code": code, "state": b["state"]})
    env.check("error" not in r, "ok")
    env.check(env.eq(r["userinfo"]["sub"], sub), "sub")
    env.reach("done")
