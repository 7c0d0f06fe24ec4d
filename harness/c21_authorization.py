"""C21: an authorization request says what was configured and asked for, under fresh names."""
import copy
import json

from symx.api import harness

from harness import common as c
from oidcrp import oauth2


def party(env, kind="oidc", providers=1, **conf):
    isss = [c.ISS, c.ISS2][:providers]
    cfg = {}
    for i in isss:
        cfg[i] = c.client_config(i)
        for k, v in copy.deepcopy(conf).items():
            if isinstance(v, dict) and k in cfg[i]:
                cfg[i][k].update(v)
            else:
                cfg[i][k] = v
    kw = {} if kind == "oidc" else {"client_cls": oauth2.Client}
    rph = c.handler(cfg, c.HTTP(), c.OAUTH2_SERVICES if kw else None, **kw)
    env.set_time(c.NOW)
    return [rph] + [c.setup(rph, i) for i in isss]


EXTRA = {"login_hint": "print", "max_age": None, "ui_locales": "alnum", "acr_values": "path",
         "display": None, "prompt": None, "claims": None, "x_param": "print"}


def extra(env, n):
    """A parameter an application may add: name, value, and as what it shows up."""
    k = env.pick("extra%d" % n, sorted(EXTRA))
    if EXTRA[k]:
        v = env.str("value%d" % n, EXTRA[k], min=1)
        return k, ([v] if k in ("ui_locales", "acr_values") else v), v
    if k == "max_age":
        v = env.pick("max_age%d" % n, [1, 3600])
        return k, v, str(v)
    if k == "display":
        return k, "popup", "popup"
    if k == "prompt":
        return k, ["login", "consent"], "login consent"
    v = {"id_token": {"acr": {"value": env.str("acr%d" % n, "token", min=1)}}}
    return k, v, v


def shows(env, k, got, v):
    return env.eq(json.loads(got), v) if k == "claims" else env.eq(got, v)


@harness("C21", witness=("done",))
def content(env):
    """Everything configured or asked for is in the request, and the request is on record."""
    kind = env.pick("client", ["oidc", "oauth2"])
    about = env.pick("about", ["types", "scope"] + (["configured", "asked", "nonce", "offline"]
                                                    if kind == "oidc" else []))
    rtypes, scope, k1, k2, args = ["code"], ["openid"], None, None, {}
    if about == "types" and kind == "oidc":
        rtypes = env.pick("response_types", [["code", "id_token token"], ["id_token"],
                                             ["code id_token", "code"]])
        if env.flag("has_response_type"):
            args["response_type"] = rtypes[-1]
    elif about == "scope":
        scope = env.pick("scope", [["openid"], ["openid", "email"], ["email"]])
        if env.flag("has_scope"):
            args["scope"] = env.pick("asked_scope", [["openid", "phone"], ["phone"]])
    conf = {"behaviour": {"response_types": rtypes, "scope": scope}}
    if about == "configured":
        k1, a1, v1 = extra(env, 1)
        conf["request_args"] = {k1: a1}
    if about == "offline":
        # a refresh token takes the user's consent, unless the application knows better
        args["scope"] = ["openid", "offline_access"]
        if env.flag("own_prompt"):
            args["prompt"] = env.pick("prompt", ["login", "none", "login consent"]).split(" ")
    rph, client = party(env, kind, **conf)
    if about == "asked" or k1 and env.flag("also_asked"):
        k2, a2, v2 = extra(env, 2)
        args[k2] = a2
    elif about == "nonce":
        args["nonce"] = env.str("nonce", "token", min=1)
    want_scope = list(args.get("scope", scope))
    if kind == "oidc" and "openid" not in want_scope:
        want_scope.append("openid")
    b = rph.begin(c.ISS, req_args=args or None)
    env.check(b["url"].split("?")[0] == c.ISS + "/authorization", "to the provider")
    q = c.query_of(b["url"])
    env.check(q["client_id"] == "client-at-op", "by this client")
    env.check(q["response_type"] == args.get("response_type", rtypes[0]), "the response type")
    env.check(q["redirect_uri"] == "https://rp.example.com/cb/op.example.org",
              "to come back where it is registered")
    env.check(sorted(q["scope"].split(" ")) == sorted(want_scope), "the scope")
    env.check(q["state"] == b["state"], "the state is the key to the session")
    if k2:
        env.check(shows(env, k2, q[k2], v2), "what the application asks for")
    if k1 and k1 != k2:
        env.check(shows(env, k1, q[k1], v1), "what is configured")
    if about == "offline":
        env.check(q["prompt"] == " ".join(args.get("prompt", ["consent"])), "the prompt")
    if kind == "oidc":
        if "nonce" in args:
            env.check(env.eq(q["nonce"], args["nonce"]), "the application's own nonce")
        else:
            env.check(len(q["nonce"]) >= 16, "a nonce that can't be guessed")
        env.check(c.state_of(client).get_state_by_nonce(q["nonce"]) == b["state"],
                  "the nonce leads to the session")
    st = c.state_of(client).get_state(b["state"])
    env.check(st["iss"] == c.ISS, "the session is with that provider")
    rec = st["auth_request"]
    rec = json.loads(rec) if isinstance(rec, str) else rec
    for k in q:
        if k in ("claims", "scope", "prompt", "ui_locales", "acr_values", "response_type",
                 "max_age"):
            env.check(k in rec, "the request is on record")
        else:
            env.check(env.eq(rec[k], q[k]), "the request is on record")
    env.check(not [k for k in q if k not in ("client_id", "response_type", "redirect_uri", "scope",
                                             "state", "nonce", k1, k2) and not
                   (k == "prompt" and about == "offline")], "and nothing else")
    env.reach("done")


@harness("C21", witness=("done",), bounds={"requests": 3}, thorough={"requests": 4})
def fresh(env):
    """No two requests share a state or a nonce, and none takes over what another was asked for."""
    kind = env.pick("client", ["oidc", "oauth2"])
    conf = {"request_args": {"x_param": "as configured"}} if env.flag("configured") else {}
    rph, cl1, cl2 = party(env, kind, 2, **conf)
    keys, nonces, hint = [], [], env.str("hint", "print", min=1)
    for i in range(env.b["requests"]):
        iss = env.pick("at%d" % i, [c.ISS, c.ISS2])
        how = env.pick("how%d" % i, ["plain", "with args", "with a state"])
        args = None
        if how == "with args":
            args = {"login_hint": hint, "scope": ["openid", "phone"],
                    "redirect_uri": "https://rp.example.com/special"}
        elif how == "with a state" and i:
            args = {"state": keys[-1]}
        kept = copy.deepcopy(args)
        b = rph.begin(iss, req_args=args)
        q = c.query_of(b["url"])
        env.check(b["url"].split("?")[0] == iss + "/authorization", "to the provider")
        env.check(q["state"] == b["state"] and q["state"] not in keys, "a state of its own")
        env.check(len(q["state"]) >= 16, "a state that can't be guessed")
        if kind == "oidc":
            env.check(q["nonce"] not in nonces and len(q["nonce"]) >= 16, "a nonce of its own")
            nonces.append(q["nonce"])
        if how == "with args":
            env.check(args == kept, "the application's arguments stay as they are")
            env.check(env.eq(q["login_hint"], hint), "what is asked for")
            env.check(q["redirect_uri"] == "https://rp.example.com/special", "what is asked for")
        else:
            env.check("login_hint" not in q and q["scope"] == "openid", "nothing of other requests")
            env.check(q["redirect_uri"] == "https://rp.example.com/cb/" + iss[8:],
                      "the redirect URI at that provider")
        env.check(q.get("x_param") == ("as configured" if conf else None), "what is configured")
        env.check(rph.state2issuer(b["state"]) == iss, "the session is with that provider")
        keys.append(b["state"])
    env.reach("done")


@harness("C21", witness=("done",))
def endpoint_query(env):
    """An authorization endpoint that has a query of its own keeps it."""
    v = env.str("tenant", "token", min=1)
    hint = env.str("hint", "print", min=1)
    pi = c.provider_info(c.ISS, authorization_endpoint=c.ISS + "/authorization?tenant=" + v)
    rph, client = party(env, provider_info=pi)
    b = rph.begin(c.ISS, req_args={"login_hint": hint})
    env.check(b["url"].count("?") == 1, "one query")
    q = c.query_of(b["url"])
    env.check(env.eq(q["tenant"], v), "the provider's own parameter")
    env.check(env.eq(q["login_hint"], hint), "and the request's")
    env.check(q["client_id"] == "client-at-op" and q["state"] == b["state"], "all of them")
    env.reach("done")
