"""C33: a configuration means what it says."""
from symx.api import harness

from harness import common as c

from oidcrp.configure import Configuration
from oidcrp.configure import RPConfiguration
from oidcrp.rp_handler import RPHandler
from oidcrp.util import get_http_params

HERE = "https://{domain}:{port}"


def build(env, part, domain, port, given, layout, base_path=""):
    """The relying party's configuration, as wsgi.py of the example makes it or by itself."""
    kw = {"domain": domain, "port": port} if given == "argument" else {}
    if base_path:
        kw["base_path"] = base_path
    whole = {"webserver": {"port": 1}, "deep": {"rp": part}} if layout == "part" else part
    if given == "configuration":
        part.update(domain=domain, port=port)
        whole.update(domain=domain, port=port)
    if layout == "alone":
        return RPConfiguration(part, **kw)
    e = {"class": RPConfiguration, "attr": "rp"}
    if layout == "part":
        e["path"] = ["deep", "rp"]
    return Configuration(whole, entity_conf=[e], **kw).rp


SECTIONS = ["clients", "services", "hash_seed", "httpc_params"]


@harness("C33", witness=("argument", "configuration", "neither"), thorough={"all": 1}, bounds={"all": 0})
def settings(env):
    """Names in either case, domain and port from either place, in each of three layouts."""
    given = env.pick("given", ["argument", "configuration", "neither"])
    layout = env.pick("layout", ["alone", "whole", "part"])
    domain = env.str("domain", "host", min=1) if given != "neither" else "127.0.0.1"
    port = env.int("port", 1, 65535) if given != "neither" else 80
    secret = env.str("client_secret", "print", min=1)
    cid = env.str("client_id", "print", min=1)
    seed = env.str("hash_seed", "print", min=1)
    at = "https://%s:%s" % (domain, port)
    pi = c.provider_info(c.ISS)
    pi["jwks_uri"] = "https://keys.example.com/jwks.json"
    clients = {c.ISS: {
        "client_id": cid, "client_secret": secret, "issuer": c.ISS, "provider_info": pi,
        "redirect_uris": [HERE + "/cb", "https://other.example.com/cb"],
        "post_logout_redirect_uris": [HERE + "/bye"],
        "frontchannel_logout_uri": HERE + "/fc",
        "backchannel_logout_uri": HERE + "/bc",
        "behaviour": {"response_types": ["code"], "scope": ["openid"]}}}
    verify = env.pick("verify", [True, False, "/etc/ca.pem"]) if env.b["all"] else False
    upper = env.pick("upper", [[], SECTIONS] + [[n] for n in SECTIONS])

    def name(n):
        return n.upper() if n in upper else n

    services = c.services()
    part = {"base_url": HERE, name("clients"): clients, name("services"): services,
            name("hash_seed"): seed, name("httpc_params"): {"verify": verify}}
    rp = build(env, part, domain, port, given, layout)
    env.check(env.eq(rp.base_url, at), "base URL")
    env.check(env.eq(rp.hash_seed, seed), "seed")
    env.check(rp.httpc_params == {"verify": verify}, "HTTP parameters")
    env.check(set(rp.services) == set(c.services()), "services")
    http = c.HTTP()
    rph = RPHandler(rp.base_url, rp.clients, services=rp.services, hash_seed=rp.hash_seed,
                    httpc_params=rp.httpc_params, httplib=http)
    client = rph.client_setup(c.ISS)
    x = c.ctx(client)
    env.check(env.and_(env.eq(x.get("client_id"), cid), env.eq(x.get("client_secret"), secret)),
              "credentials")
    env.check(env.eq(x.get("redirect_uris"), [at + "/cb", "https://other.example.com/cb"]),
              "redirect URIs")
    env.check(env.eq(x.get("base_url"), at), "the client's base URL")
    for n, v in (("post_logout_redirect_uris", [at + "/bye"]), ("frontchannel_logout_uri", at + "/fc"),
                 ("backchannel_logout_uri", at + "/bc")):
        env.check(env.eq(x.config[n], v), n)
    q = c.query_of(rph.begin(c.ISS)["url"])
    env.check(env.eq(q["redirect_uri"], at + "/cb"), "where the user is sent back to")
    env.check(env.eq(q["client_id"], cid), "by which client")
    env.reach(given)


@harness("C33", witness=("used",))
def defaults(env):
    """Without settings: peers are verified, seeds differ and nothing is made up."""
    layout = env.pick("layout", ["alone", "whole", "part"])
    part = [{"base_url": c.BASE, "clients": {}} for _ in range(2)]
    a, b = [build(env, p, None, None, "neither", layout) for p in part]
    env.check(a.httpc_params == {"verify": True}, "peers are verified")
    env.check(env.not_(env.eq(a.hash_seed, b.hash_seed)), "a seed of its own")
    env.check(a.base_url == c.BASE and not a.services and not a.key_conf, "nothing made up")
    env.reach("used")


@harness("C33", witness=("relative", "absolute"))
def files(env):
    """Names of files are relative to the base path, others aren't touched."""
    layout = env.pick("layout", ["alone", "whole", "part"])
    path = env.str("path", "path", min=1)
    absolute = env.flag("absolute")
    env.assume(env.not_(path.startswith("/")))
    keys = {"private_path": "/" + path if absolute else path, "public_path": path,
            "key_defs": [{"type": "EC"}], "read_only": False}
    n = env.pick("name", ["rp_keys", "RP_KEYS", "oidc_keys", "OIDC_KEYS"])
    other = env.str("other", "print", min=1)
    part = {"base_url": c.BASE, n: keys, "clients": {"x": {"client_secret": other}}}
    rp = build(env, part, None, None, "neither", layout, base_path="/base")
    k = rp.key_conf
    env.check(env.eq(k["private_path"], ("/" if absolute else "/base/") + path), "private keys")
    env.check(env.eq(k["public_path"], "/base/" + path), "public keys")
    env.check(k["key_defs"] == [{"type": "EC"}] and k["read_only"] is False, "the rest")
    env.check(env.eq(rp.clients["x"]["client_secret"], other), "what is no file")
    env.reach("absolute" if absolute else "relative")


@harness("C33", witness=("pair", "cert", "none"))
def http_params(env):
    """What the HTTP library is given of a configuration's verify and certificate."""
    cfg = {}
    v = env.pick("verify", [None, True, False, "/etc/ca.pem"])
    s = env.pick("verify_ssl", [None, True, False])
    for n, x in (("verify", v), ("verify_ssl", s)):
        if x is not None:
            cfg[n] = x
    cert = env.str("cert", "path", min=1) if env.flag("has_cert") else None
    key = env.str("key", "path", min=1) if env.flag("has_key") else None
    if cert is not None:
        cfg["client_cert"] = cert
    if key is not None:
        cfg["client_key"] = key
    got = get_http_params(cfg)
    want = v if v is not None else s if s is not None else True
    env.check(got["verify"] is want or got["verify"] == want, "verify")
    if cert is None:
        env.check(set(got) == {"verify"}, "no certificate")
        env.reach("none")
    elif key is None:
        env.check(set(got) == {"verify", "cert"} and env.eq(got["cert"], cert), "certificate")
        env.reach("cert")
    else:
        env.check(set(got) == {"verify", "cert"}, "certificate and key")
        env.check(env.eq(tuple(got["cert"]), (cert, key)), "certificate and its key")
        env.reach("pair")
