"""C28: cookies come back as they were sent, or not at all."""
from http.cookies import SimpleCookie
from types import SimpleNamespace

from oidcrp.cookie import CookieDealer
from oidcrp.cookie import InvalidCookieSign
from oidcrp.cookie import cookie_parts
from oidcrp.cookie import cookie_signature
from oidcrp.cookie import make_cookie
from oidcrp.cookie import parse_cookie
from symx.api import harness

from harness import common as c

FORMAT = "%a, %d-%b-%Y %H:%M:%S GMT"
SEED = b"seed0123456789ab"
KEY = b"key0123456789abc"


def value_of(cookie):
    """The value a browser would send back."""
    head, text = cookie
    assert head == "Set-Cookie"
    return text.split(";")[0].partition("=")[2]


def attributes(cookie):
    out = {}
    for a in cookie[1].split(";")[1:]:
        k, _, v = a[1:].partition("=")
        out[k.lower()] = v
    return out


def text(env, name):
    """A load or value: one that can be in a cookie as it is, any text, one with the separator."""
    how = env.pick(name + " is", ["plain", "text", "barred"])
    if how == "barred":
        return env.str(name + "1", "token", min=1) + "|" + env.str(name + "2", "token", min=1)
    return env.str(name, "nobar" if how == "text" else "token", min=1)


def date(t):
    """A point in time the way cookies write them."""
    import time
    return time.strftime(FORMAT, time.gmtime(t))


@harness("C28", witness=("signed", "encrypted", "refused"))
def round_trip(env):
    """A cookie that is sent back says what it said; with another seed or key it says nothing."""
    seed = env.str("seed", "token", min=1)
    enc = env.str("enc_key", "token", min=1) if env.flag("encrypted") else None
    load = text(env, "load")
    stamp = env.str("stamp", "digits", min=1) if env.flag("stamped") else ""
    now = env.int("now", c.NOW, c.NOW + 10 ** 6)
    env.set_time(now)
    raw = env.pick("seed is", ["text", "bytes"])
    made = seed.encode() if raw == "text" else b"\xff\xfe\x00" + seed.encode()
    kaka = make_cookie("rp", load, made, timestamp=stamp,
                       enc_key=enc.encode() if enc else None)
    v = value_of(kaka)
    if enc:
        env.check(len(cookie_parts("rp", kaka[1])) == 4, "the load is hidden")
    sent = env.pick("sent", ["alone", "as set", "with others", "under another name"])
    header = {"alone": "rp=" + v, "as set": kaka[1], "with others": "foo=bar; rp=" + v + "; a=b",
              "under another name": "rp2=" + v}[sent]
    other = env.pick("read with", ["the same", "another seed", "another key"])
    s2, e2 = seed, enc
    if other == "another seed":
        s2 = env.str("seed2", "token", min=1)
        env.assume(s2 != seed)
    elif other == "another key":
        e2 = env.str("enc_key2", "token", min=1) if env.flag("decrypted") else None
        env.assume(bool(enc) or bool(e2))
        env.assume((e2 or "") != (enc or ""))
    if enc and e2:
        # the two are hashed into one key
        env.assume(env.or_(env.and_(s2 == seed, e2 == enc), e2 + s2 != enc + seed))
    try:
        read = s2 if raw == "text" and env.flag("unicode") else \
            s2.encode() if raw == "text" else b"\xff\xfe\x00" + s2.encode()
        got = parse_cookie("rp", read, header, enc_key=e2.encode() if e2 else None)
    except InvalidCookieSign:
        env.check(other != "the same" and sent != "under another name", "a good cookie is refused")
        env.reach("refused")
        return
    if sent == "under another name":
        env.check(got is None, "another cookie isn't this one")
        return
    env.check(other == "the same", "read without what it was made with")
    env.check(env.eq(got[0], load), "the load")
    env.check(env.eq(got[1], stamp or str(now)), "the time stamp")
    env.reach("encrypted" if enc else "signed")


@harness("C28", witness=("accepted", "refused"))
def forged(env):
    """Nothing but what was signed is accepted, whatever parts of signed cookies it consists of."""
    env.set_time(c.NOW)
    issued = [(env.str("load%d" % i, "token", min=1), env.str("stamp%d" % i, "digits", min=1))
              for i in range(2)]
    sigs = [cookie_signature(SEED, *x) for x in issued]
    cookies = [value_of(make_cookie("rp", l, SEED, timestamp=t)) for l, t in issued]
    for (l, t), s, v in zip(issued, sigs, cookies):
        env.check(env.eq(v, l + "|" + t + "|" + s), "as documented")
    how = env.pick("signature", ["issued", "moved", "other seed", "free", "shorter", "longer",
                                 "none"])
    if how == "moved":
        first, stamp = env.str("a", "digits", min=1), env.str("b", "digits", min=1)
        env.assume(issued[0][1] == first + stamp)
        load = issued[0][0] + first
    else:
        load = env.str("load", "token", min=1)
        stamp = env.str("stamp", "digits", min=1)
        env.assume(env.or_(env.and_(load == issued[0][0], stamp == issued[0][1]),
                           load + stamp != issued[0][0] + issued[0][1]))
    if how in ("issued", "moved"):
        sig = sigs[0]
    elif how == "other seed":
        sig = cookie_signature(b"other" + SEED, load, stamp)
    elif how == "free":
        sig = env.str("sig", "hex", length=40)
        env.assume(sig != cookie_signature(SEED, load, stamp))
    elif how == "shorter":
        sig = cookie_signature(SEED, load, stamp)[:env.pick("size", [39, 8, 1])]
    elif how == "longer":
        sig = cookie_signature(SEED, load, stamp) + "0"
    else:
        sig = ""
    try:
        got = parse_cookie("rp", SEED, "rp=" + load + "|" + stamp + "|" + sig)
    except InvalidCookieSign:
        got = None
    if got is None:
        env.check(how != "issued" or env.not_(env.and_(load == issued[0][0],
                                                       stamp == issued[0][1])), "what was signed")
        env.reach("refused")
        return
    env.check(how != "moved", "the line between the load and the time stamp can be moved")
    env.check(how == "issued", "another signature is accepted")
    env.check(env.and_(load == issued[0][0], stamp == issued[0][1]), "something else is accepted")
    env.check(env.and_(env.eq(got[0], load), env.eq(got[1], stamp)), "what the cookie says")
    env.reach("accepted")


@harness("C28", witness=("accepted", "refused"))
def forged_encrypted(env):
    """The parts of encrypted cookies can't be replaced."""
    env.set_time(c.NOW)
    issued = [(env.str("load%d" % i, "nobar", min=1), env.str("stamp%d" % i, "digits", min=1))
              for i in range(2)]
    env.assume(env.or_(issued[0][0] != issued[1][0], issued[0][1] != issued[1][1]))
    parts = [cookie_parts("rp", make_cookie("rp", l, SEED, timestamp=t, enc_key=KEY)[1])
             for l, t in issued]
    env.check(len(parts[0]) == 4, "four parts")
    env.check(parts[0][1] != parts[1][1], "every cookie has its own nonce")
    mine = []
    for i, name in enumerate(("stamp", "iv", "text", "tag")):
        src = env.pick(name, ["first", "second", "free"] if i == 0 else
                       ["first", "second", "short", "empty"])
        mine.append({"first": parts[0][i], "second": parts[1][i], "empty": "",
                     "short": "A" if name == "text" else "QUJD"}.get(src) if src != "free" else
                    env.str("free", "digits", min=1))
    whole = [env.and_(*[env.eq(a, b) for a, b in zip(mine, p)]) for p in parts]
    forged = SimpleCookie()
    forged["rp"] = "|".join(mine)
    try:
        got = parse_cookie("rp", SEED, forged.output(header="").strip(), enc_key=KEY)
    except InvalidCookieSign:
        env.check(env.not_(env.or_(*whole)), "what was made is refused")
        env.reach("refused")
        return
    env.check(env.or_(*whole), "something else is accepted")
    for w, (l, t) in zip(whole, issued):
        env.check(env.implies(w, env.and_(env.eq(got[0], l), env.eq(got[1], t))),
                  "what the cookie says")
    env.reach("accepted")


@harness("C28", witness=("set", "unset"))
def attributes_set(env):
    """The attributes are the ones asked for; unless told otherwise cookies are kept from scripts
    and unencrypted connections."""
    now = env.int("now", c.NOW, c.NOW + 10 ** 6)
    env.set_time(now)
    kw, want = {}, {"secure": "", "httponly": ""}
    for a, k in (("secure", "secure"), ("http_only", "httponly")):
        f = env.pick(a, ["default", True, False])
        if f != "default":
            kw[a] = f
        if f is False:
            del want[k]
    for a, k, al in (("domain", "domain", "host"), ("path", "path", "path")):
        v = env.str(a, al, min=1) if env.flag("has_" + a) else None
        if v:
            kw[a] = want[k] = v
    ss = env.pick("same_site", [None, "Lax", "Strict", "None"])
    if ss:
        kw["same_site"] = want["samesite"] = ss
    ttl = env.int("ttl", -10, 10 ** 5)
    if env.flag("expires"):
        env.assume(ttl != 0)
        kw["expire"] = ttl
        want["expires"] = date(now + 60 * ttl)
    kaka = make_cookie("rp", "load", SEED, **kw)
    got = attributes(kaka)
    env.check(set(got) == set(want), "these attributes and no other")
    for k, v in want.items():
        env.check(env.eq(got[k], v), "attribute " + k)
    env.reach("set" if len(want) > 2 else "unset")


@harness("C28", witness=("read", "refused", "killed"))
def dealer(env):
    """What a cookie dealer wrote it reads; what another wrote it does not."""
    now = env.int("now", c.NOW, c.NOW + 10 ** 6)
    env.set_time(now)
    hidden = env.flag("encrypted")
    srv = [SimpleNamespace(symkey=k if hidden else None) for k in (KEY, b"other" + KEY)]
    where = env.pick("where", ["", "/rp", "/"])
    if where:
        srv[0].cookie_path, srv[0].cookie_domain = where, "rp.example.org"
    dealers = [CookieDealer(s, **kw) for s, kw in
               zip(srv, ({}, {"ttl": env.int("life", 1, 10 ** 5)}))]
    env.check(srv[0].seed != srv[1].seed, "every server has its own seed")
    mine, other = dealers if env.flag("first") else reversed(dealers)
    srv[0].cookie_name = srv[1].cookie_name = "rp"
    value = text(env, "value")
    typ = env.str("type", "token", min=1)
    if env.flag("delete"):
        kaka = mine.delete_cookie("rp" if env.flag("named") else None)
        a = attributes(kaka)
        env.check(kaka[1].startswith("rp="), "the name")
        env.check(env.eq(a["expires"], date(now - 60)), "a deleted cookie is gone")
        env.reach("killed")
        return
    ttl = env.pick("ttl", ["own", "given"])
    kw = {}
    minutes = mine.cookie_ttl
    if ttl == "given":
        minutes = kw["ttl"] = env.int("minutes", 1, 10 ** 5)
    kaka = mine.create_cookie([value] if env.flag("listed") else value, typ,
                              "rp" if env.flag("named") else None, **kw)
    a = attributes(kaka)
    env.check(env.eq(a["expires"], date(now + 60 * minutes)), "as long as it should last")
    env.check(a.get("path", "") == (where if mine is dealers[0] else ""), "where it is sent")
    env.check(("domain" in a) == bool(where and mine is dealers[0]), "to whom it is sent")
    env.check("secure" in a and "httponly" in a, "kept from scripts and open connections")
    env.set_time(now + 10)
    got = mine.get_cookie_value("rp=" + value_of(kaka), "rp")
    env.check(env.and_(env.eq(got[0], value), env.eq(got[1], str(now)), env.eq(got[2], typ)),
              "what was written")
    env.check(mine.get_cookie_value("rp=" + value_of(kaka), "foo") is None, "by name")
    env.reach("read")
    got, err = c.outcome(other.get_cookie_value, "rp=" + value_of(kaka), "rp")
    env.check(isinstance(err, InvalidCookieSign), "another's cookie is refused")
    env.reach("refused")


@harness("C28", witness=("none", "whole"))
def dealer_moved(env):
    """A dealer's cookie whose parts have been moved about says nothing."""
    env.set_time(c.NOW)
    srv = SimpleNamespace(symkey=None, cookie_name="rp")
    cd = CookieDealer(srv)
    value, typ = env.str("value", "token", min=1), env.str("type", "token", min=1)
    kaka = cd.create_cookie(value, typ)
    load, stamp, sig = cookie_parts("rp", kaka[1])
    n = env.pick("moved", [0, 1, 5, 9])
    got = cd.get_cookie_value("rp=" + load + stamp[:n] + "|" + stamp[n:] + "|" + sig, "rp")
    if n:
        env.check(got is None, "the line between the load and the time stamp can be moved")
        env.reach("none")
    else:
        env.check(env.and_(env.eq(got[0], value), env.eq(got[2], typ)), "what was written")
        env.reach("whole")
