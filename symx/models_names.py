"""Environment functions replaced by the harness (clock, randomness), in both modes."""
import importlib
import sys


def time_functions():
    import oidcmsg.time_util as tu
    import cryptojwt.jwt as cj
    out = [tu.utc_time_sans_frac, tu.time_sans_frac]
    f = getattr(cj, "utc_time_sans_frac", None)
    if f is not None and f not in out:
        out.append(f)
    return out


def random_functions():
    out = []
    for n in ("oidcmsg.util", "oidcrp.util"):
        try:
            f = getattr(importlib.import_module(n), "rndstr", None)
        except ImportError:
            continue
        if f is not None and f not in out:
            out.append(f)
    return out


def secret_functions():
    import secrets
    return [secrets.token_urlsafe, secrets.token_hex]


def rnd_text(i, n):
    """The i-th generated value of length n.  The tilde keeps it out of every string over an
    alphabet without one."""
    fill = ("kQzX7vRw" * (n // 8 + 1))[:n]
    tag = chr(97 + i % 26) + "%d" % (i // 26)
    if n < 4:
        return (tag + fill)[:n]
    if n > 7:
        tag = "~" + tag
    m = n // 2 - 1
    return fill[:m] + tag + fill[m + len(tag):]
