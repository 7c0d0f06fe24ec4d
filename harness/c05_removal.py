"""C05: ending a session locally removes it and everything that leads to it, and nothing else."""
from symx.api import harness

from harness import common as c
from harness.c04_store import TYPES, look, put


def two_sessions(env):
    rph = c.handler()
    client = c.setup(rph)
    s1 = rph.begin(c.ISS)["state"]
    s2 = rph.begin(c.ISS)["state"]
    return rph, client, s1, s2


def gone(env, st, typ, value):
    _, err = c.outcome(look, st, typ, value)
    env.check(isinstance(err, KeyError), "a %s of a removed session leads nowhere" % typ)


@harness("C05", witness=("removed",), bounds={"bindings": 2}, thorough={"bindings": 4})
def removal_is_complete(env):
    """Whatever was bound to a session, nothing is left when the session is removed."""
    rph, client, s1, s2 = two_sessions(env)
    st = c.state_of(client)
    bound = []
    for i in range(env.b["bindings"]):
        typ = env.pick("typ%d" % i, sorted(TYPES) if i else sorted(TYPES) + ["none"])
        if typ == "none":
            break
        v = env.str("v%d" % i, "alnum", min=1)
        put(st, typ, v, s1)
        bound.append((typ, v))
    rec2 = st.get_state(s2).to_dict()
    rph.clear_session(s1)
    for typ, v in bound:
        gone(env, st, typ, v)
    _, err = c.outcome(st.get_state, s1)
    env.check(isinstance(err, KeyError), "the record is gone")
    _, err = c.outcome(rph.get_session_information, s1)
    env.check(err is not None, "no session information for a removed session")
    _, err = c.outcome(rph.has_active_authentication, s1)
    env.check(err is not None, "no authentication status for a removed session")
    env.check(env.eq(st.get_state(s2).to_dict(), rec2), "the other session is untouched")
    left = [k for k, v in c.db_of(client).items()
            if s1 in str(k) or s1 in str(v)]
    env.check(left == [], "nothing in the store mentions the removed session")
    env.reach("removed")


@harness("C05", witness=("kept",))
def removal_is_confined(env):
    """Another session keeps its own bindings, also for a shared subject or session ID."""
    rph, client, s1, s2 = two_sessions(env)
    st = c.state_of(client)
    t1 = env.pick("t1", sorted(TYPES))
    t2 = env.pick("t2", sorted(TYPES))
    v1 = env.str("v1", "alnum", min=1)
    v2 = env.str("v2", "alnum", min=1)
    put(st, t1, v1, s1)
    put(st, t2, v2, s2)          # may take over the very same value
    rec2 = st.get_state(s2).to_dict()
    rph.clear_session(s1)
    got, err = c.outcome(look, st, t2, v2)
    env.check(err is None, "the other session is still found")
    env.check(env.eq(got, s2), "under its own value")
    env.check(env.eq(st.get_state(s2).to_dict(), rec2), "and has the same record")
    env.check(env.eq(st.get_iss(s2), c.ISS), "and issuer")
    rph.clear_session(s2)
    gone(env, st, t2, v2)
    env.check(c.db_of(client) == {}, "nothing is left when both are removed")
    env.reach("kept")


@harness("C05", witness=("bare",))
def removal_of_a_bare_session(env):
    """A session nothing has been bound to can be removed."""
    rph, client, s1, s2 = two_sessions(env)
    st = c.state_of(client)
    k = env.str("key", "alnum", min=1, max=20)
    env.assume(env.not_(env.eq(k[:3], "ref")))
    st.create_state(c.ISS, k)
    _, err = c.outcome(rph.clear_session, k)
    env.check(err is None, "removal succeeds")
    _, err = c.outcome(st.get_state, k)
    env.check(isinstance(err, KeyError), "the record is gone")
    env.check(env.eq(st.get_iss(s1), c.ISS), "others stay")
    env.reach("bare")
