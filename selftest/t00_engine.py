from symx.api import harness
from oidcrp.state_interface import StateInterface


@harness("T00", witness=("end",))
def t_state(env):
    s = StateInterface()
    a = env.str("a", min=1)
    b = env.str("b", min=1)
    env.assume(env.not_(env.eq(a, b)))
    n = env.str("n", min=1)
    s.create_state("https://a", a)
    s.create_state("https://b", b)
    s.store_nonce2state(n, a)
    x = s.get_state_by_nonce(n)
    env.check(env.eq(x, a), "nonce maps to state")
    env.note("iss", s.get_iss(b))
    env.reach("end")
