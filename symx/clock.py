"""The clock of a replay."""
import datetime as dt
import time

_gmtime, _strftime = time.gmtime, time.strftime


def patch(env):
    import oidcmsg.time_util as tu


    class Clock(dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return dt.datetime.fromtimestamp(env.time_value(), dt.timezone.utc).replace(
                tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls.now()
    tu.datetime = Clock
    time.gmtime = lambda t=None: _gmtime(env.time_value() if t is None else t)
    time.strftime = lambda f, t=None: _strftime(f, time.gmtime() if t is None else t)
