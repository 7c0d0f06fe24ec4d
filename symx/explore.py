"""Path exploration driver: every path runs in its own forked process (no state leaks from one
path into another); prefixes are distributed over worker processes."""
import collections
import io
import os
import pickle
import select
import sys
import time
import traceback

import z3

from symx import core


class PathResult:
    __slots__ = ("kind", "msg", "model", "pending", "decisions", "stats", "reached", "notes",
                 "sample", "concretised", "prefix")


def model_eval(m, o):
    """Value of a note under the model; None when it has no replayable value."""
    if isinstance(o, core.SymBool):
        return bool(z3.is_true(m.eval(o.expr, model_completion=True)))
    if isinstance(o, core.SymInt):
        return m.eval(o.expr, model_completion=True).as_long()
    if isinstance(o, core.SymStr):
        out = []
        for p in o.parts:
            if isinstance(p, str):
                out.append(p)
            elif p.kind is not None or p.name.split("!")[0] in ("case", "lower", "upper"):
                raise ValueError
            else:
                out.append(core.unz(m.eval(p.expr, model_completion=True)))
        return "".join(out)
    if isinstance(o, core.SymBytes):
        raise ValueError
    if isinstance(o, (list, tuple)):
        return [model_eval(m, x) for x in o]
    if isinstance(o, dict):
        return {model_eval(m, k): model_eval(m, v) for k, v in o.items()}
    if isinstance(o, (str, int, bool, float)) or o is None:
        return o
    raise ValueError


def run_path(spec, bounds, prefix, want_sample, opts):
    from symx import api
    stats = core.Stats()
    p = core.Path(prefix, stats, opts)
    core.set_path(p)
    env = SYMENV(p, bounds)
    r = PathResult()
    r.prefix = list(prefix)
    r.msg = r.model = r.sample = None
    r.notes = []
    try:
        spec.fn(env)
        r.kind = "ok"
    except core.PathAbort as e:
        r.kind = "abort"
        r.msg = e.why
    except core.Violated as e:
        r.kind = "violated"
        r.msg, r.model = e.msg, e.model
    except core.Inconclusive as e:
        r.kind = "inconclusive"
        r.msg = str(e)
    except core.Unsupported as e:
        r.kind = "unsupported"
        r.msg = "%s\n%s" % (e, short_tb())
    except RecursionError as e:
        r.kind = "unsupported"
        r.msg = "recursion"
    except Exception as e:
        r.kind = "violated"
        r.msg = "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:200], short_tb())
        m = p.get_model()
        if m is None:
            if p.check() == z3.unsat:
                r.kind = "abort"
                r.msg = "infeasible"
            else:
                r.kind = "inconclusive"
        else:
            r.model = p.eval_inputs(m)
    if r.kind in ("unsupported", "inconclusive"):
        # the encoding cannot follow this path: at least run one of its inputs on the real code
        core.QUERY_MS, old = 3000, core.QUERY_MS
        try:
            m = p.get_model()
            if m is not None:
                r.sample = p.eval_inputs(m)
                r.notes = None
        except BaseException:
            pass
        core.QUERY_MS = old
    if r.kind == "ok" and want_sample:
        m = p.get_model()
        if m is None:
            if p.check() == z3.unsat:
                r.kind, r.msg = "abort", "infeasible"
        else:
            r.sample = p.eval_inputs(m)
            notes = []
            for label, v in p.log:
                try:
                    notes.append([label, model_eval(m, v)])
                except Exception:
                    notes.append([label, "?"])
            r.notes = notes
    r.pending = p.pending
    r.decisions = len(p.decisions)
    r.reached = set(p.reached) if r.kind in ("ok",) else set()
    stats.functions = {(c.co_filename, c.co_qualname) for c in stats.functions}
    r.stats = stats
    r.concretised = p.concretised
    return r


def short_tb():
    out = []
    for f in traceback.extract_tb(sys.exc_info()[2])[-6:]:
        if "/symx/" in f.filename and "core.py" not in f.filename:
            continue
        out.append("%s:%s(%s)" % (os.path.basename(f.filename), f.lineno, f.name))
    return " < ".join(reversed(out))


def fork_call(fn, timeout):
    """Run fn() in a forked child, return its pickled result."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            res = fn()
            data = pickle.dumps(res)
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
        except BaseException:
            try:
                sys.stderr.write(traceback.format_exc()[-3000:])
                sys.stderr.flush()
            except BaseException:
                pass
            code = 3
        os._exit(code)
    os.close(wfd)
    buf = io.BytesIO()
    end = time.time() + timeout
    ok = True
    while True:
        left = end - time.time()
        if left <= 0:
            ok = False
            os.kill(pid, 9)
            break
        rl, _, _ = select.select([rfd], [], [], left)
        if not rl:
            continue
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        buf.write(chunk)
    os.close(rfd)
    os.waitpid(pid, 0)
    if not ok:
        return None
    try:
        return pickle.loads(buf.getvalue())
    except Exception:
        return None


SYMENV = None
PATH_TIMEOUT = 240


def worker(spec, bounds, batch, sample_every, slice_s, opts):
    out, stack = [], list(batch)
    t0 = time.time()
    while stack and time.time() - t0 < slice_s:
        prefix = stack.pop()
        want = (sample_every == 1) or (hash(tuple(prefix)) % sample_every == 0)
        r = fork_call(lambda: run_path(spec, bounds, prefix, want, opts), PATH_TIMEOUT)
        if r is None:
            r = PathResult()
            r.kind, r.msg, r.model, r.pending = "inconclusive", "path died or timed out", None, []
            r.decisions, r.stats, r.reached, r.notes = 0, core.Stats(), set(), []
            r.sample, r.concretised, r.prefix = None, [], prefix
        stack.extend(r.pending)
        r.pending = []
        out.append(r)
    return out, stack


class Report:
    def __init__(self):
        self.paths = collections.Counter()
        self.stats = core.Stats()
        self.reached = set()
        self.violations = []
        self.problems = []
        self.samples = []
        self.transitions = 0
        self.concretised_paths = 0
        self.bound_cuts = collections.Counter()
        self.complete = True
        self.wall = 0.0


def explore(spec, bounds, deadline, jobs=8, sample_every=1, max_violations=12, opts=None):
    global SYMENV
    from symx import api
    if SYMENV is None:
        SYMENV = api.make_sym_env()
    rep = Report()
    todo = collections.deque([[]])
    running = {}
    t0 = time.time()
    seen_msgs = collections.Counter()

    def start(batch):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                slice_s = 0.3 if len(todo) < jobs * 2 else 1.5
                data = pickle.dumps(worker(spec, bounds, batch, sample_every, slice_s, opts))
                with os.fdopen(wfd, "wb") as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(wfd)
        running[rfd] = (pid, io.BytesIO(), batch)

    stop = False
    while todo or running:
        if time.time() > deadline:
            rep.complete = False
            stop = True
        if len(rep.violations) >= max_violations:
            stop = True
        if stop:
            for fd, (pid, _, _) in running.items():
                try:
                    os.kill(pid, 9)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
            break
        while todo and len(running) < jobs:
            k = max(1, min(8, len(todo) // (jobs * 2)))
            start([todo.pop() for _ in range(min(k, len(todo)))])
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rl:
            pid, buf, batch = running[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                buf.write(chunk)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            try:
                results, rest = pickle.loads(buf.getvalue())
            except Exception:
                rep.problems.append("worker died")
                rep.complete = False
                continue
            todo.extend(rest)
            for r in results:
                rep.paths[r.kind] += 1
                rep.stats.merge(r.stats)
                rep.transitions += r.decisions
                rep.reached |= r.reached
                if r.concretised:
                    rep.concretised_paths += 1
                if r.kind == "violated":
                    key = r.msg.split(" [")[0]
                    seen_msgs[key] += 1
                    if seen_msgs[key] <= 3:
                        rep.violations.append((r.msg, r.model))
                elif r.kind in ("inconclusive", "unsupported"):
                    if len(rep.problems) < 20:
                        rep.problems.append("%s: %s" % (r.kind, r.msg))
                elif r.kind == "abort" and r.msg.startswith(("bound:", "concretisation:")):
                    rep.bound_cuts[r.msg] += 1
                if r.sample is not None:
                    rep.samples.append((r.sample, r.notes))
    rep.wall = time.time() - t0
    return rep
