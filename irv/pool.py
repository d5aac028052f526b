"""Forked workers with hard time limits."""
import os
import pickle
import select
import signal
import sys
import time
import traceback


class _P:
    def __init__(self, fn, limit, tag=None):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            os.close(r)
            try:
                try:
                    res = ("ok", fn())
                except BaseException as e:
                    res = ("exc", type(e).__name__, str(e), traceback.format_exc())
                data = pickle.dumps(res)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException as e:
                try:
                    sys.stderr.write("worker: %s\n" % e)
                except Exception:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        self.pid, self.fd, self.t0, self.limit, self.buf, self.tag = pid, r, time.time(), limit, b"", tag

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass

    def reap(self):
        os.close(self.fd)
        try:
            _, st = os.waitpid(self.pid, 0)
        except OSError:
            st = 0
        return st


def _cleanup(ps):
    for p in ps:
        p.kill()
        p.reap()


def run_all(tasks, nproc=8, on_done=None):
    """tasks: [(tag, fn, limit)] -> {tag: result}; result = ("ok",v) | ("exc",type,msg,tb) | ("timeout",) | ("died",sig)"""
    todo = list(tasks)[::-1]
    live, out = [], {}
    try:
        while todo or live:
            while todo and len(live) < nproc:
                tag, fn, lim = todo.pop()
                live.append(_P(fn, lim, tag))
            rs, _, _ = select.select([p.fd for p in live], [], [], 0.25)
            now = time.time()
            nl = []
            for p in live:
                done = False
                if p.fd in rs:
                    d = os.read(p.fd, 1 << 20)
                    if d:
                        p.buf += d
                    else:
                        st = p.reap()
                        try:
                            out[p.tag] = pickle.loads(p.buf)
                        except Exception:
                            out[p.tag] = ("died", st)
                        done = True
                if not done and now - p.t0 > p.limit:
                    p.kill()
                    p.reap()
                    out[p.tag] = ("timeout",)
                    done = True
                if done:
                    if on_done:
                        on_done(p.tag, out[p.tag], now - p.t0)
                else:
                    nl.append(p)
            live = nl
    except BaseException:
        _cleanup(live)
        raise
    return out


def race(fns, limit, accept):
    """runs all fns in parallel, returns (index, value) of the first accepted result, or None"""
    live = [_P(f, limit, i) for i, f in enumerate(fns)]
    try:
        while live:
            rs, _, _ = select.select([p.fd for p in live], [], [], 0.1)
            now = time.time()
            for p in list(live):
                if p.fd in rs:
                    d = os.read(p.fd, 1 << 20)
                    if d:
                        p.buf += d
                        continue
                    p.reap()
                    live.remove(p)
                    try:
                        r = pickle.loads(p.buf)
                    except Exception:
                        continue
                    if r[0] == "ok" and accept(r[1]):
                        return p.tag, r[1]
                elif now - p.t0 > limit:
                    p.kill()
                    p.reap()
                    live.remove(p)
        return None
    finally:
        _cleanup(live)
