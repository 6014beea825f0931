"""Run closures in forked children, a few at a time, each with a time limit."""
import os, pickle, select, signal, sys, time, traceback

_jobs = None           # a pipe holding one byte per processor: whoever computes holds a byte
_held = False


def _take():
    global _held
    os.read(_jobs[0], 1)
    _held = True


def _give():
    global _held
    if _held:
        os.write(_jobs[1], b"x")
        _held = False


def pmap(fns, nproc=8, limit=300, label=None, group=True):
    """-> list of ("ok", result) | ("error", traceback) | ("timeout", None), in the order of fns"""
    global _jobs
    if _jobs is None:
        _jobs = os.pipe()
        os.write(_jobs[1], b"x" * 8)
    had = _held
    _give()
    try:
        return _pmap(fns, nproc, limit, group)
    finally:
        if had: _take()


def _pmap(fns, nproc, limit, group):
    """-> list of ("ok", result) | ("error", traceback) | ("timeout", None), in the order of fns"""
    res = [None] * len(fns)
    todo = list(range(len(fns)))[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    if group: os.setpgid(0, 0)
                    _take()
                    try:
                        out = ("ok", fns[i]())
                    except MemoryError:
                        out = ("error", "out of memory")
                    except BaseException as x:
                        out = ("error", "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-3000:]))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                finally:
                    _give()
                    os._exit(code)
            os.close(w)
            live[r] = (i, pid, time.time() + (limit[i] if isinstance(limit, (list, tuple)) else limit), [])
        now = time.time()
        rd, _, _ = select.select(list(live), [], [], max(0.05, min(1.0, min(v[2] for v in live.values()) - now)))
        for r in list(live):
            i, pid, dl, buf = live[r]
            done = False
            if r in rd:
                b = os.read(r, 1 << 20)
                if b:
                    buf.append(b)
                else:
                    done = True
                    try:
                        res[i] = pickle.loads(b"".join(buf))
                    except Exception:
                        res[i] = ("error", "worker died")
            if not done and time.time() > dl:
                done = True
                res[i] = ("timeout", None)
                os.write(_jobs[1], b"x")
                try:
                    if not group: raise OSError
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try: os.kill(pid, signal.SIGKILL)
                    except OSError: pass
            if done:
                os.close(r)
                del live[r]
                try: os.waitpid(pid, 0)
                except OSError: pass
    return res
