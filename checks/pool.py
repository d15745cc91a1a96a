"""Runs analysis tasks in forked workers (the loaded program is shared copy-on-write)."""
import os, pickle, resource, select, signal, sys, time, traceback

MEM = 7 << 29


class Crash(Exception):
    pass


def run(tasks, jobs=8, limit_s=None, done=None):
    """tasks: list of thunks returning picklable values; a list of values or Crash; done(i, out) true ends it early"""
    out = [None] * len(tasks)
    live = {}
    nxt = 0
    t0 = time.time()
    import machine
    if limit_s is None and machine.DEADLINE[0] is not None:
        limit_s = max(1.0, machine.DEADLINE[0] - t0 + 60)
    sys.stdout.flush()
    while nxt < len(tasks) or live:
        while nxt < len(tasks) and len(live) < jobs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                    try:
                        v = (True, tasks[nxt]())
                    except BaseException:
                        v = (False, traceback.format_exc())
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(v, f)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (nxt, pid, [])
            nxt += 1
        wait = 1.0
        rs, _, _ = select.select(list(live), [], [], wait)
        for r in rs:
            i, pid, buf = live[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            del live[r]
            os.waitpid(pid, 0)
            data = b"".join(buf)
            try:
                ok, v = pickle.loads(data)
            except Exception:
                ok, v = False, "the worker died (memory or time)"
            out[i] = v if ok else Crash(v)
            if done is not None and done(i, out):
                limit_s = -1.0
        if limit_s is not None and time.time() - t0 > limit_s:
            for r, (i, pid, buf) in list(live.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                out[i] = Crash("time limit")
            live = {}
            for i in range(nxt, len(tasks)):
                out[i] = Crash("time limit")
            nxt = len(tasks)
    return out
