"""Run observations of the real code in forked workers.

Every exception, crash or hang of the code under test becomes an observation
(``{"err": ...}``); the specification then decides whether it was allowed."""
import json
import os
import select
import signal
import struct
import sys
import time
import traceback


def observe(fn, *a, **k):
    try:
        return fn(*a, **k)
    except BaseException as e:  # noqa: B902 - everything is an observation
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for f in reversed(tb):
            if "rsciio" in f.filename:
                where = f"{f.filename.split('rsciio/')[-1]}:{f.name}"
                break
        return {"err": type(e).__name__, "msg": str(e)[:300], "where": where}


def _child(fn, items, idxs, wfd, fresh=False):
    try:
        import dask

        dask.config.set(scheduler="synchronous")
    except Exception:
        pass
    out = os.fdopen(wfd, "wb", buffering=0)

    def send(obj):
        b = json.dumps(obj, default=str).encode()
        out.write(struct.pack("<q", len(b)) + b)

    # the code under test prints; keep check output clean
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("VF_STDERR"):
        os.dup2(dn, 2)
    for i in idxs:
        send({"i": i, "start": 1})
        if fresh:  # a new process for every item
            pid = os.fork()
            if pid:
                _, st = os.waitpid(pid, 0)
                if st:
                    os._exit(3)
                continue
        r = observe(fn, items[i])
        try:
            send({"i": i, "r": r})
        except Exception as e:
            send({"i": i, "r": {"err": "Unserialisable", "msg": str(e)[:200]}})
        if fresh:
            os._exit(0)
    os._exit(0)


def pmap(fn, items, procs=6, timeout=60, fresh=False):
    """fn(item) -> JSON-able, for every item; results in order."""
    items = list(items)
    n = len(items)
    res = [None] * n
    todo = list(range(n))
    procs = max(1, min(procs, n))
    sys.stdout.flush()
    sys.stderr.flush()
    queues = [todo[k::procs] for k in range(procs)]
    W = {}  # rfd -> [pid, remaining idxs, buf, current, t_started]

    def spawn(idxs):
        if not idxs:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            try:
                _child(fn, items, idxs, w, fresh)
            finally:
                os._exit(3)
        os.close(w)
        W[r] = [pid, list(idxs), b"", None, time.time()]

    for q in queues:
        spawn(q)
    while W:
        rl, _, _ = select.select(list(W), [], [], 1.0)
        now = time.time()
        for r in list(W):
            st = W[r]
            dead = False
            if r in rl:
                b = os.read(r, 1 << 20)
                if not b:
                    dead = True
                st[2] += b
                while len(st[2]) >= 8:
                    (ln,) = struct.unpack("<q", st[2][:8])
                    if len(st[2]) < 8 + ln:
                        break
                    m = json.loads(st[2][8 : 8 + ln])
                    st[2] = st[2][8 + ln :]
                    if "start" in m:
                        st[3], st[4] = m["i"], now
                    else:
                        res[m["i"]] = m["r"]
                        st[1].remove(m["i"])
                        st[3] = None
            elif st[3] is not None and now - st[4] > timeout:
                try:
                    os.killpg(st[0], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                res[st[3]] = {"err": "HANG", "msg": f">{timeout}s"}
                st[1].remove(st[3])
                st[3] = None
                dead = True
            if dead:
                os.close(r)
                del W[r]
                _, status = os.waitpid(st[0], 0)
                if st[3] is not None:
                    res[st[3]] = {"err": "CRASH", "msg": f"status {status}"}
                    st[1].remove(st[3])
                elif st[1] and status != 0 and len(st[1]) and res[st[1][0]] is None:
                    # died before starting its next item
                    i = st[1].pop(0)
                    res[i] = {"err": "CRASH", "msg": f"status {status}"}
                spawn(st[1])
    return res
