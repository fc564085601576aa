"""Fork-based parallel map; the workers inherit the loaded program."""
import os, pickle, sys, traceback, time


def pmap(fn, items, jobs=None, weight=None):
    items = list(items)
    jobs = jobs or min(8, os.cpu_count() or 1)
    if jobs <= 1 or len(items) <= 1:
        return [fn(x) for x in items]
    order = list(range(len(items)))
    if weight:
        order.sort(key=lambda i: -weight(items[i]))
    # a pipe as a shared work queue
    qr, qw = os.pipe()
    for i in order:
        os.write(qw, i.to_bytes(4, "big"))
    os.close(qw)
    procs = []
    for w in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                out = []
                while True:
                    b = os.read(qr, 4)
                    if len(b) < 4:
                        break
                    i = int.from_bytes(b, "big")
                    try:
                        out.append((i, True, fn(items[i])))
                    except BaseException as e:
                        out.append((i, False, "%r\n%s" % (e, traceback.format_exc()[-1500:])))
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(out, f)
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            os._exit(code)
        os.close(wr)
        procs.append((pid, r))
    os.close(qr)
    res = [None] * len(items)
    got = [False] * len(items)
    # drain all pipes concurrently: a worker blocks until its result is read
    import threading
    bufs = {}

    def rd(pid, r):
        with os.fdopen(r, "rb") as f:
            bufs[pid] = f.read()

    ths = [threading.Thread(target=rd, args=pr) for pr in procs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for pid, _ in procs:
        os.waitpid(pid, 0)
        if bufs.get(pid):
            for i, okk, v in pickle.loads(bufs[pid]):
                got[i] = True
                if not okk:
                    raise RuntimeError("worker failed on %r: %s" % (items[i], v))
                res[i] = v
    if not all(got):
        raise RuntimeError("a worker died; unfinished: %r" % [items[i] for i in range(len(items)) if not got[i]][:5])
    return res
