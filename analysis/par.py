"""Independent analysis cases on several processes."""
import multiprocessing
import os
import queue
import time
import signal
import sys
import traceback




def _init():
    signal.signal(signal.SIGALRM, signal.SIG_DFL)


FIRST = 5                     # seconds for the first attempt at a case; costly ones come back last
LATE = "time limit of the case"
_F = None
_CTX = None


class CaseTimeout(Exception):
    pass


def _alarm(*a):
    raise CaseTimeout()


def _one(i, item, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(limit)))
    try:
        return i, _F(_CTX, item), None
    except CaseTimeout:
        return i, None, LATE
    except BaseException as e:
        if os.environ.get("C8S_DEBUG"):
            traceback.print_exc()
        return i, None, "%s: %s" % (type(e).__name__, e)
    finally:
        signal.alarm(0)


def _run(p, share):
    """Results of the first items, and the items left when the share of time is used up."""
    sys.setrecursionlimit(20000)
    t0 = time.time()
    out = []
    later = []
    for k, x in enumerate(p):
        if k and time.time() - t0 > share:
            return out, p[k:], later
        i, item, limit = x
        o = _one(i, item, min(limit, FIRST))
        if o[2] == LATE and limit > FIRST:
            later.append((i, item, limit))
        else:
            out.append(o)
    return out, [], later


def _again(x):
    sys.setrecursionlimit(20000)
    return [_one(*x)], [], []


def cases(ctx, f, items, budget, limit=60, procs=None, enough=None):
    """[(item, f(ctx, item) or None, error or None)] for the items done within the budget, in order.
    enough(result): a result after which the rest is given only a little more time."""
    global _F, _CTX
    _F, _CTX = f, ctx
    t0 = time.time()
    end = min(t0 + budget, getattr(ctx, "deadline", t0 + budget))
    out = {}
    n = procs or min(8, os.cpu_count() or 1)
    size = max(1, min(32, len(items) // (8 * n)))
    work = [(i, x, limit) for i, x in enumerate(items)]
    chunks = (len(work) + size - 1) // size
    work = [work[i::chunks] for i in range(chunks)]      # costly neighbours go to different chunks
    pool = multiprocessing.get_context("fork").Pool(n)
    q = queue.Queue()
    wait = 0

    def put(p, f=None):
        pool.apply_async(f or _run, (p,) if f else (p, 4.0), callback=q.put, error_callback=lambda e: q.put(([], [], [])))
    costly = []
    try:
        for p in work:
            put(p)
            wait += 1
        while wait or costly:
            if wait < n and costly:
                put(costly.pop(0), _again)
                wait += 1
                continue
            left = end - time.time()
            if left <= 0:
                break
            try:
                rs, rest, later = q.get(timeout=left)
            except queue.Empty:
                break
            wait -= 1
            costly += later
            if rest:
                put(rest)
                wait += 1
            for i, r, e in rs:
                out[i] = (items[i], r, e)
                if enough is not None and r is not None and enough(r):
                    end = time.time() if os.environ.get("C8S_STOP") else min(end, max(t0 + 0.7 * budget, time.time() + 10))
                    enough = None
    finally:
        pool.terminate()
        pool.join()
    for i, item, _ in costly:
        out.setdefault(i, (items[i], None, LATE))
    return [out[i] for i in sorted(out)]
