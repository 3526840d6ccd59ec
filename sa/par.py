"""Run many analysis tasks in forked children (the parsed base state is shared)."""
import os, multiprocessing as mp, traceback

_task = None
FIRST = bool(os.environ.get("SA_FIRST"))      # development only: stop at the first finding


def _run(i):
    try:
        return i, _task[1](_task[0][i]), None
    except Exception:
        return i, None, traceback.format_exc()


def pmap(fn, items, procs=None):
    global _task
    items = list(items)
    _task = (items, fn)
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(items)))
    ctx = mp.get_context("fork")
    out = [None] * len(items)
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        for i, r, err in pool.imap_unordered(_run, range(len(items)), chunksize=1):
            if err:
                raise RuntimeError("analysis task %r failed:\n%s" % (items[i], err))
            out[i] = r
            if FIRST and isinstance(r, dict) and r.get("bad"):
                print("CAUGHT", r["bad"][0][0][:200], items[i], flush=True)
                pool.terminate()
                os._exit(1)
    return out
