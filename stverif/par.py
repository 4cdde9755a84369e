"""Parallel path exploration: a path of a function under contract is one work item.

The items are handed to forked workers; every worker has the typed AST of all instantiations loaded before the fork.
"""
import multiprocessing as mp, os, time, queue
from .core import *
from .tree import Level
from . import contracts as K, mutate, purge

UNITS = {}       # (BM, SM, elem) -> Unit
LEVELS = {}      # level name -> function(ctx, unit, cfg, contract name) -> label


MAXPATHS = 800   # per function under contract; the largest on the tree as committed takes about 100


def tree_level(ctx, unit, cfg, name):
    return K.TREE[name](Level(unit, ctx, cfg)).verify(name)


LEVELS["tree"] = tree_level


def run_path(item):
    (lvl, ukey, name), dec, log, debug = item
    res = Result()
    cfg = {"BM": ukey[0], "SM": ukey[1], "elem": ukey[2].split("+")[0].split("~")[0], "ukey": ukey, "debug": debug, "blame": os.environ.get("BLAME")}
    ctx = Ctx(res, dec, log, cfg)
    t = time.time()
    try:
        label = LEVELS[lvl](ctx, UNITS[ukey], cfg, name)
        res.exits[label] = res.exits.get(label, 0) + 1
    except PathEnd:
        res.exits["cut"] = res.exits.get("cut", 0) + 1
    except Unsupported as e:
        if ctx.feasible():
            res.unsupported.append(str(e))
    except (Return, Break, Continue, CppThrow) as e:
        res.unsupported.append("escaped " + repr(e))
    except Exception as e:                # a construct the reader of the AST does not know
        import traceback
        if debug: traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.unsupported.append("internal %s: %s at %s:%d" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
    res.paths += 1
    res.wall = time.time() - t
    return res, ctx.alts


def worker(inq, outq):
    while True:
        it = inq.get()
        if it is None:
            return
        try:
            res, alts = run_path(it)
            outq.put((it[0], res, alts, None))
        except BaseException as e:
            outq.put((it[0], None, [], repr(e)))


def run_jobs(jobs, deadline=None, nproc=None, debug=False, stop_on=None):
    """jobs: list of (level, unit key, contract name); returns {job: Result}"""
    nproc = nproc or min(8, os.cpu_count() or 1)
    ctxm = mp.get_context("fork")
    inq, outq = ctxm.SimpleQueue(), ctxm.Queue()
    ps = [ctxm.Process(target=worker, args=(inq, outq), daemon=True) for _ in range(nproc)]
    for p in ps:
        p.start()
    results = {j: Result() for j in jobs}
    pending = 0
    backlog = [(j, [], [], debug) for j in jobs]
    inflight = 0
    try:
        while backlog or inflight:
            while backlog and inflight < 2 * nproc:
                it = backlog.pop()
                r = results[it[0]]
                if r.paths > MAXPATHS and len(r.unsupported) <= 20:
                    r.unsupported += ["more than %d paths" % MAXPATHS] * 21
                if len(r.unsupported) > 20:
                    continue
                inq.put(it)
                inflight += 1
            if not inflight:
                break
            try:
                j, res, alts, err = outq.get(timeout=5)
            except queue.Empty:
                if deadline and time.time() > deadline:
                    for j in results:
                        if any(b[0] == j for b in backlog) or inflight:
                            results[j].unsupported.append("time budget exhausted")
                    break
                if not all(p.is_alive() for p in ps):
                    for j in results:
                        results[j].unsupported.append("a worker process ended")
                    break
                continue
            inflight -= 1
            if res is None:
                results[j].unsupported.append("worker: " + err)
            else:
                results[j].merge(res)
                results[j].wall = getattr(results[j], "wall", 0) + res.wall
            backlog += [(j, d, l, debug) for d, l in alts]
            if deadline and time.time() > deadline:
                for j in results:
                    results[j].unsupported.append("time budget exhausted")
                break
    finally:
        for p in ps:
            p.kill()
    return results
