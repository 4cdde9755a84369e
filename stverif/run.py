"""development entry: python3-vt -m stverif.run BM SM ELEM [contract ...]"""
import sys, time, os
from .core import *
from .frontend import load
from . import contracts as K, mutate, purge, par, seqlevel, seqspecs
from .frontend import load_unit


def summary(r):
    from collections import Counter
    st = Counter(o[2] for o in r.obls)
    return "cpu=%.0fs paths=%d obls=%d %s exits=%s q=%d solver=%.1fs unsup=%s" % (getattr(r, "wall", 0), r.paths, len(r.obls), dict(st), r.exits, r.queries, r.solver_s, r.unsupported[:3])


if __name__ == "__main__":
    BM, SM, elem = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    t = time.time()
    unit = load_unit("/tmp/w/d1", (BM, SM, elem))
    par.UNITS[(BM, SM, elem)] = unit
    print("load %.1fs" % (time.time() - t))
    names = sys.argv[4:] or list(K.TREE)
    t = time.time()
    lvl = os.environ.get("LVL", "tree")
    if lvl == "seq" and not sys.argv[4:]:
        names = seqspecs.expand(list(seqlevel.SPECS))
    rs = par.run_jobs([(lvl, (BM, SM, elem), n) for n in names], debug=True)
    for (l, u, n), r in rs.items():
        print("%-28s %s" % (n, summary(r)), flush=True)
        bad = {}
        for o in r.obls:
            if o[2] != "ok":
                bad[(o[0], o[1], o[2])] = bad.get((o[0], o[1], o[2]), 0) + 1
        for k, v in list(bad.items())[:6]:
            print("     ", k, v)
    print("wall %.1fs" % (time.time() - t))
