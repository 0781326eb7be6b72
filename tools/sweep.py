"""Summarise every exported function in parallel; print statistics."""
import sys, os, time, traceback, multiprocessing as mp, collections, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.setrecursionlimit(6000)
import summ
P = None
def work(i):
    f = P.fns[i]
    t = time.time()
    import signal
    def onalarm(a, b): raise RuntimeError("hard alarm")
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(int(os.environ.get("HARD", "60")))
    try:
        S = summ.summarise(P, f, time_limit=float(os.environ.get("TL", "30")))
        npan = sum(1 for e in S.exits if e.tag != "ret")
        inx = sum(1 for e in S.exits if not summ.IP.exact_state(e.st))
        return i, (S.error or "ok"), len(S.exits), npan, inx, time.time() - t
    except Exception as e:
        tb = traceback.format_exc().strip().split("\n")
        return i, "EXC " + tb[-1] + " @ " + " <- ".join(x.strip().split(", in ")[0].replace("File ", "").split("/")[-1] + ":" + x.strip().split("in ")[-1] for x in tb[::-1] if x.strip().startswith("File"))[:200], 0, 0, 0, time.time() - t
if __name__ == "__main__":
    P = summ.load()
    ids = [f["id"] for f in P.fns.values() if f["kind"] in ("Fn", "AssocFn") and f["body"] and f["exported"]]
    pats = sys.argv[1:]
    if pats: ids = [i for i in ids if any(p in P.fns[i]["name"] for p in pats)]
    with mp.Pool(8, maxtasksperchild=1) as pool:
        res = []
        for r in pool.imap_unordered(work, ids, chunksize=1):
            res.append(r)
            if r[5] > 10: print("slow", P.fns[r[0]]["name"], r[5], r[1][:300], flush=True)
    c = collections.Counter()
    for i, err, n, npan, inx, t in sorted(res, key=lambda r: (r[1], P.fns[r[0]]["name"])):
        c["ok" if err == "ok" else err.split(" ")[0]] += 1
        print("%-60s %5.1fs exits=%d panics=%d inexact=%d %s%s" % (P.fns[i]["name"][:90], t, n, npan, inx, err[:300], " [derived]" if P.fns[i]["derived"] else ""))
    print(c)
