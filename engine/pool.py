"""Independent jobs of one check in forked workers; their book-keeping is merged."""
import os, sys, pickle, struct, select, signal, ctypes, time
import smt

def run(ctx, jobs, fn, n=6):
    """fn(ctx, *job) in up to n workers. Returns one result per job (False if its
    worker was lost). If a job reports a violation the others are stopped and
    their results are None."""
    res = [False] * len(jobs)
    if not jobs: return res
    n = max(1, min(n, len(jobs)))
    if len(jobs) > 16000: raise ValueError
    q_rd, q_wr = os.pipe()
    for i in range(len(jobs)): os.write(q_wr, struct.pack("<H", i))
    os.close(q_wr)
    keep = ctx.env.native.p            # the parent's process is not for the workers
    sys.stdout.flush()
    kids = {}
    for k in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                for f in kids: os.close(f)
                os.close(rd)
                work(ctx, jobs, fn, q_rd, wr); rc = 0
            except BaseException:
                import traceback; traceback.print_exc()
            finally:
                sys.stdout.flush(); os._exit(rc)
        os.close(wr); kids[rd] = (pid, bytearray())
    os.close(q_rd)
    ctx.env.native.p = keep
    live = dict(kids); stop = False
    while live and not stop:
        for f in select.select(list(live), [], [])[0]:
            pid, buf = live[f]
            b = os.read(f, 1 << 20)
            if not b: os.close(f); os.waitpid(pid, 0); del live[f]; continue
            buf += b
            while len(buf) >= 4:
                m = struct.unpack("<I", buf[:4])[0]
                if len(buf) < 4 + m: break
                i, r, d = pickle.loads(bytes(buf[4:4 + m])); del buf[:4 + m]
                res[i] = r; merge(ctx, d)
                if d["viol"]: stop = True
            if stop: break
    for f, (pid, _) in live.items():
        os.close(f)
        try: os.kill(pid, signal.SIGTERM)
        except ProcessLookupError: pass
        os.waitpid(pid, 0)
    return [None] * len(jobs) if stop else res

LISTS = ("obl", "viol", "known", "notes", "witness", "samples")
def work(ctx, jobs, fn, q, out):
    nat = ctx.env.native; nat.p = None
    def bye(*_):
        if nat.p: nat.p.kill()
        os._exit(1)
    signal.signal(signal.SIGTERM, bye)
    while True:
        b = os.read(q, 2)
        if len(b) < 2: break
        i = struct.unpack("<H", b)[0]
        at = {k: len(getattr(ctx, k)) for k in LISTS}
        smt.STATS.__init__(); ctx.fns = set(); ctx.steps = 0; ctx.npaths = 0; nat.calls = 0
        try: r = fn(ctx, *jobs[i])
        except Exception as e:
            r = False; ctx.notes.append("job %s: %s %s" % (str(jobs[i][0])[:60], type(e).__name__, str(e)[:200]))
        d = {k: getattr(ctx, k)[n:] for k, n in at.items()}
        d.update(fns=ctx.fns, steps=ctx.steps, npaths=ctx.npaths, calls=nat.calls, st=(smt.STATS.n, smt.STATS.t, smt.STATS.res, smt.STATS.kinds))
        p = pickle.dumps((i, r, d)); p = struct.pack("<I", len(p)) + p
        while p: p = p[os.write(out, p):]
    nat.close()
def merge(ctx, d):
    for k in LISTS: getattr(ctx, k).extend(d[k])
    ctx.fns |= d["fns"]; ctx.steps += d["steps"]; ctx.npaths += d["npaths"]; ctx.env.native.calls += d["calls"]
    S = smt.STATS; n, t, r, k = d["st"]
    S.n += n; S.t += t
    for a, b in ((S.res, r), (S.kinds, k)):
        for x, y in b.items(): a[x] = a.get(x, 0) + y
