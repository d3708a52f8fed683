"""Runs the real compiled code (libh.so) in a separate process; a panic aborts
that process and is reported as ("panic", message)."""
import subprocess, sys, os, pickle, struct, ctypes, tempfile, select

class Hang(Exception):
    """Many calls do not return: (fn, args) is one of them, tried alone for 20 s."""
class Native:
    def __init__(self, so):
        self.so = so; self.p = None; self.calls = 0
    def _start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), self.so], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err)
    def call(self, fn, *args, limit=None):
        """args: float, int, ("d",[floats]) ("q",[ints]) ("b",bytes) buffers; returns list of buffers after the call."""
        if self.p is None: self._start()
        self.calls += 1
        b = pickle.dumps((fn, args))
        try:
            self.p.stdin.write(struct.pack("<I", len(b)) + b); self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], limit or (20 if fn != "*" else 60))[0]:
                self.p.kill(); self.p.wait(); self.p = None
                return ("panic", "no answer within the time limit (endless loop)")
            h = self.p.stdout.read(4)
            if len(h) == 4:
                return pickle.loads(self.p.stdout.read(struct.unpack("<I", h)[0]))
        except BrokenPipeError: pass
        self.p.wait()
        self.err.seek(0)
        m = self.err.read().decode(errors="replace").strip()
        rc = self.p.returncode
        self.p = None
        return ("panic", "signal/exit %s: %s" % (rc, m[:400]))
    def many(self, calls):
        """[(fn, *args)] in one go; a panic in one of them falls back to single calls."""
        out = []
        for i in range(0, len(calls), 500):
            part = calls[i:i + 500]
            r = self.call("*", part)
            if type(r) is tuple and r and r[0] == "panic": r = self.singly(part)
            else: self.calls += len(part) - 1
            out += r
        return out
    def singly(self, part):
        out, hung = [], 0
        for c in part:
            r = self.call(*c, limit=3)
            if type(r) is tuple and "no answer" in r[1]:
                hung += 1
                if hung == 8:
                    r = self.call(*c)
                    if type(r) is tuple and "no answer" in r[1]: raise Hang(c)
            out.append(r)
        return out
    def close(self):
        if self.p: self.p.stdin.close(); self.p.wait(); self.p = None

def serve(so):
    L = ctypes.CDLL(so)
    i, o = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = i.read(4)
        if len(h) < 4: return
        fn, args = pickle.loads(i.read(struct.unpack("<I", h)[0]))
        r = [run(L, c[0], c[1:]) for c in args[0]] if fn == "*" else run(L, fn, args)
        b = pickle.dumps(r)
        o.write(struct.pack("<I", len(b)) + b); o.flush()
def run(L, fn, args):
        bufs, cargs = [], []
        for a in args:
            if type(a) is float: cargs.append(ctypes.c_double(a))
            elif type(a) is int: cargs.append(ctypes.c_int64(a))
            elif a[0] == "d": x = (ctypes.c_double * max(1, len(a[1])))(*a[1]); bufs.append((a[0], x, len(a[1]))); cargs.append(x)
            elif a[0] == "q": x = (ctypes.c_int64 * max(1, len(a[1])))(*a[1]); bufs.append((a[0], x, len(a[1]))); cargs.append(x)
            else: x = ctypes.create_string_buffer(a[1], max(1, len(a[1]))); bufs.append((a[0], x, len(a[1]))); cargs.append(x)
        getattr(L, fn).restype = None
        getattr(L, fn)(*cargs)
        out = []
        for k, x, n in bufs:
            out.append(list(x)[:n] if k != "b" else x.raw[:n])
        # strings referenced by pointers in int buffers are read back on request
        if fn in ("h_parse_satrec", "h_twoline", "h_parse", "h_multi"):
            out.append(strings(fn, out))
        return out

def rd(p, n):
    return ctypes.string_at(p, n) if n > 0 else b""
def strings(fn, out):
    """Dereference the string pointers of parse results."""
    if fn == "h_multi":
        cnt, s, e = out[1], out[2], out[4]
        return {"names": [(rd(s[6 * i + 2], s[6 * i + 3]) if s[6 * i + 4] else None) for i in range(cnt[0])],
                "satnums": [rd(s[6 * i], s[6 * i + 1]) for i in range(cnt[0])],
                "errs": [one(e[9 * i:9 * i + 9]) for i in range(cnt[1])]}
    s, e = out[-2], out[-1]
    if e[0] == 0:
        return {"satnum": rd(s[0], s[1]), "name": rd(s[2], s[3]) if s[4] else None}
    return {"err": one(e)}
def one(e):
    r = {"variant": e[0], "low": e[3], "high": e[4], "nested": e[7], "index": e[8]}
    if e[0] in (1, 2, 3):
        r["field"] = rd(e[1], e[2]); r["text"] = rd(e[5], e[6])
    return r

if __name__ == "__main__": serve(sys.argv[1])
