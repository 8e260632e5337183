"""Pieces shared by the scc checks: run-time prelude, building and running a
generated program, comparing its output with the reference interpreter's."""
import os
from cgen import *
import vlib
from vlib import Violation, run, em86, h

PRELUDE = """void PC(int ch) { _emit 0xB4 _emit 0x02 _emit 0x8A _emit 0x56 _emit 0x04 _emit 0xCD _emit 0x21 }
void ExitTo(int c) { _emit 0x8A _emit 0x46 _emit 0x04 _emit 0xB4 _emit 0x4C _emit 0xCD _emit 0x21 }
void P(int v)
{
    int n = 4;
    while (n) {
        --n;
        int d = v >> n * 4 & 15;
        if (d < 10) PC('0' + d);
        else PC('A' - 10 + d);
    }
    PC(10);
}
void ClearBss(char* p, int v, int n) { _emit 0x8B _emit 0x7E _emit 0x04 _emit 0x8B _emit 0x46 _emit 0x06 _emit 0x8B _emit 0x4E _emit 0x08 _emit 0xF3 _emit 0xAA }
void Main(void);
void _start(void)
{
    ClearBss(&_SBSS, 0, &_EBSS - &_SBSS);
    Main();
    ExitTo(0);
}
"""

class Func:
    """A callable with known effects; impl(rt, args) gives its value."""
    def __init__(self, name, ret, params, impl=None, R=(), W=(), text=""):
        self.name, self.ret, self.params, self.impl = name, ret, params, impl
        self.R, self.W, self.text = frozenset(R), frozenset(W), text
    def args_for(self, r):
        return self.params
    def run(self, rt, args):
        return self.impl(rt, args)

def conv(t, v):
    k = t[0]
    return I(v) if k == "i" else U(v) if k in "up" else C8(v) if k == "c" else v & 255 if k == "b" else v

def compile_scc(tools, d, src, name="p", exe=None, expect_ok=True):
    with open(os.path.join(d, name + ".c"), "w", newline="") as f:
        f.write(src)
    r = run([exe or tools.scc, name + ".c", name + ".com"], cwd=d, timeout=20)
    if r.sanitizer():
        raise Violation("sanitizer report while compiling: " + r.brief(), {"p.c": src})
    if r.timeout or r.rc not in (0, 1):
        raise Violation("scc ended abnormally: " + r.brief(), {"p.c": src})
    if expect_ok and r.rc:
        raise Violation("scc rejected a valid program: " + r.brief(400), {"p.c": src})
    return r

def run_and_compare(tools, d, src, expected, seed, name="p", exe=None, what="", steps=5000000, exit_code=0):
    """Compile and run src; the output must equal `expected` and no monitor may fire."""
    compile_scc(tools, d, src, name, exe)
    r, j = em86(tools, os.path.join(d, name + ".com"), d, map=os.path.join(d, name + ".map"), seed=seed, steps=steps)
    out = r.out.decode("latin1")
    files = {"p.c": src, "expected.txt": expected.encode("latin1"), "actual.txt": r.out, "report.json": str(j)}
    if out != expected:
        el, al = expected.split("\n"), out.split("\n")
        k = next((i for i in range(min(len(el), len(al))) if el[i] != al[i]), min(len(el), len(al)))
        raise Violation("%soutput differs at line %d: expected %r, program printed %r (ended %s, %s)" % (
            what, k + 1, el[k] if k < len(el) else None, al[k] if k < len(al) else None, j["ended"], j["violations"][:2]), files, key=k)
    if j["violations"]:
        raise Violation("%smonitor: %s" % (what, j["violations"]), files)
    if j["ended"] != "exit" or j["exit"] != exit_code:
        raise Violation("%sprogram ended with %s/%s instead of exit %d" % (what, j["ended"], j["exit"], exit_code), files)
    return j

def run_probe(tools, rng, d, i, pid):
    """Worker: the i-th regression probe of property pid."""
    from probes import PROBES
    p = [x for x in PROBES if x[0] == pid][i]
    _, name, top, text, exp = p
    src = top + "\n" + PRELUDE + "void Main(void)\n{\n" + text.replace(";", ";\n") + "\n}\n"
    e = "".join("%04X\n" % (x & 0xffff) for x in exp)
    j = run_and_compare(tools, d, src, e, seed=rng.randrange(1 << 20), exe=tools.scc_san, what="probe %s: " % name)
    return dict(evals=len(exp), keys=[h("probe", name)], add=dict(probes=1, steps=j["steps"]))

def probe_count(pid):
    from probes import PROBES
    return sum(1 for x in PROBES if x[0] == pid)

def run_probes(c, tools, pid):
    import functools
    c.pool(functools.partial(_probe_worker, pid), probe_count(pid), tools, tag="probe")

def _probe_worker(pid, ctx, rng, d, i):
    return run_probe(ctx, rng, d, i, pid)
