import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, ppgen, ppinc
from vlib import run, Violation, h
from p01 import preprocess, compare

def put(d, files):
    for n, t in files.items():
        with open(os.path.join(d, n), "wb") as f: f.write(t.encode("latin1"))

def case(ctx, rng, d, i):
    exe = ctx.scpp_san if i % 4 == 0 else ctx.scpp
    if i % 8 == 7:
        files, want, why = ppinc.failing(rng)
        put(d, files)
        r = run([exe, "t.c", "t.i"], cwd=d, timeout=20)
        if r.sanitizer(): raise Violation("%s: memory error in scpp: %s" % (why, r.brief()), files)
        if r.timeout: raise Violation("TIMEOUT: %s: scpp does not end" % why, files)
        if r.rc == 0: raise Violation("%s: scpp ends with status 0" % why, files)
        msg = (r.out + r.err).decode("latin1")
        if not msg.strip(): raise Violation("%s: no diagnostic" % why, files)
        words = re.findall(r"[\w.]+", msg)
        for w in want:
            if not any(x.strip(".") == w for x in words): raise Violation("%s: the diagnostic doesn't name %s: %s" % (why, w, msg[:200]), files)
        return dict(evals=1, keys=[h(str(files))], add={why: 1})
    files, n = ppinc.program(rng)
    put(d, files)
    r = ppgen.gcc_e(d, "t.c")
    if r.rc or r.err.strip(): return dict(evals=0, add=dict(discarded=1))
    want = ppgen.split(ppgen.toks(r.out.decode("latin1")))
    got = preprocess(ctx, d, exe, "t.c", "include tree", files)
    compare(got, want, "include tree", files)
    return dict(evals=len(want), keys=[h(str(files))], sample=str(files) if i < 2 else None,
                add=dict(positions=len(want), files=len(files)), max=dict(files_in_tree=len(files)))

def deep(ctx, rng, d, i):
    """nesting up to and beyond the limit: right output or a refusal"""
    n = i + 1
    files = {"t.c": 'a_0 __LINE__\n#include "f1.h"\nb_0 __FILE__ __LINE__\n' if n else "a_0\n"}
    for k in range(1, n + 1):
        files["f%d.h" % k] = "a_%d __LINE__\n" % k + ('#include "f%d.h"\n' % (k + 1) if k < n else "") + "b_%d __FILE__ __LINE__\n" % k
    put(d, files)
    want = ppgen.toks(ppgen.gcc_e(d, "t.c").out.decode())
    r = run([ctx.scpp_san, "t.c", "t.i"], cwd=d, timeout=20)
    if r.sanitizer() or r.timeout: raise Violation("%d nested include files: %s" % (n, r.brief()), files)
    if r.rc == 0:
        if ppgen.toks(open(os.path.join(d, "t.i")).read()) != want: raise Violation("%d nested include files: wrong output" % n, files)
    elif n <= 2: raise Violation("%d nested include files are refused: %s" % (n, r.brief()), files)
    elif not (r.out + r.err).strip(): raise Violation("%d nested include files refused without a diagnostic" % n, files)
    return dict(evals=1, keys=["deep%d" % n], add=dict(refused=int(r.rc != 0)))

def body(c):
    t = vlib.Tools(c.dir, ["scpp", "scpp:san"])
    c.pool(deep, 8, t, tag="deep")
    c.pool(case, c.n(4000, 200000), t)

if __name__ == "__main__":
    vlib.main("P03", "Each evaluation is a marked position in a generated tree of include files (guards, conditions, macros, padding that moves directives across buffer boundaries, LF and CRLF lines, missing last newline): "
      "the tokens there, with __LINE__ and __FILE__, are compared with gcc's. Every eighth case must fail (#error, missing include, unterminated group) with a diagnostic that names file and line or the missing file.", body)
