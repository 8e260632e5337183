import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, ppgen, ppcond
from vlib import run, Violation, h
from p01 import preprocess

def case(ctx, rng, d, i):
    if i % 12 == 11:
        text, why = ppcond.broken(rng)
        open(os.path.join(d, "t.c"), "w").write(text)
        r = run([ctx.scpp, "t.c", "t.i"], cwd=d, timeout=20)
        if r.timeout: raise Violation("TIMEOUT: %s: scpp does not end" % why, {"t.c": text})
        if r.rc == 0: raise Violation("%s: scpp accepts it" % why, {"t.c": text})
        if not r.out.strip() and not r.err.strip(): raise Violation("%s: refused without a diagnostic" % why, {"t.c": text})
        return dict(evals=1, keys=[h(text)], add=dict(refused=1))
    text, g = ppcond.program(rng)
    open(os.path.join(d, "t.c"), "w").write(text)
    r = ppgen.gcc_e(d, "t.c")
    if r.rc: return dict(evals=0, add=dict(discarded=1), sample=None)
    want = ppgen.toks(r.out.decode("latin1"))
    got = preprocess(ctx, d, ctx.scpp_san if i % 4 == 0 else ctx.scpp, "t.c", "conditional tree", {"t.c": text})
    gt = ppgen.toks(got)
    if gt != want:
        n = next((k for k in range(min(len(gt), len(want))) if gt[k] != want[k]), min(len(gt), len(want)))
        raise Violation("conditional tree: output differs at token %d\n scpp: %s\n  gcc: %s" % (n, gt[n:n + 20], want[n:n + 20]), {"t.c": text, "t.i": got})
    add = {"op " + o: 0 for o in ()}
    for v, ops in g.exprs:
        for o in ops: add["op " + o] = add.get("op " + o, 0) + 1
        add["true" if v else "false"] = add.get("true" if v else "false", 0) + 1
    add["directives"] = sum(1 for l in text.split("\n") if l.strip().startswith("#"))
    return dict(evals=1 + len(g.exprs), keys=[h(text)], sample=text if i < 2 else None, add=add, max=dict(depth=g.depthmax))

def body(c):
    t = vlib.Tools(c.dir, ["scpp", "scpp:san"])
    c.pool(case, c.n(4000, 200000), t)

if __name__ == "__main__":
    vlib.main("P02", "Each evaluation is a generated tree of conditional directives (or one #if/#elif expression in it, restricted to values 16-bit arithmetic and C agree on). "
      "The tokens that come out of scpp (every fourth tree under ASan/UBSan) are compared with gcc's; skipped groups contain junk that must have no effect. Malformed uses must be refused with a diagnostic.", body)
