import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cprog import *
import objs

def case(ctx, rng, d, i):
    g = objs.OG(rng)
    try:
        top, main = g.program(rng.choice([1, 2, 4]), rng.choice([6, 12, 20]))
    except TooLong:
        return None
    src = PRELUDE + top + "void Main(void)\n{\n" + main + "}\n"
    exp = "".join(g.out)
    try:
        run_and_compare(ctx, d, src, exp, seed=rng.randrange(1 << 20), exe=ctx.scc_san if i % 4 == 0 else ctx.scc)
    except Violation as v:
        if v.key is not None:
            k = [i for i, (n, s) in enumerate(g.where) if n <= v.key]
            k = k[-1] if k else 0
            v.msg += "\n  near: " + " ".join(s for n, s in g.where[max(0, k - 3):k + 2])
        raise
    return dict(evals=g.ops, keys=[h(k) for k in g.keys], sample=src[-700:] if i < 3 else None, add=dict(programs=1, bytes_and_values_compared=exp.count("\n")))

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scc:san"])
    run_probes(c, t, "C03")
    c.pool(case, c.n(4000, 120000), t)

if __name__ == "__main__":
    vlib.main("C03", "each evaluation is one generated access, pointer or struct statement executed by a compiled program whose printed values and whole-object byte dumps equalled the byte-level memory model; distinct counts (statement kind, access path shape, element type)", body)
