import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cprog import *
import flow

def build(rng, nf):
    """Returns (source, expected output, marks executed, keys)."""
    st = flow.State(rng.randrange(65536), 0)
    seed = st.seed
    funcs, body, main, keys, marks = [], [], [], set(), 0
    tries = 0
    last = False
    while len(funcs) < nf and tries < nf * 6 and not last:
        tries += 1
        name = "f%d" % len(funcs)
        g = flow.Gen(rng, st, rng.choice([4, 8, 15, 25, 40]), [f for f in funcs if f.ret not in "vu"])
        g.mark = 1 + 1000 * len(funcs)
        fn, src = g.function(name, rng.choice([0, 0, 1, 2, 3]))
        snap = st.snapshot()
        st.marks = set()
        calls, ok = [], True
        try:
            for _ in range(rng.choice([1, 2, 3])):
                args = [rng.choice([0, 1, 2, 3, -1, 255, 300, -32767]) for _ in range(fn.nparams)]
                fuel = rng.choice([60, 200, 400])
                st.fuel = fuel
                st.depth = 0
                calls.append("    fuel = %d;\n" % fuel + ("    %s(%s);\n" if fn.ret == "v" else "    P(%s(%s));\n") % (name, ", ".join(map(str, args))))
                v = fn.call(st, args)
                if fn.ret != "v": st.P(v)
        except flow.Fuel:
            if tries < nf * 3:
                ok = False
            else:
                last = True
        except flow.Fail:
            ok = False
        if not ok:
            st.restore(snap)
            continue
        # shape of the function: its text without numbers
        keys.add(h("".join(ch for ch in src if not ch.isdigit())))
        marks += len(st.marks)
        funcs.append(fn); body.append(src); main += calls
    src = PRELUDE + flow.PRE + "".join(body) + "void Main(void)\n{\n    seed = %d;\n" % (seed if seed != -32768 else -32767) + "".join(main) + "    P(g0);\n    P(g1);\n}\n"
    if seed == -32768: return None
    if not last:
        st.P(st.g["g0"]); st.P(st.g["g1"])
    return src, "".join(st.out), marks, keys

def case(ctx, rng, d, i):
    b = build(rng, rng.choice([1, 2, 4]))
    if not b: return None
    src, exp, marks, keys = b
    c = compile_scc(ctx, d, src, exe=ctx.scc_san if i % 4 == 0 else ctx.scc, expect_ok=False)
    if c.rc:
        if b"Check failed" in c.out + c.err and src.count("\n") > 400:
            return dict(evals=0, add=dict(too_big=1))
        raise Violation("scc rejected a valid program: " + c.brief(400), {"p.c": src})
    r, j = em86(ctx, os.path.join(d, "p.com"), d, map=os.path.join(d, "p.map"), seed=rng.randrange(1 << 20), steps=5000000)
    out, el = r.out.decode("latin1"), exp.split("\n")
    al = out.split("\n")
    files = {"p.c": src, "expected.txt": exp, "actual.txt": r.out, "report.json": str(j)}
    for k in range(max(len(el), len(al))):
        e = el[k] if k < len(el) else None
        a = al[k] if k < len(al) else None
        if e != a and not (e == "????" and a is not None and len(a) == 4):
            raise Violation("marker %d differs: expected %r, program printed %r (previous %s; ended %s, %s)" % (k + 1, e, a, el[max(0, k - 3):k], j["ended"], j["violations"][:2]), files)
    if j["violations"]:
        raise Violation("monitor: %s" % j["violations"], files)
    if j["ended"] != "exit" or j["exit"] != 0:
        raise Violation("program ended with %s/%s" % (j["ended"], j["exit"]), files)
    return dict(evals=marks, keys=keys, sample=src[-700:] if i < 3 else None,
                add=dict(programs=1, functions=len(keys), markers_compared=len(el), steps=j["steps"], calls_checked=j["calls"]))

KNOWN = """int Z(int a, int b, int c, int d) { return d; }
void Main(void)
{
    int n = 0;
L:
    Z(1, 2, 3, 4);
    P(n);
    if (n) goto M;
    int v = 7;
    n = 1;
    goto L;
M:
    P(v);
}
"""
def known(ctx, rng, d, i):
    try:
        run_and_compare(ctx, d, PRELUDE + KNOWN, "0000\n0001\n0007\n", 1, what="goto back over a declaration and forward past it: ")
    except Violation as v:
        v.key = "goto-back-over-declaration"
        raise
    return dict(evals=3)

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scc:san"])
    run_probes(c, t, "C02")
    c.pool(known, 1, t, tag="known")
    c.pool(case, c.n(6000, 150000), t)

if __name__ == "__main__":
    vlib.main("C02", "each evaluation is a control-flow marker executed by a compiled program whose whole trace equalled the reference interpreter's, with the SP/BP/return monitor silent; distinct counts function bodies that differ in more than constants", body)
