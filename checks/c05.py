import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cprog import *
import decls

def case(ctx, rng, d, i):
    g = decls.Gen(rng)
    try:
        top, mtext, exp = g.program()
    except (decls.Stop, RecursionError):
        return None
    early = rng.random() < 0.3
    src = (top + PRELUDE + mtext) if early else (PRELUDE + top + mtext)
    j = run_and_compare(ctx, d, src, exp, seed=rng.randrange(1 << 20), exe=ctx.scc_san if i % 4 == 0 else ctx.scc)
    # storage: initialised objects below _SBSS, others in [_SBSS,_EBSS), all disjoint
    addr = {}
    for l in open(os.path.join(d, "p.map"), "rb").read().decode().split("\r\n"):
        if l: addr.setdefault(l[5:], []).append(int(l[:4], 16))
    sb, eb = addr["_SBSS"][0], addr["_EBSS"][0]
    spans = []
    for n, size, init in g.layout:
        if n not in addr:
            if init: raise Violation("%s isn't in the map" % n, {"p.c": src})
            continue     # never used: needs no storage
        a = addr[n][0]
        if init and not (0x100 <= a and a + size <= sb) or not init and not (sb <= a and a + size <= eb):
            raise Violation("%s (%s) lies at %04X+%d, _SBSS=%04X _EBSS=%04X" % (n, "initialised" if init else "uninitialised", a, size, sb, eb), {"p.c": src})
        spans.append((a, a + size, n))
    spans.sort()
    for x, y in zip(spans, spans[1:]):
        if x[1] > y[0]: raise Violation("%s and %s overlap" % (x[2], y[2]), {"p.c": src})
    return dict(evals=exp.count("\n"), keys=[h(k) for k in g.keys], sample=top[-900:] if i < 3 else None, add=dict(programs=1, objects_located=len(spans), calls=j["calls"]))

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scc:san"])
    run_probes(c, t, "C05")
    c.pool(case, c.n(5000, 150000), t)

if __name__ == "__main__":
    vlib.main("C05", "each evaluation is one value printed by a generated program full of shadowed names (locals, parameters, statics, enumerators, typedefs, tags, labels, for-declarations) compared with a reference that resolves names itself; distinct counts (kind of entity, where declared, number of shadowing declarations, scope depth); storage of globals is checked against the map", body)
