import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, ppgen
from vlib import run, Violation, h

class Refused(Violation): pass

def preprocess(ctx, d, exe, name, what, files, out="t.i"):
    p = os.path.join(d, out)
    if os.path.exists(p): os.unlink(p)
    r = run([exe, name, out], cwd=d, timeout=20)
    if r.sanitizer(): raise Violation("%s: memory error in scpp: %s" % (what, r.brief()), files)
    if r.timeout: raise Violation("%s: TIMEOUT: scpp does not end" % what, files)
    if r.rc: raise Refused("%s: scpp rejects it: %s" % (what, r.brief(400)), files)
    return open(p, "rb").read().decode("latin1")

def compare(got, want, what, files, blanks=lambda a, b: False):
    g = ppgen.split(ppgen.toks(got))
    if g == want: return 0
    for k in want:
        if g.get(k) != want[k] and not (k in g and blanks(g[k], want[k])):
            raise Violation("%s: at %s\n scpp: %s\n  gcc: %s" % (what, k or "start", " ".join(g.get(k, ["(missing)"])), " ".join(want[k])), files)
    if set(g) == set(want): return 1
    raise Violation("%s: more output than gcc: %s" % (what, [k for k in g if k not in want]), files)

def case(ctx, rng, d, i):
    s = ppgen.settle(d, ppgen.program(rng))
    if s is None: return dict(evals=0, add=dict(discarded=1))
    chunks, text, want = s
    try: got = preprocess(ctx, d, ctx.scpp_san if i % 4 == 0 else ctx.scpp, "t.c", "macro program", {"t.c": text})
    except Refused:
        if max(len(t) for v in want.values() for t in v + [""]) < 250: raise
        return dict(evals=0, add=dict(long_strings=1))      # beyond the limit for strings
    blanks = compare(got, want, "macro program", {"t.c": text, "t.i": got}, lambda a, b: ppgen.blanks(d, ctx.scpp, a, b, text))
    uses = [t for k, t in chunks if k == "u"]
    return dict(evals=len(uses), keys=[h(t) for t in uses], sample=text if i < 2 else None,
                add=dict(uses=len(uses), blanks_open=blanks, definitions=sum(1 for k, t in chunks if t.lstrip().startswith("#")), tokens=sum(map(len, want.values()))))

def body(c):
    t = vlib.Tools(c.dir, ["scpp", "scpp:san"])
    c.pool(case, c.n(4000, 200000), t)

if __name__ == "__main__":
    vlib.main("P01", "Each evaluation is one use of macros (after #define and #undef lines) in a generated program: nested, recursive, multi-line, empty and macro-named arguments, # and ##, literals, comments. "
      "The tokens scpp (every fourth program under ASan/UBSan) writes for it are compared with gcc's preprocessor; programs gcc diagnoses (wrong argument counts, invalid pastes) are discarded.", body)
