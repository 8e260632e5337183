import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, ppgen, pplex, progs
from vlib import run, Violation, h

def through(ctx, d, exe, text, lines, what, keys):
    files = {"t.c": text}
    with open(os.path.join(d, "t.c"), "wb") as f: f.write(text.encode("latin1"))
    r = run([exe, "t.c", "t.i"], cwd=d, timeout=20)
    if r.sanitizer(): raise Violation("%s: memory error in scpp: %s" % (what, r.brief()), files)
    if r.timeout: raise Violation("TIMEOUT: %s: scpp does not end" % what, files)
    if r.rc: raise Violation("%s: scpp rejects it: %s" % (what, r.brief(300)), files)
    out = open(os.path.join(d, "t.i"), "rb").read().decode("latin1")
    files["t.i"] = out
    got = [ppgen.toks(l) for l in re.split(r"\r?\n", out)]
    got = [l for l in got if l]
    if got != lines:
        k = next((k for k in range(min(len(got), len(lines))) if got[k] != lines[k]), min(len(got), len(lines)))
        raise Violation("%s: line %d of the output\n  is %s\n not %s" % (what, k, got[k:k + 1], lines[k:k + 1]), files)

def case(ctx, rng, d, i):
    exe = ctx.scpp_san if i % 4 == 0 else ctx.scpp
    text, lines = pplex.program(rng)
    through(ctx, d, exe, text, lines, "token stream", None)
    n = sum(map(len, lines))
    return dict(evals=1, keys=[h(text)], sample=text[:2000] if i < 2 else None, add=dict(tokens=n, lines=len(lines)))

def phases(ctx, rng, d, i):
    for k in range(4):
        text, lines = pplex.phase(rng, 1 + (i * 4 + k) % 520)
        through(ctx, d, ctx.scpp_san if k == 3 else ctx.scpp, text, lines, "token at offset %d" % (1 + (i * 4 + k) % 520), None)
    return dict(evals=4, keys=["phase%d.%d" % (i, k) for k in range(4)], add=dict(phases=4))

def same(ctx, rng, d, i):
    """a program and its preprocessed form compile to the same image"""
    while True:
        src, exp = progs.program(rng)
        if "#" not in src: break
    files = {"t.c": src}
    open(os.path.join(d, "t.c"), "w").write(src)
    a = run([ctx.scc, "t.c", "a.com"], cwd=d, timeout=20)
    if a.rc: return dict(evals=0, add=dict(discarded=1))
    r = run([ctx.scpp, "t.c", "t.i"], cwd=d, timeout=20)
    if r.rc: raise Violation("a program scc compiles: scpp rejects it: %s" % r.brief(300), files)
    b = run([ctx.scc, "t.i", "b.com"], cwd=d, timeout=20)
    x = open(os.path.join(d, "a.com"), "rb").read()
    y = open(os.path.join(d, "b.com"), "rb").read() if b.rc == 0 else b""
    if x != y: raise Violation("the preprocessed program compiles differently: %s" % b.brief(200), {"t.c": src, "t.i": open(os.path.join(d, "t.i")).read()})
    return dict(evals=1, keys=[h(src)], add=dict(programs=1, image_bytes=len(x)))

def body(c):
    t = vlib.Tools(c.dir, ["scpp", "scpp:san", "scc"])
    c.pool(phases, c.n(130, 5200), t, tag="phase")
    c.pool(case, c.n(4000, 200000), t)
    c.pool(same, c.n(300, 10000), t, tag="same")

if __name__ == "__main__":
    vlib.main("P04", "An evaluation is a generated token stream (its tokens per logical line are known by construction: no lexer is trusted) sent through scpp, a quarter of them under ASan/UBSan; the output's tokens must be the same line by line. "
      "'phase' cases put tokens at every offset of the 512-byte buffers; 'same' cases compile a program directly and after scpp and compare the images.", body)
