import sys, os, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, swargen
from swarmodel import Game, unpack, W, H
from vlib import Violation, h, run

def differs(a, b, what, fs):
    n = [k for k in range(W * H) if a[k] != b[k]]
    x0, x1, y0, y1 = min(k % W for k in n), max(k % W for k in n), n[0] // W, n[-1] // W
    raise Violation("%s: %d pixels of the picture differ from the rules, in (%d,%d)-(%d,%d); at (%d,%d) %d instead of %d" % (what, len(n), x0, y0, x1, y1, n[0] % W, n[0] // W, a[n[0]], b[n[0]]), fs)

def start(pix, font, trace, what, fs):
    try: g = Game(pix, font, trace)
    except ValueError as e: raise Violation("%s: first picture: %s" % (what, e), fs)
    e = g.check_start()
    if e: raise Violation("%s: first picture: %s" % (what, e), fs)
    return g

def case(ctx, rng, d, i):
    keys = swargen.history(rng, rng.choice([0, 1, 2, 3, 6, 10]), quit=rng.random() < 0.9)
    b, j, font, fr, clock, mode, fs = swargen.dos(ctx, rng, d, keys)
    if j["ended"] not in ("exit", "nokeys"): raise Violation("the game ended with %s" % j["ended"], fs)
    if len(fr) < 1 or fr[0][0] != 0xffff: raise Violation("the video mode is not set before the first key", fs)
    fr = fr[1:]
    what = "clock %d, key %d"
    given = [k for k in keys if k >= 0]
    if not fr: return dict(evals=1)
    g = start(unpack(fr[0][1]), font, False, "clock %d" % clock, fs)
    terrain = h(bytes(g.p))
    over = won = False
    for n, (k, pic) in enumerate(fr):
        pix = unpack(pic)
        if pix != g.p: differs(pix, g.p, "before key %d (%04X), clock %d" % (n, k, clock), fs)
        if k == 0xffff:
            if not over: raise Violation("the game ends after key %d (%04X)" % (n - 1, given[n - 1] if n else 0), fs)
            break
        if over: raise Violation("the game goes on after key %d (%04X)" % (n - 1, given[n - 1]), fs)
        if n >= len(given) or k != given[n]: raise Violation("key %d lost" % n, fs)
        over = g.key(k)
    else:
        if j["ended"] == "exit": raise Violation("the mode is not restored", fs)
        if len(fr) != len(given): raise Violation("%d keys taken of %d" % (len(fr), len(given)), fs)
        if over: raise Violation("the game does not end", fs)
    return dict(evals=len(fr), keys=[h((clock, tuple(given)))], add=dict(games=1, pictures=len(fr), shots=g.shots, hits=g.hits, moves=g.moves), sample=terrain)

# ---- the Windows version, compiled with a stand-in for the Windows API under sanitizers
VK = {0x4B00: (0x25, 0x4B), 0x4D00: (0x27, 0x4D), 0x4800: (0x26, 0x48), 0x5000: (0x28, 0x50), 0x4900: (0x21, 0x49), 0x5100: (0x22, 0x51),
      0x1C0D: (0x0D, 0x1C), 0x3920: (0x20, 0x39), 0x011B: (0x1B, 0x01), 0x1E41: (0x41, 0x1E), 0x3B00: (0x70, 0x3B), 0x0231: (0x31, 0x02)}
def host(ctx, rng, d, i):
    kf, ff = os.path.join(d, "keys"), os.path.join(d, "frames")
    script, eff, font = [], [], ctx.host_font
    mode = rng.random()
    if mode < 0.2:
        # more keys at once than the buffer holds
        n = rng.randrange(10, 40)
        b = [rng.choice([0x4B00, 0x4D00, 0x4800, 0x5000, 0x4900, 0x5100, 0x1E41]) for _ in range(n)]
        if rng.random() < 0.5: b[rng.randrange(min(16, n))] = 0x1C0D
        for _ in range(rng.randrange(1, 4)):
            script += [("k", k) for k in b] + [("w", 1500 if 0x1C0D in b else 60)]; eff += b[:16]
            rng.shuffle(b)
    else:
        for _ in range(rng.randrange(1, 5)):
            for _ in range(rng.randrange(0, 6)):
                b = [rng.choice([0x4B00, 0x4D00])] * rng.randrange(16) if rng.random() < 0.6 else [rng.choice(list(VK)[:6] + [0x1E41, 0x3B00, 0x0231]) for _ in range(rng.randrange(15))]
                script += [("k", k) for k in b] + [("w", 60)]; eff += b
            k = rng.choice([0x1C0D, 0x3920])
            script += [("k", k), ("w", 1500)]; eff.append(k)
    script += [("k", 0x011B), ("w", 60), ("k", 0x011B)]; eff += [0x011B, 0x011B]
    with open(kf, "w") as f: f.write("".join("w %d\n" % v if c == "w" else "k %02X %02X\n" % VK[v] for c, v in script))
    fs = {"keys": open(kf).read(), "how.txt": "Windows version with /verif/fakewin"}
    r = run([ctx.host], cwd=d, timeout=300, env=dict(SWAR_KEYS=kf, SWAR_FRAMES=ff))
    if r.sanitizer(): raise Violation("Windows version: %s" % r.sanitizer(), fs)
    if r.rc: raise Violation("Windows version: %s" % r.brief(300), fs)
    got, pic = [], bytearray(W * H)
    with open(ff) as f:
        for line in f:
            v = list(map(int, line.split()))
            for n in range(1, len(v), 2): pic[v[n]] = v[n + 1]
            got.append(bytes(pic))
    os.unlink(ff)
    # the picture shown before the first update is empty
    while got and not any(got[0]): got.pop(0)
    if not got: raise Violation("nothing shown", fs)
    g = start(bytearray(got[0]), font, True, "Windows version", fs)
    g.snap()
    for k in eff:
        if g.key(k): break
    exp = [p for n, p in enumerate(g.frames) if not n or p != g.frames[n - 1]]
    if g.over == "won" and mode < 0.2 and len(got) == len(exp) - 1: exp.pop()   # the next key was already waiting
    for n in range(max(len(got), len(exp))):
        if n >= len(got): raise Violation("Windows version: %d pictures, expected %d" % (len(got), len(exp)), fs)
        if n >= len(exp): raise Violation("Windows version: picture %d after the last one expected" % n, fs)
        if got[n] != exp[n]: differs(got[n], exp[n], "Windows version, picture %d" % n, fs)
    return dict(evals=len(got), keys=[h(tuple(eff) + (1,))], add={"Windows games": 1, "Windows pictures": len(got), "shots": g.shots, "hits": g.hits})

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scpp", "swar.com"])
    c.pool(case, c.n(180, 6000), t, "games")
    t.host = os.path.join(c.dir, "swar_host")
    r = run(["gcc", "-w", "-g", "-O1", "-D_WIN32", "-I", os.path.join(vlib.VERIF, "fakewin"), "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-o", t.host, os.path.join(vlib.REPO, "swar.c")], timeout=120)
    if r.rc:
        c.note(dict(evals=0, add={"Windows version does not build with fakewin": 1}))
        return
    with open(os.path.join(vlib.VERIF, "lib", "font8x8.bin"), "rb") as f: t.host_font = f.read()
    c.pool(host, c.n(48, 1500), t, "windows")

if __name__ == "__main__":
    vlib.main("W02", "Each evaluation is one picture compared, all 64000 pixels, with an independent model of the rules: under DOS (reference 8086, random clock, font and key history) the frame buffer at every key taken and at the end; in the Windows version, compiled with a stand-in for the Windows API under "
      "AddressSanitizer and UndefinedBehaviorSanitizer, every picture shown, each step of every shot included. The ground of the first picture is taken from the game and checked against its constraints. Distinct = (clock, key history).", body,
      assumptions=["BIOS model of em86", "stand-in for the Windows API in /verif/fakewin", "the ground itself is random and not predicted"])
