"""Key histories for swar, and running it."""
import os, subprocess, struct
import vlib
from vlib import em86, Violation, CheckError, run

KEYS = [0x4B00, 0x4D00, 0x4800, 0x5000, 0x4900, 0x5100, 0x1C0D, 0x3920]
OTHER = [0x1E61, 0x3B00, 0x4700, 0x4F00, 0x0000, 0x4BE0, 0x4DE0, 0x48E0, 0x8500, 0x0E08, 0x0F09, 0x2C1A, 0x004B, 0x0048, 0x1C0A, 0xE00D, 0xE11B, 0x011B - 1, 0x7200, 0xFFFE, 0x5200, 0x5300]

def aim(rng, n):
    return [rng.choice([0x4B00, 0x4D00])] * rng.randrange(n) + [rng.choice([0x4800, 0x5000])] * rng.randrange(n)

def history(rng, fires, quit=True):
    """list of key codes; -1 = a poll without a key"""
    o = []
    kind = rng.randrange(6)
    for _ in range(fires):
        if kind == 0: k = [rng.choice(KEYS[:6]) for _ in range(rng.randrange(12))]
        elif kind == 1: k = [0x4B00] * rng.choice([0, 1, 30, 33, 64, 96, 97, 98, 130, 200]) + [0x5000] * rng.choice([0, 0, 1, 50, 100, 101])
        elif kind == 2: k = [0x4D00] * rng.choice([0, 1, 30, 31, 32, 33, 34, 64, 97, 130]) + [0x5000] * rng.choice([0, 5, 99, 100, 120])
        elif kind == 3: k = aim(rng, 20)
        elif kind == 4: k = [rng.choice([0x4900, 0x5100])] + aim(rng, 60)
        else: k = aim(rng, 8) + [rng.choice(OTHER)] * rng.randrange(3) + aim(rng, 30)
        o += k
        if rng.random() < 0.2: o += [rng.choice(OTHER)]
        o.append(rng.choice([0x1C0D, 0x3920, 0x1C0D, 0x3920, 0x000D, 0xE020]))
    if quit: o += [0x011B, 0x011B]
    if rng.random() < 0.7:
        p = []
        for k in o:
            if rng.random() < 0.1: p += [-1] * rng.choice([1, 2, 7])
            p.append(k)
        o = p
    return o

def dos(ctx, rng, d, keys, steps=400000000):
    """-> (report, font, [(key, packed picture)], (clock, old mode))"""
    kf, ff = os.path.join(d, "keys"), os.path.join(d, "frames")
    with open(kf, "w") as f: f.write(" ".join("." if k < 0 else "%04X" % k for k in keys) + "\n")
    clock, mode = rng.choice([0, 1, 0x7fff, 0x8000, 0xffff, 0x8579, 0x93f8, rng.randrange(65536), rng.randrange(65536), rng.randrange(65536)]), rng.choice([3, 3, 2, 7, 1, 0, 4, 6, 0x13])
    fs = {"keys": open(kf).read(), "how.txt": "clock %d, video mode %d" % (clock, mode)}
    b, j = em86(ctx, ctx.swar_com, d, [], map=ctx.swar_map, seed=rng.randrange(10000), steps=steps, keys=kf, win="B8000-BC000", timeout=300, extra=["-d", ff, "-c", str(clock), "-v", str(mode)])
    with open(ff, "rb") as f: raw = f.read()
    os.unlink(ff)
    font, fr = raw[:1024], []
    for o in range(1024, len(raw), 16386):
        fr.append((raw[o] | raw[o + 1] << 8, raw[o + 2:o + 16386]))
    return b, j, font, fr, clock, mode, fs
