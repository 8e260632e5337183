import sys, os, shutil, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, simgen, fuzz
from vlib import run, Violation, h
from m02 import tree, diff

W16 = simgen.w16
# every first byte sim86 may know, with what usually follows
OPS = list(range(0x00, 0x40)) + list(range(0x40, 0x60)) + list(range(0x70, 0x90)) * 2 + list(range(0x90, 0xa0)) + list(range(0xa0, 0xb0)) * 2 + list(range(0xb0, 0xc0)) + [0xc2, 0xc3, 0xc6, 0xc7, 0xcd, 0xd0, 0xd1, 0xd2, 0xd3, 0xe2, 0xe8, 0xe9, 0xeb, 0xf2, 0xf3, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff] * 2

def wild(rng, n):
    """instructions of any kind with any operands: segments, stack, strings over the end of memory, prefixes, DOS calls with any registers"""
    out = bytearray()
    for _ in range(n):
        x = rng.random()
        if x < 0.35: out += simgen.FORMS[rng.choice(simgen.NAMES)](rng)
        elif x < 0.5: out += bytes([rng.choice(OPS)]) + rng.randbytes(rng.randrange(0, 5))
        elif x < 0.58: out += b"\xb8" + W16(rng.choice([0, 0xffff, 0xfff0, 0xf000, 0x1000, 0x2000, rng.randrange(65536)])) + bytes([0x8e, 0xc0 | rng.randrange(8) << 3 | (rng.randrange(8) if rng.random() < 0.1 else 0)])
        elif x < 0.66: out += bytes([0xb8 | rng.randrange(8)]) + W16(simgen.val(rng))
        elif x < 0.72: out += b"\xb9" + W16(rng.choice([0, 1, 2, 0xffff, 0x8000, rng.randrange(65536)])) + bytes(rng.choice([b"\xf3", b"\xf2", b"\xf3\x26", b"\x26\xf3", b"\xf2\xf3", b""])) + bytes([rng.choice([0xa4, 0xa5, 0xa6, 0xa7, 0xaa, 0xab, 0xac, 0xad, 0xae, 0xaf, 0x90, 0x01])])
        elif x < 0.76: out += bytes([0x26, 0x2e, 0x36, 0x3e, 0xf2, 0xf3, 0xf0][rng.randrange(7)] for _ in range(rng.randrange(1, 12)))
        elif x < 0.84:
            ah = rng.choice([2, 2, 0x3c, 0x3d, 0x3d, 0x3e, 0x3f, 0x40, 0x40])
            bx, cx, dx = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 0xffff, 0x7fff, 0x8000, rng.randrange(65536)]), simgen.val(rng), simgen.val(rng)
            if ah == 0x3e and bx < 3 and rng.random() < 0.8: bx = 5
            if ah == 0x40 and rng.random() < 0.7: cx &= 0xff
            out += b"\xb8" + bytes([rng.randrange(256), ah]) + b"\xbb" + W16(bx) + b"\xb9" + W16(cx) + b"\xba" + W16(dx) + b"\xcd\x21"
        elif x < 0.88: out += bytes([rng.choice([0x89, 0x8b, 0x87]), 0xc0 | rng.randrange(64)])
        elif x < 0.92: out += b"\xbc" + W16(rng.choice([0, 1, 2, 3, 0xffff, 0xfffe, rng.randrange(65536)])) + bytes([rng.choice([0x50, 0x58, 0x06, 0x07, 0x9c, 0x9d, 0x5c, 0x54])])
        elif x < 0.95: out += bytes([0xff, rng.choice([0x16, 0x36, 0x26]), rng.randrange(256), rng.randrange(256)])
        else: out += bytes([0x88, 0x06]) + W16(0x100 + rng.randrange(max(1, len(out) + 40)))             # changes the program
    if rng.random() < 0.5: out += rng.choice([b"\xcd\x20", b"\xb8" + bytes([rng.randrange(256)]) + b"\x4c\xcd\x21", b"\xc3"])
    return bytes(out)

def com(ctx, rng):
    k = rng.random()
    if k < 0.2: return "random bytes", rng.randbytes(rng.choice([0, 1, 2, 10, 100, 1000, 65279, 65280, 65281, 70000]))
    if k < 0.75: return "wild instructions", wild(rng, rng.choice([1, 3, 10, 40, 200]))
    if k < 0.9:
        b = bytearray(rng.choice(ctx.corpus))
        for _ in range(rng.choice([1, 1, 2, 5, 30])):
            p = rng.randrange(len(b))
            y = rng.random()
            if y < 0.4: b[p] = rng.randrange(256)
            elif y < 0.6: b[p] ^= 1 << rng.randrange(8)
            elif y < 0.8: b[p:p] = wild(rng, 1)
            else: del b[p:p + rng.randrange(1, 8)]
        return "changed program", bytes(b[:65280])
    return "changed instructions", bytes(x if rng.random() > 0.02 else rng.randrange(256) for x in simgen.program(rng, rng.choice([10, 60])))

def mapfile(rng, size):
    k = rng.random()
    if k < 0.25: return None
    n = rng.choice([0, 1, 5, 40, 4094, 4095, 4096, 5000])
    a = sorted(rng.randrange(0x100, 0x10000) for _ in range(n))
    if rng.random() < 0.3: rng.shuffle(a)
    t = b"".join(b"%04X %s%s" % (x, bytes(rng.choice(b"abcXYZ_09.$") for _ in range(rng.choice([1, 2, 10, 30, 62]))), rng.choice([b"\r\n", b"\n"])) for x in a)
    if k < 0.6: return t
    b = bytearray(t[:20000] or b"0100 _start\n")
    for _ in range(rng.randrange(1, 8)):
        p = rng.randrange(len(b) + 1)
        y = rng.random()
        if y < 0.3: b[p:p] = rng.choice([b" ", b"\n", b"\0", b"-", b"+", b"0x", b"\xff", b"%s%n", b"a" * 62, b"a" * 63, b"a" * 64, b"a" * 300, b"9" * 40, b"-1 ", b"FFFFFFFF ", b"\n\n\n"])
        elif y < 0.5: del b[p:p + rng.randrange(1, 9)]
        elif y < 0.7: b[p:p] = rng.randbytes(rng.randrange(1, 30))
        else: b = b[:p + 1]
    return bytes(b)

def tails(rng):
    k = rng.random()
    if k < 0.6: return []
    if k < 0.9: return ["".join(chr(rng.randrange(1, 127)) for _ in range(rng.choice([0, 1, 5, 20]))) for _ in range(rng.randrange(1, 4))]
    return ["x" * rng.choice([60, 123, 124, 125, 126, 127, 128, 200, 1000])] * rng.choice([1, 1, 2, 30])

def hostile(ctx, rng, d, i):
    keys, n, ended, diag, skipped = [], 0, 0, 0, 0
    # (reports go to a file: the program may close or use the standard handles, and end with any status)
    log = "log_path=SANLOG:" + vlib.ENV["ASAN_OPTIONS"]
    env = dict(vlib.ENV, ASAN_OPTIONS=log, UBSAN_OPTIONS=log)
    for _ in range(6):
        kind, prog = com(ctx, rng)
        files = {b"A": rng.randbytes(rng.choice([0, 10, 5000])), b"\1": b"x"}
        m = mapfile(rng, len(prog))
        name = rng.choice(["t.com", "t.com", "t.com", "t", "t.x.com", "q" * rng.choice([100, 200, 240]) + rng.choice(["", ".com"]), "./t.com", "./.t", ".t.com"])
        stem = name[:name.rindex(".")] if "." in name[2:] or name == ".t.com" else None
        opts = rng.choice([[], [], ["-v"], ["-p"], ["-p"], ["-v", "-p"], ["-p", "-v"], ["-v", "-v"]])
        args = tails(rng)
        if args and args[0] in ("-v", "-p"): args = []
        res = []
        what = "%s (%d bytes), options %s, map %s, arguments %r" % (kind, len(prog), opts, "none" if m is None else "of %d bytes" % len(m), [a[:30] for a in args])
        fs = {"t.com": prog, "t.map": m or b""}
        for exe, o in ((ctx.sim86, opts), (ctx.sim86_san, opts), (ctx.sim86_pat, opts), (ctx.sim86, [])):
            if o is not opts and not opts: continue
            p = os.path.join(d, "r")
            shutil.rmtree(p, ignore_errors=True); os.mkdir(p); os.chmod(p, 0o777)
            for f, t in list(files.items()) + [(name.encode(), prog)] + ([((stem or name) + ".map", m)] if m is not None else []):
                f = os.path.join(os.fsencode(p), os.fsencode(f))
                with open(f, "wb") as x: x.write(t)
                os.chmod(f, 0o666)
            r = run([exe] + o + [name] + args, cwd=p, unpriv=True, timeout=1.5, env=env)
            logs = [x for x in os.listdir(p) if x.startswith("SANLOG.")]
            if logs: raise Violation("%s: memory error or undefined behaviour in sim86: %s" % (what, open(os.path.join(p, logs[0]), errors="replace").read()[:900]), fs)
            if r.timeout or r.rc in (-24, -25): res = None; break       # programs may run for ever
            if r.rc < 0: raise Violation("%s: sim86 itself dies: %s" % (what, r.brief(600)), fs)
            tr = tree(p)
            tr.pop(os.fsencode(os.path.basename(name)), None)
            res.append((r.rc, (r.out, r.err if o is not opts else None) if o is opts else None, tr))
        if not res: skipped += 1; continue
        for x in res[1:]:
            if x[0] != res[0][0]: raise Violation("%s: the exit status depends on the build or on -v/-p: %d, %d" % (what, res[0][0], x[0]), fs)
            if diff(x[2], res[0][2]): raise Violation("%s: the files depend on the build or on -v/-p: %s" % (what, diff(x[2], res[0][2])), fs)
            if x[1] is not None and x[1][0] != res[0][1][0]: raise Violation("%s: the output depends on how sim86 was built (undefined behaviour)" % what, fs)
        n += 1
        ended += 1
        keys.append(h(prog))
    return dict(evals=n, keys=keys, add={"programs that ended": ended, "programs that ran on": skipped})

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scpp", "sas", "sim86", "sim86:san", "scc.com", "sas.com"])
    t.sim86_pat = os.path.join(c.dir, "sim86_pat")
    r = run(["gcc", "-O0", "-w", "-std=c99", "-D_DEFAULT_SOURCE", "-ftrivial-auto-var-init=pattern", "-I", vlib.REPO, "-o", t.sim86_pat, os.path.join(vlib.REPO, "sim86.c")], timeout=120)
    if r.rc: raise vlib.CheckError("cannot build sim86: " + r.brief())
    rr = random.Random("corpusM5:%d" % vlib.SEED)
    t.corpus = [open(x, "rb").read() for x in (t.scc_com, t.sas_com)] + [simgen.program(rr, 40) for _ in range(30)]
    c.pool(hostile, c.n(350, 15000), t, "hostile")

if __name__ == "__main__":
    vlib.main("M05", "Each evaluation is one arbitrary com-file (random bytes, wild instructions, changed programs), with arbitrary options, map file and arguments, simulated by a plain build, an ASan/UBSan build, a build with scrambled locals, and without options: no report, no death by a signal, the same status, files and output. Programs that run on are not counted. Distinct = program.", body)
