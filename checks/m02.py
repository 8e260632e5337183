import sys, os, shutil, string
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, dosgen, simgen, json
from vlib import Violation, h, CheckError

def setup(d, files, prog):
    out = []
    for x in ("a", "b"):
        p = os.path.join(d, x)
        shutil.rmtree(p, ignore_errors=True); os.mkdir(p); os.chmod(p, 0o777)
        for n, t in list(files.items()) + [(b"t.com", prog)]:
            f = os.path.join(os.fsencode(p), n)
            with open(f, "wb") as o: o.write(t)
            os.chmod(f, 0o666)
        out.append(p)
    return out

def tree(p):
    r = {}
    for n in os.listdir(os.fsencode(p)):
        if n in (b"t.com", b"rep.json"): continue
        with open(os.path.join(os.fsencode(p), n), "rb") as f: r[n] = f.read()
    return r

def diff(x, y):
    for n in sorted(set(x) | set(y)):
        if n not in x: return "file %r is missing" % n
        if n not in y: return "file %r should not exist" % n
        if x[n] != y[n]:
            k = next((i for i in range(min(len(x[n]), len(y[n]))) if x[n][i] != y[n][i]), min(len(x[n]), len(y[n])))
            return "file %r differs at %d: %s (length %d), expected %s (length %d)" % (n, k, x[n][k:k+8].hex(), len(x[n]), y[n][k:k+8].hex(), len(y[n]))
    return None

def args(rng):
    n = rng.choice([0, 0, 1, 1, 2, 3, 6])
    out = []
    for _ in range(n):
        k = rng.choice([0, 1, 2, 5, 12]) if rng.random() < 0.85 else rng.randrange(1, 40)
        out.append("".join(rng.choice(string.ascii_letters + string.digits + " ./\\-+?*\"'<>|\t;=,") for _ in range(k)))
    if rng.random() < 0.1: out = ["x" * 125]
    elif rng.random() < 0.1: out = ["ab"] * 42
    while out and sum(map(len, out)) + len(out) > 126: out.pop()
    if out and out[0] in ("-v", "-p"): out[0] = "-"
    return out

def reference(ctx, b, cmd, files, stdin):
    q = vlib.run([ctx.em86, "-u", "-z", "-n", "20000000", "-r", "rep.json", "t.com"] + cmd, cwd=b, stdin=stdin, timeout=60)
    with open(os.path.join(b, "rep.json")) as f: return q, json.load(f)

def services(ctx, rng, d, i):
    files = {b"F%d.DAT" % k: rng.randbytes(rng.choice([0, 1, 100, 512, 5000, 40000])) for k in range(rng.randrange(0, 4))}
    st = rng.random() < 0.4
    prog, g = dosgen.program(rng, files, stdin=st)
    cmd = args(rng)
    a, b = setup(d, files, prog)
    sf = os.path.join(d, "stdin")
    with open(sf, "wb") as f: f.write(rng.randbytes(rng.choice([0, 10, 3000])))
    what = "program with %s, arguments %r" % (", ".join("%d %s" % (v, k) for k, v in sorted(g.stats.items())), cmd)
    exe = ctx.sim86_san if rng.random() < 0.35 else ctx.sim86
    r = vlib.run([exe, "t.com"] + cmd, cwd=a, stdin=sf, unpriv=True, timeout=30)
    fs = {"t.com": prog, "stdin": open(sf, "rb").read(), "args.txt": repr(cmd)}
    for n, t in files.items(): fs[n.decode()] = t
    if b"AddressSanitizer" in r.err or b"runtime error:" in r.err: raise Violation("%s: memory error in sim86: %s" % (what, r.brief()), fs)
    if r.timeout: raise Violation("%s: TIMEOUT" % what, fs)
    q, j = reference(ctx, b, cmd, files, sf)
    if j["ended"] not in ("exit", "int20"): raise CheckError("reference ended with %s" % j)
    x, y = tree(a), tree(b)
    log = lambda t: t.get(b"LOG", b"")
    if log(x) != log(y):
        k = next((n for n in range(min(len(log(x)), len(log(y)))) if log(x)[n] != log(y)[n]), -1)
        item = "nothing" if k < 0 else "what the program finds at start, item %d of CS DS ES SS SP [0] [SP]" % (k // 4) if k < 28 else \
               "result of service call %d" % (k // 4 - 7) if k < 4 * g.nlog else "command tail at %02X" % (k - 0x800 + 0x80) if k < 0x900 else "bytes transferred, at %04X" % (k + 0x8000)
        raise Violation("%s: the program sees something else than under DOS: %s: %s, expected %s" % (what, item, log(x)[k:k+4].hex(), log(y)[k:k+4].hex()), fs)
    if r.out != q.out: raise Violation("%s: output %r, expected %r" % (what, r.out[:300], q.out[:300]), fs)
    e = diff(x, y)
    if e: raise Violation("%s: %s" % (what, e), fs)
    if r.rc != j["exit"]: raise Violation("%s: status %d, the program ended with %d (%s)" % (what, r.rc, j["exit"], j["ended"]), fs)
    return dict(evals=sum(g.stats.values()), keys=[h(prog)], sample="%s -> %s %d" % (what, j["ended"], j["exit"]) if i < 2 else None, add={k + " calls": v for k, v in g.stats.items()} | {"ended " + j["ended"]: 1, "arguments": len(cmd)})

SUPPORTED = {2, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x4c}
def unsupported(ctx, rng, d, i):
    """other services and interrupts end the run with status 1 and a diagnostic; what was done before is kept"""
    files = {b"F0.DAT": rng.randbytes(50)}
    if rng.random() < 0.6:
        ah = rng.choice([x for x in range(256) if x not in SUPPORTED])
        end = b"\xb8" + bytes([rng.randrange(256), ah]) + b"\xcd\x21"
        name = "INT 21 with AH=%02X" % ah
    else:
        n = rng.choice([x for x in range(256) if x not in (0x20, 0x21)])
        end = b"\xb8" + rng.randbytes(2) + b"\xcd" + bytes([n])
        name = "INT %02X" % n
    tail = b"\xb2X\xb4\x02\xcd\x21\xb8\x00\x4c\xcd\x21"
    seed = rng.randrange(1 << 30)
    import random
    prog, g = dosgen.program(random.Random(seed), files, end=end + tail)
    ok, g = dosgen.program(random.Random(seed), files, end=b"\xb8\x00\x4c\xcd\x21" + end[5:] + tail)
    a, b = setup(d, files, prog)
    r = vlib.run([ctx.sim86_san if rng.random() < 0.5 else ctx.sim86, "t.com"], cwd=a, unpriv=True, timeout=30)
    fs = {"t.com": prog, "F0.DAT": files[b"F0.DAT"]}
    if b"AddressSanitizer" in r.err or b"runtime error:" in r.err or r.timeout: raise Violation("%s: %s" % (name, r.brief()), fs)
    with open(os.path.join(b, "t.com"), "wb") as f: f.write(ok)
    q, j = reference(ctx, b, [], files, "/dev/null")
    if r.rc != 1: raise Violation("%s: status %d instead of 1: %s" % (name, r.rc, r.brief()), fs)
    if not r.out.startswith(q.out): raise Violation("%s: output before it is %r, expected %r" % (name, r.out[:200], q.out[:200]), fs)
    if b"t.com: " not in r.out[len(q.out):] + r.err: raise Violation("%s: no diagnostic: %r" % (name, r.out[len(q.out):]), fs)
    x, y = tree(a), tree(b)
    for t in (x, y): t.pop(b"LOG", None)              # the images differ, and so do the logs
    e = diff(x, y)
    if e and not any(k in x and k in y and len(x[k]) == len(y[k]) for k in x): raise Violation("%s: %s" % (name, e), fs)
    return dict(evals=1, keys=[name], add={"unsupported": 1})

def loader(ctx, rng, d, i):
    """images of any size are loaded completely at 100h; files that cannot be loaded are refused"""
    k = i % 6
    if k == 5:
        a, b = setup(d, {}, b"")
        os.unlink(os.path.join(a, "t.com"))
        what = rng.choice(["missing", "directory", "long name"])
        nm = "t.com" if what == "missing" else "dir" if what == "directory" else "n" * rng.choice([60, 100, 250, 300, 1000]) + ".com"
        if what == "directory": os.mkdir(os.path.join(a, "dir"))
        r = vlib.run([ctx.sim86_san] + rng.choice([[], ["-v"], ["-p"]]) + [nm], cwd=a, unpriv=True)
        if b"AddressSanitizer" in r.err or b"runtime error:" in r.err or r.timeout or r.rc != 1 or not (r.out + r.err).strip():
            raise Violation("program file: %s: %s" % (what, r.brief()), {"what.txt": nm})
        return dict(evals=1, keys=[what], add={"not loadable": 1})
    # sums the image in memory, prints the sum in letters, ends
    size = rng.choice([200, 201, 1000, 0x7eff, 0x7f00, 0x7f01, 0x8000, 0xf000, 0xfe00, 0xfefe, rng.randrange(200, 0xfe00)])
    # sum of words: SI from 100h, CX words, wraps
    code = b"\xbe\x00\x01\xb9" + simgen.w16(size) + b"\x31\xdb\x8a\x04\xb4\x00\x01\xc3\xd1\xe3\x83\xd3\x00\x46\x49\x75\xf1"
    code += b"\xbf\x04\x00\xb1\x04\x89\xd8\x83\xe0\x0f\x04A\x88\xc2\xb4\x02\xcd\x21\xd3\xeb\x4f\x75\xee\xb8\x00\x4c\xcd\x21"
    prog = code + rng.randbytes(size - len(code))
    a, b = setup(d, {}, prog)
    nm = "t.com"
    r = vlib.run([ctx.sim86, nm], cwd=a, unpriv=True)
    v = 0
    for x in prog:
        v = (v + x) & 0xffff
        v = (v << 1 | v >> 15) & 0xffff
    want = "".join(chr(65 + (v >> 4 * k & 15)) for k in range(4)).encode()
    q, j = reference(ctx, b, [], {}, "/dev/null")
    if q.out != want: raise CheckError("reference %r, computed %r" % (q.out, want))
    if r.out != want or r.rc: raise Violation("an image of %d bytes is not loaded as it is: %s, expected %r" % (size, r.brief(), want), {"t.com": prog})
    return dict(evals=1, keys=["size %d" % size], add={"images": 1})

def long_tail(ctx, rng, d, i):
    """arguments that do not fit a DOS command tail are refused, never written over the program"""
    n = rng.choice([127, 128, 130, 200, 255, 256, 257, 300, 5000])
    cmd = ["z" * (n - 1)] if rng.random() < 0.5 else ["ab"] * ((n + 2) // 3)
    total = sum(map(len, cmd)) + len(cmd)
    prog = b"\xb2K\xb4\x02\xcd\x21\xc3"
    a, b = setup(d, {}, prog)
    r = vlib.run([ctx.sim86_san, "t.com"] + cmd, cwd=a, unpriv=True)
    if total > 126 and (b"AddressSanitizer" in r.err or r.timeout or r.rc != 1 or r.out == b"K" or not r.out): raise Violation("a command tail of %d characters: %s" % (total, r.brief()), {"t.com": prog, "args.txt": repr(cmd)})
    return dict(evals=1, keys=["tail %d" % total], add={"long tails": 1})

def body(c):
    t = vlib.Tools(c.dir, ["sim86", "sim86:san"])
    c.pool(services, c.n(1500, 60000), t, "services")
    c.pool(unsupported, c.n(300, 6000), t, "unsupported")
    c.pool(loader, c.n(120, 3000), t, "loader")
    c.pool(long_tail, c.n(24, 200), t, "tail")

if __name__ == "__main__":
    vlib.main("M02", "Each evaluation is one DOS service call of a generated program run by sim86 (a third of the programs by its ASan/UBSan build) and by the reference 8086 with an independent DOS model: results and carry of every call, the bytes read, what the program finds at start "
      "(segments, SP, PSP, command tail), standard output, all files and the exit status must agree. Unsupported services, unloadable images and oversized command tails must end with status 1 and a diagnostic. Distinct = generated program.", body,
      assumptions=["error codes in AX, handle numbers, writes of 0 bytes inside a file, AL after AH=02 and files opened with access modes other than read are not judged"])
