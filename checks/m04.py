import sys, os, re, shutil, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, simgen, dosgen, progs, m02, ppgen, s02
from cprog import compile_scc
from vlib import Violation, h, em86, run

def fresh(d, files):
    shutil.rmtree(d, ignore_errors=True); os.mkdir(d); os.chmod(d, 0o777)
    for n, t in files.items():
        f = os.path.join(d, n)
        with open(f, "wb") as o: o.write(t)
        os.chmod(f, 0o666)

def tree(p, skip):
    r = {}
    for n in os.listdir(p):
        if n in skip or n.startswith("em86."): continue
        with open(os.path.join(p, n), "rb") as f: r[n] = f.read()
    return r

def host(ctx, d, files, argv, timeout=20):
    w = os.path.join(d, "host"); fresh(w, files)
    r = run([ctx.sim86] + argv, cwd=w, unpriv=True, timeout=timeout)
    if r.timeout: return None
    return r, tree(w, files)

def dos(ctx, d, files, argv, what, steps=400000000, seed=1, zero=True, timeout=100):
    w = os.path.join(d, "dos"); fresh(w, files)
    r, j = em86(ctx, ctx.sim86_com, w, argv, map=ctx.sim86_map, steps=steps, seed=seed, zero=zero, timeout=timeout)
    if j["ended"] == "steps" or r.timeout: return None
    if j["violations"]: raise Violation("%s: monitor on sim86.com: %s" % (what, j["violations"][:3]), files)
    if j["ended"] != "exit": raise Violation("%s: sim86.com ended with %s" % (what, j["ended"]), files)
    return r, j, tree(w, files)

def same(a, b, what, fs, msg="output"):
    if a != b:
        k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        raise Violation("%s: %s of sim86.com differs at %d (%d and %d bytes): %r, host %r" % (what, msg, k, len(b), len(a), b[max(0, k - 60):k + 40], a[max(0, k - 60):k + 40]), fs)

def compare(ctx, d, files, argv, what, diag=False, seed=1, zero=True, steps=400000000):
    x = host(ctx, d, files, argv)
    if x is None: return None
    r, t = x
    q = dos(ctx, d, files, argv, what, steps, seed, zero)
    if q is None: return None
    q, j, u = q
    fs = dict(files, **{"args.txt": repr(argv)})
    same(r.out, q.out, what, fs)
    if r.rc != j["exit"]: raise Violation("%s: status %d from sim86.com, %d from host" % (what, j["exit"], r.rc), fs)
    x, y = ({os.fsencode(n): v for n, v in z.items()} for z in (u, t))
    e = m02.diff(x, y)
    if e: raise Violation("%s: files of sim86.com: %s (host)" % (what, e), fs)
    return r, j

# ---------------------------------------------------------------- programs
def services(ctx, rng, d, i):
    files = {"F%d.DAT" % k: rng.randbytes(rng.choice([0, 1, 100, 512, 5000])) for k in range(rng.randrange(0, 4))}
    prog, g = dosgen.program(rng, {n.encode(): v for n, v in files.items()}, start=False, ops=rng.randrange(3, 25))
    files["t.com"] = prog
    what = "program with " + ", ".join("%d %s" % (v, k) for k, v in sorted(g.stats.items()))
    x = compare(ctx, d, files, ["t.com"], what, zero=True)
    return dict(evals=1, keys=[h(prog)], add={"DOS call programs": 1, "inner calls": sum(g.stats.values()), "instructions of sim86.com": x[1]["steps"]} if x else {"too long": 1})

SAFE = [n for n in simgen.NAMES if not re.match(r"mov(ES|DS|SS|8E|8C)|pushs|pops", n)]
SEGTEXT = re.compile(rb"(?m)^[0-9A-F]{4} (INT|(MOV|POP) [ECSD]S|PUSH [ECSD]S|MOV [^\n]*, [ECSD]S$)")

def end(a, code):
    """the whole segment to file D, exit"""
    a.b(b"\xbc\xf0\xff\xc7\x06\x02\x00\x00\x00\xc7\x06\x90\x00D\x00\xb4\x3c\xba\x90\x00\x31\xc9\xcd\x21\x89\xc3")
    for o in (0, 0x80): a.b(b"\xb4\x40\xb9\x00\x80\xba\x00" + bytes([o]) + b"\xcd\x21")
    a.b(b"\xb8" + bytes([code, 0x4c]) + b"\xcd\x21")

EPILOGUE = [b"INT 0x21", b"MOV BX, AX", b"MOV AH, 0x40", b"MOV CX, 0x8000", b"MOV DX, 0x0000", b"INT 0x21", b"MOV AH, 0x40", b"MOV CX, 0x8000", b"MOV DX, 0x8000", b"INT 0x21"]

def random_programs(ctx, rng, d, i):
    names = SAFE if rng.random() < 0.5 else rng.sample(SAFE, rng.randrange(4, 40)) + ["movw%d" % x for x in (0, 1, 2, 3, 5, 6, 7)]
    old = simgen.dump
    simgen.dump = end
    try: prog = simgen.program(rng, rng.choice([10, 30, 60]), names, b"\xc7\x06\x02\x00\x00\x00")
    finally: simgen.dump = old
    files = {"t.com": prog}
    # judged up to the first instruction that sees or changes a segment register, and up to a length
    q = run([ctx.em86, "-u", "-z", "-n", "3000", "-r", "../rep.json", "t.com"], cwd=fresh(os.path.join(d, "pre"), files) or os.path.join(d, "pre"))
    import json
    with open(os.path.join(d, "rep.json")) as f: rep = json.load(f)
    if rep["ended"] == "steps" or rep["op"] == 0x0f: return dict(evals=0, keys=[], add={"too long": 1})
    x = host(ctx, d, files, ["-v", "t.com"])
    if x is None: return dict(evals=0, keys=[], add={"too long": 1})
    r, t = x
    if len(r.out) > 600000: return dict(evals=0, keys=[], add={"too long": 1})
    k = 0
    for m in re.finditer(rb"(?m)^DS=([0-9A-F]+) ES=([0-9A-F]+) SS=([0-9A-F]+) CS=([0-9A-F]+)", r.out):
        if m.groups() != (b"2000",) * 4: return dict(evals=0, keys=[], add={"changes segments": 1})
    m = SEGTEXT.search(r.out)
    cut = m.start() if m else len(r.out)
    if m and m.group(1) != b"INT": return dict(evals=0, keys=[], add={"changes segments": 1})
    x = dos(ctx, d, files, ["-v", "t.com"], "random program", steps=1500000000, timeout=200)
    if x is None: return dict(evals=0, keys=[], add={"too long": 1})
    q, j, u = x
    norm = lambda b: re.sub(rb"(?m)^(open|close)\(.*$", b"", b)         # handle numbers
    a = norm(r.out[:cut])
    b = norm(q.out.replace(b"\r\n", b"\n").replace(b"S=3000 ", b"S=2000 "))
    same(a, b[:len(a)], "random program", files, "trace")
    if m:
        tail = re.findall(rb"(?m)^[0-9A-F]{4} ([A-Z].*)$", r.out[cut:])
        if tail[:-1] != EPILOGUE or not re.match(rb"INT 0x21|MOV AX, 0x4C", tail[-1]):
            return dict(evals=1, keys=[h(prog)], add={"another ending": 1, "bytes of trace": cut, "instructions traced": a.count(b"\nDS=")})
    # without the trace: memory at the end, status
    what = "random program"
    res = "ended " + rep["ended"]
    if rep["ended"] in ("exit", "int20") and r.rc == rep["exit"]:
        r2, t2 = host(ctx, d, files, ["t.com"])
        x = dos(ctx, d, files, ["t.com"], what)
        if x:
            q, j, u = x
            if m and "D" not in t2: return dict(evals=1, keys=[h(prog)], add={"another ending": 1, "bytes of trace": cut})
            if r2.rc != j["exit"]: raise Violation("%s: status %d from sim86.com, %d from host" % (what, j["exit"], r2.rc), files)
            same(r2.out, q.out, what, files)
            if sorted(u) != sorted(t2): raise Violation("%s: files %s, host %s" % (what, sorted(u), sorted(t2)), files)
            for n in u:
                p, o = u[n], bytearray(t2[n])
                if len(p) >= 4 and n == "D": p = p[:2] + b"\0\0" + p[4:]; o[2:4] = b"\0\0"
                same(bytes(o), p, what, files, "file " + n)
    elif not m:
        r2, t2 = host(ctx, d, files, ["t.com"])
        x = dos(ctx, d, files, ["t.com"], what)
        if x:
            q, j, u = x
            if bool(r2.rc) != bool(j["exit"]): raise Violation("%s: status %d from sim86.com, %d from host" % (what, j["exit"], r2.rc), files)
            if r2.rc == 1: same(r2.out, q.out.replace(b"\r\n", b"\n").replace(b"S=3000 ", b"S=2000 "), what, files, "diagnostic")
    return dict(evals=1, keys=[h(prog)], add={res: 1, "bytes of trace": cut, "instructions traced": a.count(b"\nDS="), "instructions of sim86.com": j["steps"]})

def far(ctx, rng, d, i):
    """string instructions with any count and direct accesses in segments above the program (relative to CS); registers after each
    step and the whole segments go to a file"""
    w16 = simgen.w16
    a = simgen.Asm()
    log, n, stats = 0x2000, 0, {}
    def keep():
        nonlocal log
        for r in (0, 1, 2, 3, 6, 7): a.b(b"\x2e\x89" + bytes([6 | r << 3]) + w16(log)); log += 2
        for cc in (0x72, 0x74, 0x78, 0x7c):          # the flags
            l = a.new(); a.j8(cc, l); a.b(b"\x2e\xc6\x06" + w16(log) + b"\x2e"); a.l(l); log += 1
    a.b(b"\xc7\x06\x02\x00\x00\x00\xbc" + w16(0x3ffe))
    ks = [rng.randrange(0x1000, 0x2800), rng.randrange(0x1000, 0x2800)]
    big = 0
    for _ in range(rng.randrange(3, 10)):
        for sr in (0, 3):
            if rng.random() < 0.5 or not n: a.b(b"\x8c\xc8\x05" + w16(rng.choice(ks)) + bytes([0x8e, 0xc0 | sr << 3]))
        n += 1
        c = rng.choice([0, 1, 2, 5, 100, 255, 256, 300] + [0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, rng.randrange(65536)] * (big < 3))
        big += c > 300
        a.b(b"\xb9" + w16(c) + b"\xbf" + w16(simgen.val(rng)) + b"\xbe" + w16(simgen.val(rng)) + b"\xb8" + w16(simgen.val(rng)))
        if rng.random() < 0.2: a.b(b"\x89\xfe")
        y = rng.choice(["movsb", "movsw", "stosb", "stosw", "cmpsb", "scasb", "lods", "direct"])
        stats[y] = stats.get(y, 0) + 1
        sg = simgen.seg(rng, 0.3).replace(b"\x36", b"\x2e")
        if y in ("movsb", "movsw"): a.b(sg + b"\xf3" + (b"\xa4" if y == "movsb" else b"\xa5"))
        elif y in ("stosb", "stosw"): a.b((b"" if rng.random() < 0.2 else b"\xf3") + (b"\xaa" if y == "stosb" else b"\xab"))
        elif y == "cmpsb": a.b(sg + b"\xf3\xa6")
        elif y == "scasb": a.b(b"\xf2\xae")
        elif y == "lods": a.b(sg + bytes([rng.choice([0xac, 0xad])]))
        else:
            a.b(b"\x26\xa3" + w16(simgen.val(rng)))
            a.b(rng.choice([b"\x26", b"\x3e", b""]) + rng.choice([b"\xa2", b"\xa3"]) + w16(simgen.val(rng)))
            a.b(rng.choice([b"\x26", b"\x3e", b"\x2e", b""]) + rng.choice([b"\xa0", b"\xa1"]) + w16(simgen.val(rng)))
            a.b(rng.choice([b"\x26", b"\x3e"]) + bytes([rng.choice([0x00, 0x01, 0x03, 0x11, 0x29, 0x31, 0x39, 0x88, 0x89, 0x8b])]) + simgen.modrm(rng, rng.choice([0, 1, 2, 6, 7]), True))
        keep()
    a.b(b"\x0e\x1f\xb4\x3c\xba\x90\x00\xc7\x06\x90\x00D\x00\x31\xc9\xcd\x21\x89\xc3")
    a.b(b"\xb4\x40\xb9" + w16(log - 0x2000) + b"\xba\x00\x20\xcd\x21")
    for k in ks:
        a.b(b"\x8c\xc8\x05" + w16(k) + b"\x8e\xd8")
        for o in (0, 0x80): a.b(b"\xb4\x40\xb9\x00\x80\xba\x00" + bytes([o]) + b"\xcd\x21")
    a.b(b"\xb8" + bytes([rng.randrange(256)]) + b"\x4c\xcd\x21")
    prog = a.link()
    x = compare(ctx, d, {"t.com": prog}, ["t.com"], "far program with " + ", ".join("%d %s" % (v, k) for k, v in sorted(stats.items())), zero=True, steps=3000000000)
    return dict(evals=1, keys=[h(prog)], add={"far programs": 1, "far steps": n, "large counts": big, "instructions of sim86.com": x[1]["steps"]} if x else {"too long": 1})

def compiled(ctx, rng, d, i):
    src, exp = progs.program(rng)
    compile_scc(ctx, d, src)
    with open(os.path.join(d, "p.com"), "rb") as f: prog = f.read()
    x = compare(ctx, d, {"t.com": prog}, ["t.com"], "compiled program", zero=exp is None, seed=rng.randrange(1, 99), steps=500000000)
    return dict(evals=1, keys=[h(prog)], add={"compiled programs": 1, "instructions of sim86.com": x[1]["steps"]} if x else {"too long": 1})

def toolchain(ctx, rng, d, i):
    """the tools themselves inside sim86.com, and sim86.com inside sim86.com"""
    name = ["scc", "scpp", "sas", "nested", "args"][i % 5]
    files = {}
    if name == "args":
        # prints its command tail
        files["t.com"] = b"\xbe\x80\x00\xac\x88\xc1\xb5\x00\x88\xc2\x80\xc2A\xb4\x02\xcd\x21\x83\xf9\x00\x74\x0a\xac\x88\xc2\xb4\x02\xcd\x21\x49\x75\xf6\xac\x88\xc2\xb4\x02\xcd\x21\xc3"
        argv = ["t.com"]
        while True:
            w = "".join(rng.choice("abcXYZ019./-+*?=:") for _ in range(rng.choice([1, 2, 3, 8, 12, 30])))
            if sum(map(len, argv)) + len(argv) + len(w) + 1 > 120 or rng.random() < 0.1: break
            argv.append(w)
    elif name == "nested":
        files["t.com"] = b"\xb9" + simgen.w16(rng.randrange(1, 6)) + b"\x88\xca\x80\xc2A\xb4\x02\xcd\x21\x49\x75\xf4\xb8" + bytes([rng.randrange(256)]) + b"\x4c\xcd\x21"
        with open(ctx.sim86_com, "rb") as f: files["s.com"] = f.read()
        argv = ["s.com", "t.com"]
    else:
        with open(getattr(ctx, name + "_com"), "rb") as f: files["x.com"] = f.read()
        if name == "scc": files["in"] = progs.program(rng, "e")[0].encode("latin1")[:200] if rng.random() < 0.2 else ("int a%d[7]; int f(char* p, int n) { while (n--) *p++ = n * %d; return n; }\nint main() { return f(a%d, %d) ? 1 : %d; }\n" % (i, rng.randrange(99), i, rng.randrange(8), rng.randrange(9))).encode()
        elif name == "scpp": files["in"] = ppgen.text_of(ppgen.program(rng))[0].encode("latin1")[:400]
        else: files["in"] = s02.Prog(rng, 3, 5).text().encode("latin1")
        argv = ["x.com", "in", "out"]
    x = compare(ctx, d, files, argv, "%s in sim86.com" % name, steps=1500000000)
    return dict(evals=1, keys=[name], add={name + " in sim86.com": 1, "instructions of sim86.com": x[1]["steps"]} if x else {"too long " + name: 1})

def failing(ctx, rng, d, i):
    """programs sim86 cannot run: the same diagnostic, status 1"""
    bad = [b"\x60", b"\xf4", b"\xcd\x10", b"\xf7\xf1", b"\xb4\x99\xcd\x21", b"\x7a\x00", b"\xd1\xc0", b"\xff\x20", b"\xf6\xd8", b"\xc8", b"\xcd\x16", b"\xf7\xc0\x01\x00", b"\x8c\xe8"][i % 13]
    prog = b"\xb2" + bytes([65 + rng.randrange(26)]) + b"\xb4\x02\xcd\x21\x31\xc9\xb8" + rng.randbytes(2) + bad
    files = {"t.com": prog}
    k = rng.random()
    argv = ["t.com"] if k < 0.7 else ["none.com"] if k < 0.8 else [] if k < 0.9 else ["-v"]
    r, t = host(ctx, d, files, argv)
    q, j, u = dos(ctx, d, files, argv, "failing program")
    if (r.rc, j["exit"]) != (1, 1): raise Violation("%s: status %d, host %d" % (argv, j["exit"], r.rc), files)
    b = q.out.replace(b"\r\n", b"\n").replace(b"S=3000 ", b"S=2000 ")
    a = r.out.replace(b"[-p] ", b"")
    same(a, b, "%s ending in %s" % (argv, bad.hex()), files, "diagnostic")
    return dict(evals=1, keys=[bad.hex()], add={"failing programs": 1})

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scpp", "sim86", "sim86.com", "scc.com", "scpp.com", "sas.com"])
    c.pool(failing, c.n(26, 130), t, "failing")
    c.pool(services, c.n(300, 6000), t, "services")
    c.pool(random_programs, c.n(300, 6000), t, "random")
    c.pool(far, c.n(80, 2000), t, "far")
    c.pool(compiled, c.n(48, 2000), t, "compiled")
    c.pool(toolchain, c.n(15, 300), t, "tools")

if __name__ == "__main__":
    vlib.main("M04", "Each evaluation is one program run by the host build of sim86 and by sim86.com on the reference 8086 under all execution monitors (stack, calls, undefined flags, code bytes): output, files and status must agree, and for random programs also the -v trace of every instruction "
      "(up to the first one that sees a segment register). The programs are random 8086 code, DOS-call programs, compiled C, the tools themselves, sim86.com itself, and programs sim86 cannot run. Distinct = program.", body,
      assumptions=["segment numbers differ between the builds and are mapped", "host: no newline translation", "the reference 8086 in em86/core.h"])
