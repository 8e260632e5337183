import sys, os, subprocess, filecmp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, simgen
from vlib import Violation, h, R, CheckError
import json

LIMIT = 6 << 20

def trace(ctx, d, exe, prog, what, files, args=(), opts=("-v",), limit=LIMIT, timeout=60):
    """sim86 -v on `prog`, compared with the reference 8086 step by step.
    sim86 runs as an unprivileged user: random programs make random DOS calls."""
    a, b = os.path.join(d, "a"), os.path.join(d, "b")
    for x in (a, b):
        subprocess.run(["rm", "-rf", x]); os.mkdir(x); os.chmod(x, 0o777)
        for n, t in files.items():
            with open(os.path.join(x, n), "wb") as f: f.write(t)
            os.chmod(os.path.join(x, n), 0o666)
    with open(os.path.join(a, "t.com"), "wb") as f: f.write(prog)
    with open(os.path.join(b, "t.com"), "wb") as f: f.write(prog)
    os.chmod(os.path.join(a, "t.com"), 0o644)
    files = dict(files); files["t.com"] = prog
    tr = os.path.join(d, "trace")
    with open(tr, "wb") as f, open(os.path.join(d, "err"), "w+b") as ef:
        p = subprocess.Popen([exe, *opts, "t.com", *args], cwd=a, stdout=subprocess.PIPE, stderr=ef, stdin=subprocess.DEVNULL,
                             user=65534, group=65534, extra_groups=[], env=vlib.ENV, preexec_fn=vlib._limits(timeout))
        n, cut = 0, False
        while True:
            x = p.stdout.read(65536)
            if not x: break
            f.write(x); n += len(x)
            if n > limit: cut = True; p.kill(); break
        p.stdout.close(); p.wait()
        ef.seek(0); err = ef.read(20000)
    r = R(p.returncode, b"", err, False)
    if b"AddressSanitizer" in err or b"runtime error:" in err: raise Violation("%s: memory error or undefined behaviour in sim86: %s" % (what, r.brief()), files)
    rep = os.path.join(d, "rep.json")
    q = vlib.run([ctx.em86, "-u", "-z", "-n", "4000000", "-t", tr, "-r", rep, "t.com", *args], cwd=b, timeout=timeout)
    try:
        with open(rep) as f: j = json.load(f)
    except Exception: raise CheckError("em86 gave no report: " + q.brief())
    with open(tr, "rb") as f:
        f.seek(max(0, n - 2000)); tail = f.read().decode("latin1")
    return r, j, tail, cut, q, files

def judge(r, j, tail, cut, what, files):
    """the outcome of one traced run; returns a word for the statistics"""
    if j["violations"]: raise Violation("%s: %s" % (what, j["violations"][0]), files)
    e = j["ended"]
    if cut or r.rc == -25: return "cut"                   # trace or file size limit
    if e in ("exit", "int20"):
        if r.rc != j["exit"]: raise Violation("%s: sim86 exit status is %d, the program ended with %d" % (what, r.rc, j["exit"]), files)
        return "exit"
    msg = tail.rstrip().split("\n")[-1] + r.err.decode("latin1")
    where = "%s: opcode %02X%s" % (what, j["op"], "/%d" % (j["modrm"] >> 3 & 7) if j["modrm"] >= 0 else "")
    impl = not j["lock"] and simgen.implemented(j["op"], j["modrm"], j["rep"], j["intno"], j["ax"] >> 8)
    if e in ("steps", "unjudged"): return e
    if e in ("trace-end", "badint", "fault"):
        if e == "trace-end" and impl: raise Violation("%s is not executed: %s" % (where, msg[-200:]), files)
        if e == "fault" and j["fault"] == "invalid opcode" and not impl and j["op"] in (0x0f, 0x8c, 0x8d, 0x8e, 0xc6, 0xc7): return "undefined"
        if e == "fault" and j["fault"].startswith("prefix"): return "undefined"
        if r.rc == 0: raise Violation("%s (%s): sim86 ends with status 0" % (where, j["fault"] or e), files)
        if r.rc not in (1, -6): raise Violation("%s (%s): sim86 ended abnormally: %s %s" % (where, j["fault"] or e, r.brief(), msg[-200:]), files)
        if not ("t.com: " in msg or "ssert" in msg): raise Violation("%s (%s): sim86 stops without a diagnostic: %s" % (where, j["fault"] or e, msg[-200:]), files)
        return "stop"
    raise Violation("%s: unexpected end %s" % (what, e), files)

def both(d, what, files):
    x, y = os.path.join(d, "a", "D"), os.path.join(d, "b", "D")
    if os.path.exists(x) != os.path.exists(y): raise Violation("%s: file D is made by only one of sim86 and the reference" % what, files)
    if not os.path.exists(x): return 0
    with open(x, "rb") as f: p = f.read()
    with open(y, "rb") as f: q = f.read()
    if p != q:
        k = next((i for i in range(min(len(p), len(q))) if p[i] != q[i]), min(len(p), len(q)))
        raise Violation("%s: memory differs after the run at linear address %05X (lengths %d, %d): %s / 8086: %s" % (what, k, len(p), len(q), p[k:k+8].hex(), q[k:k+8].hex()), files)
    return len(p)

def random_programs(ctx, rng, d, i):
    k = rng.random()
    names = simgen.NAMES if k < 0.5 else rng.sample(simgen.NAMES, rng.randrange(4, 40)) + ["movw%d" % x for x in (0, 1, 2, 3, 5, 6, 7)]
    prog = simgen.program(rng, rng.choice([20, 60, 120, 200]), names)
    exe = ctx.sim86_san if rng.random() < 0.3 else ctx.sim86
    r, j, tail, cut, q, files = trace(ctx, d, exe, prog, "random program", {})
    w = judge(r, j, tail, cut, "random program", files)
    n = both(d, "random program", files) if w == "exit" else 0
    return dict(evals=1, keys=[h(prog)], add={"instructions compared": j["compared"], "ended " + w: 1, "undefined flags taken over": j["adopted"], "bytes of memory compared": n})

def one_form(ctx, rng, d, i):
    """one instruction form with many operand values"""
    nm = simgen.NAMES[i % len(simgen.NAMES)]
    a = simgen.Asm()
    for r in (0, 1, 2, 3, 5, 6, 7): a.b(bytes([0xb8 | r]) + simgen.w16(simgen.val(rng)))
    for _ in range(70):
        for r in rng.sample([0, 1, 2, 3, 5, 6, 7], 3):
            v = rng.randrange(0x2000, 0xf000) if r in (3, 5, 6, 7) and rng.random() < 0.7 else simgen.val(rng)
            a.b(bytes([0xb8 | r]) + simgen.w16(v))
        a.b(b"\xb8" + simgen.w16(simgen.val(rng)))
        if rng.random() < 0.5: a.b(rng.choice([b"\x04", b"\x2c", b"\x14", b"\x1c", b"\x3c", b"\x24"]) + bytes([simgen.val(rng, 0)]))   # flags
        a.b(simgen.FORMS[nm](rng))
        if rng.random() < 0.1: a.b(movs(rng))
    simgen.dump(a, rng.randrange(256))
    code = a.link()
    prog = code + rng.randbytes(max(0, rng.choice([0, 0xe000]) - len(code)))
    exe = ctx.sim86_san if rng.random() < 0.3 else ctx.sim86
    r, j, tail, cut, q, files = trace(ctx, d, exe, prog, "form " + nm, {})
    w = judge(r, j, tail, cut, "form " + nm, files)
    n = both(d, "form " + nm, files) if w == "exit" else 0
    return dict(evals=1, keys=[nm], add={"instructions compared": j["compared"], "ended " + w: 1, "undefined flags taken over": j["adopted"], "bytes of memory compared": n})
def movs(rng): return simgen.movseg(rng, rng.choice([0, 3, 0, 3, 2]))

def unimplemented(ctx, rng, d, i):
    """any opcode at all: executed as an 8086 does, or the run stops with a diagnostic"""
    a = simgen.Asm()
    for r in (0, 1, 2, 3, 5, 6, 7): a.b(bytes([0xb8 | r]) + simgen.w16(simgen.val(rng)))
    for _ in range(rng.randrange(0, 6)): a.b(simgen.FORMS[rng.choice(simgen.NAMES)](rng))
    op = i % 256
    b = bytes([op]) + rng.randbytes(rng.randrange(0, 3)) + simgen.modrm(rng, rng.randrange(8)) + rng.randbytes(3)
    if rng.random() < 0.15 and op in range(0xa4, 0xb0): b = rng.choice([b"\xf2", b"\xf3"]) + b
    if op == 0x8e and b[1] >> 3 & 7 == 1: b = b"\x90"
    if op in (0x26, 0x2e, 0x36, 0x3e, 0xf2, 0xf3): b = bytes([op]) + simgen.FORMS[rng.choice(["mov8B", "movA0", "alu0/1"])](rng) if op < 0x40 else bytes([op]) + rng.choice([b"\xaa", b"\xab"])
    if op == 0x54: b = b"\x90"
    if op == 0xcd: b = b"\xcd" + bytes([rng.choice([0x20, 0x21, 0x21, 0x10, 0x16, 0x13, 0, 3, 0xff])])
    a.b(b)
    simgen.dump(a, rng.randrange(256))
    prog = a.link()
    r, j, tail, cut, q, files = trace(ctx, d, ctx.sim86_san, prog, "opcode %02X" % op, {})
    w = judge(r, j, tail, cut, "opcode %02X" % op, files)
    return dict(evals=1, keys=["%02X" % op], add={"instructions compared": j["compared"], "ended " + w: 1})

def toolchain(ctx, rng, d, i):
    """real programs: the tools themselves, traced"""
    import progs
    name = ["scc", "scpp", "sas", "swar"][i % 4]
    com = getattr(ctx, name + "_com", None)
    if name == "swar" or not com: name = "scc"; com = ctx.scc_com
    with open(com, "rb") as f: prog = f.read()
    src = ["int x; int main(){ int i; for(i=0;i<%d;++i) x+=i*%d; return x; }\n" % (rng.randrange(50), rng.randrange(9)),
           "#define A %d\n#if A > 3\nint b = A;\n#endif\n" % rng.randrange(9),
           "org 0x100\n mov ax, %d\n l: dec ax\n jnz l\n ret\n db 'hello'\n" % rng.randrange(900)][i % 4 if name != "scc" else 0]
    r, j, tail, cut, q, files = trace(ctx, d, ctx.sim86, prog, "tracing " + name + ".com", {"t.c": src.encode(), }, args=("t.c", "t.out"), limit=60 << 20, timeout=120)
    w = judge(r, j, tail, cut, "tracing " + name + ".com", files)
    return dict(evals=1, keys=[name], add={"instructions compared": j["compared"], "ended " + w: 1})

def body(c):
    t = vlib.Tools(c.dir, ["sim86", "sim86:san", "scc", "scpp", "sas", "scc.com", "scpp.com", "sas.com"])
    c.pool(one_form, c.n(2 * len(simgen.NAMES), 60 * len(simgen.NAMES)), t, "form")
    c.pool(unimplemented, c.n(512, 16384), t, "opcodes")
    c.pool(random_programs, c.n(500, 20000), t, "random")
    c.pool(toolchain, c.n(4, 40), t, "tools")

if __name__ == "__main__":
    vlib.main("M01", "sim86 -v compared with a reference 8086 after every instruction", body,
              assumptions=["the reference 8086 in em86/core.h", "flags the 8086 leaves undefined, PUSH SP and shift counts above 31 are not judged"])
