import sys, os, subprocess, re, shutil, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, simgen, dosgen, progs, m02
from cprog import compile_scc
from vlib import Violation, h, R, CheckError

LIMIT = 24 << 20

# ---------------------------------------------------------------- text of instructions
NUM = re.compile(r"^[+-]?(0x[0-9a-f]+|\d+)$")
ALIAS = {"jb": "jc", "jae": "jnc", "je": "jz", "jne": "jnz", "jbe": "jna", "jnbe": "ja", "jl": "jl", "jge": "jnl", "jle": "jng", "jnle": "jg", "jpe": "jp", "jpo": "jnp",
         "rep stosb": "rep stosb", "repne stosb": "rep stosb", "repne stosw": "rep stosw", "repe stosb": "rep stosb", "sal": "shl"}
STR = {"movsb", "movsw", "cmpsb", "scasb", "stosb", "stosw", "lodsb", "lodsw"}

def num(t): return int(t, 0) if not t.startswith("+") else int(t[1:], 0)

def operand(t, bits):
    t = t.strip()
    for w in ("word ", "byte ", "short ", "near "):
        if t.startswith(w): t = t[len(w):].strip()
    if NUM.match(t): return ("i", num(t) & ((1 << bits) - 1))
    if t.startswith("["):
        t = t[1:-1]
        s = ""
        if ":" in t: s, t = t.split(":")
        regs, disp = [], 0
        for x in re.findall(r"[+-]?[0-9a-zA-Z]+", t):
            if x.lstrip("+") in ("bx", "bp", "si", "di"): regs.append(x.lstrip("+"))
            else: disp += num(x)
        return ("m", s, tuple(sorted(regs)), disp & 0xffff)
    return ("r", t)

def canon(text, bits):
    text = text.strip().lower()
    seg = None
    w = text.split(None, 1)
    while w[0] in ("es", "cs", "ss", "ds") and len(w) > 1: w = w[1].split(None, 1)
    mn, rest = w[0], w[1] if len(w) > 1 else ""
    if mn in ("rep", "repe", "repne"):
        mn += " " + rest; rest = ""
    mn = ALIAS.get(mn, mn)
    return (mn,) + tuple(operand(x, bits) for x in rest.split(",")) if rest else (mn,)

def bits_of(b):
    k = 0
    while b[k] in (0x26, 0x2e, 0x36, 0x3e, 0xf2, 0xf3): k += 1
    op = b[k]
    return 8 if (op < 0x40 and op & 7 == 4) or op in (0x80, 0x82, 0xc6, 0xcd) or 0xb0 <= op < 0xb8 else 16

def disassemble(d, insts):
    """insts: list of (ip, bytes). Canonical form by ndisasm, or None"""
    blob = bytearray()
    at = []
    for ip, b in insts:
        k = 0
        while b[k] in (0x26, 0x2e, 0x36, 0x3e, 0xf2, 0xf3): k += 1
        if b[k] == 0x82: b = b[:k] + b"\x80" + b[k + 1:]
        at.append(len(blob)); blob += b + b"\x90" * 4
    with open(os.path.join(d, "blob"), "wb") as f: f.write(blob)
    out = vlib.run(["ndisasm", "-b16", "blob"], cwd=d, timeout=60).out.decode()
    tx = {}
    for l in out.split("\n"):
        m = re.match(r"^([0-9A-F]{8})  ([0-9A-F]+)\s+(.*)$", l)
        if m: tx[int(m.group(1), 16)] = (len(m.group(2)) // 2, m.group(3))
    res = []
    for (ip, b), o in zip(insts, at):
        t = tx.get(o)
        if not t or t[0] != len(b) or t[1].startswith("db "): res.append(None); continue
        bt = bits_of(b)
        c = canon(t[1], bt)
        if c[0].startswith("j") or c[0] == "call":
            if c[1][0] == "i": c = (c[0], ("i", (c[1][1] - o + ip) & 0xffff))
        res.append(c)
    return res

# ---------------------------------------------------------------- one program under all options
def fresh(d, files, prog, map_):
    shutil.rmtree(d, ignore_errors=True); os.mkdir(d); os.chmod(d, 0o777)
    for n, t in list(files.items()) + [(b"t.com", prog)] + ([(b"t.map", map_)] if map_ is not None else []):
        f = os.path.join(os.fsencode(d), n)
        with open(f, "wb") as o: o.write(t)
        os.chmod(f, 0o666)

def tree(p):
    r = {}
    for n in os.listdir(os.fsencode(p)):
        if n in (b"t.com", b"t.map"): continue
        with open(os.path.join(os.fsencode(p), n), "rb") as f: r[n] = f.read()
    return r

def report(out, what, fs):
    """the parts of a -p report"""
    lines = out.decode("latin1").split("\n")
    def fail(m): raise Violation("%s: -p: %s" % (what, m), fs)
    try:
        k = lines.index("Filesize;Total cylces;Stack low;_EBSS")
        head = [int(x) for x in lines[k + 1].split(";")]
        k = lines.index("Count;Address;Name;Instruction", k)
        inst = {}
        k += 1
        while lines[k] != "":
            c, a, n, t = lines[k].split(";", 3)
            m = re.match(r"^(.*)\+0x([0-9A-F]+)$", n)
            a = int(a, 16)
            if a in inst: fail("address %04X listed twice" % a)
            inst[a] = (int(c), m.group(1), int(m.group(2), 16), t)
            k += 1
        k = lines.index("Count;Function", k) + 1
        fun = []
        while lines[k] != "":
            c, n = lines[k].split(";", 1); fun.append((int(c), n)); k += 1
        k = lines.index("BP;Return address;Size;Symbol", k) + 1
        fr = []
        while lines[k] != "":
            b, a, z, n = lines[k].split(";", 3)
            m = re.match(r"^(.*)\+0x([0-9A-F]+)$", n)
            fr.append((int(b.replace(" ", ""), 16), int(a, 16), int(z), m.group(1), int(m.group(2), 16))); k += 1
        return head, inst, fun, fr
    except (ValueError, IndexError, AttributeError) as e:
        fail("malformed report near line %r" % (lines[k] if k < len(lines) else "end"))

def options(ctx, d, prog, files, map_, what, cmd=(), stdin="/dev/null", san=False):
    exe = ctx.sim86_san if san else ctx.sim86
    fs = {"t.com": prog, "args.txt": repr(cmd)}
    if map_ is not None: fs["t.map"] = map_
    if stdin != "/dev/null": fs["stdin"] = open(stdin, "rb").read()
    for n, t in files.items(): fs[n.decode("latin1")] = t
    runs = {}
    w = os.path.join(d, "w")
    fresh(w, files, prog, map_)
    q = vlib.run([ctx.em86, "-u", "-z", "-n", str(ctx.steps), "-r", "../rep.json", "t.com", *cmd], cwd=w, stdin=stdin, timeout=60)
    with open(os.path.join(d, "rep.json")) as f:
        if json.load(f)["ended"] == "steps": return "too long", {}
    for o in ((), ("-v",), ("-p",), ("-v", "-p")):
        fresh(w, files, prog, map_)
        with open(os.path.join(d, "out"), "wb") as of, open(os.path.join(d, "err"), "wb") as ef, open(stdin, "rb") as inf:
            try: p = subprocess.run([exe, *o, "t.com", *cmd], cwd=w, stdin=inf, stdout=of, stderr=ef, user=65534, group=65534, extra_groups=[], env=vlib.ENV, preexec_fn=vlib._limits(60, 256 << 20), timeout=60)
            except subprocess.TimeoutExpired: return "cut", {}
        out, err = [open(os.path.join(d, x), "rb").read() for x in ("out", "err")]
        if b"AddressSanitizer" in err or b"runtime error:" in err: raise Violation("%s: sim86 %s: memory error: %s" % (what, " ".join(o), err[:600].decode("latin1")), fs)
        if p.returncode == -25 or len(out) > 200 << 20: return "cut", {}
        runs[o] = (p.returncode, out, err, tree(w))
    plain = runs[()]
    for o, r in runs.items():
        nm = "sim86 " + " ".join(o)
        if r[0] != plain[0]: raise Violation("%s: status %d with %s, %d without options: %s" % (what, r[0], nm, plain[0], r[1][-300:].decode("latin1") + r[2][-300:].decode("latin1")), fs)
        if r[2] != plain[2]: raise Violation("%s: standard error %r with %s, %r without options" % (what, r[2][:200], nm, plain[2][:200]), fs)
        e = m02.diff(r[3], plain[3])
        if e: raise Violation("%s: with %s: %s without options" % (what, nm, e), fs)
    # ---- the trace against the reference 8086
    tr = os.path.join(d, "trace")
    with open(tr, "wb") as f: f.write(runs[("-v",)][1])
    if runs[("-v", "-p")][1][:len(runs[("-v",)][1])] != runs[("-v",)][1]: raise Violation("%s: the trace is another one with -p" % what, fs)
    fresh(w, files, prog, None)
    with open(stdin, "rb") as inf:
        q = subprocess.run([ctx.em86, "-u", "-z", "-n", "8000000", "-t", tr, "-i", "../inst", "-p", "../prof", "-r", "../rep.json", "t.com", *cmd], cwd=w, stdin=inf, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
    with open(os.path.join(d, "rep.json")) as f: j = json.load(f)
    if j["violations"]: raise Violation("%s: -v: %s" % (what, j["violations"][0]), fs)
    st = {"instructions compared": j["compared"]}
    if j["ended"] not in ("exit", "int20"):
        if j["ended"] == "trace-end" and plain[0] == 0: raise Violation("%s: -v: the trace ends before the program does" % what, fs)
        return j["ended"], st
    if plain[0] != j["exit"]: raise Violation("%s: status %d, the program ended with %d" % (what, plain[0], j["exit"]), fs)
    if plain[1] != q.stdout: raise Violation("%s: output %r, expected %r" % (what, plain[1][:200], q.stdout[:200]), fs)
    end = b"\nExiting with error code %d\n" % j["exit"] if j["exit"] else b"\nNormal exit\n"
    if not runs[("-v",)][1].endswith(end): raise Violation("%s: -v: the trace does not end with %r" % (what, end), fs)
    # ---- the text of the instructions
    seen, first, order = {}, {}, []
    with open(os.path.join(d, "inst")) as f:
        for l in f:
            ip, b, t = l.rstrip("\n").split(" ", 2)
            if ip not in first: first[ip] = (b, t)
            k = (ip, b)
            if k not in seen: seen[k] = t; order.append(k)
            elif seen[k] != t: raise Violation("%s: -v: bytes %s at %s are shown as %r and as %r" % (what, b, ip, seen[k], t), fs)
    st["texts compared"] = 0
    for (ip, b), c in zip(order, disassemble(d, [(int(ip, 16), bytes.fromhex(b)) for ip, b in order])):
        t = seen[(ip, b)]
        if c is None: st["texts not judged"] = st.get("texts not judged", 0) + 1; continue
        if canon(t, bits_of(bytes.fromhex(b))) != c: raise Violation("%s: -v shows %r for the bytes %s at %s (%s)" % (what, t, b, ip, " ".join(map(str, c))), fs)
        st["texts compared"] += 1
    # ---- the profile
    out = runs[("-p",)][1]
    if not out.startswith(plain[1]): raise Violation("%s: output with -p is %r..., %r without" % (what, out[:200], plain[1][:200]), fs)
    head, inst, fun, fr = report(out[len(plain[1]):], what, fs)
    if report(runs[("-v", "-p")][1][len(runs[("-v",)][1]):], what, fs) != (head, inst, fun, fr): raise Violation("%s: the report of -v -p differs from that of -p" % what, fs)
    syms = []
    if map_ is not None:
        for l in map_.decode().split("\n"):
            l = l.rstrip("\r")
            if l: a, n = l.split(" ", 1); syms.append((int(a, 16), n))
    def fail(m): raise Violation("%s: -p: %s" % (what, m), fs)
    prof, frames = {}, []
    with open(os.path.join(d, "prof")) as f:
        for l in f:
            v = l.split()
            if v[0] == "F": frames.append((int(v[1]), int(v[2])))
            else: prof[int(v[0])] = (int(v[1]), int(v[2]), int(v[3]))
    if head[0] != len(prog): fail("file size %d, is %d" % (head[0], len(prog)))
    if head[1] != sum(v[0] for v in inst.values()): fail("total %d is not the sum %d" % (head[1], sum(v[0] for v in inst.values())))
    if head[2] != min(j["min_sp"], 0xffff): fail("lowest stack pointer %04X, was %04X" % (head[2], j["min_sp"]))
    if head[3] != (syms[-1][0] if syms else 0): fail("_EBSS %04X, the map has %04X" % (head[3], syms[-1][0] if syms else 0))
    def owner(a):
        m = max([x for x, n in syms if x <= a], default=None)
        return (0, ["@@start"]) if m is None else (m, [n for x, n in syms if x == m])
    tot, last = {}, None
    for a, (n, acc, isint) in prof.items():
        if isint & 1:
            if a in inst and inst[a][0] < 2 * (n - 1): fail("INT at %04X: %d accesses in %d executions" % (a, inst[a][0], n))
            if a not in inst and n > 1: fail("INT at %04X executed %d times is not listed" % (a, n))
            continue
        if a not in inst: fail("%04X was executed %d times and is not listed" % (a, n))
        if inst[a][0] != acc and not (isint & 2 and inst[a][0] < acc): fail("%d accesses at %04X (%s), were %d in %d executions" % (inst[a][0], a, inst[a][3], acc, n))
    for a, (c, n, off, t) in inst.items():
        if a not in prof: fail("%04X is listed and was not executed" % a)
        o = owner(a)
        if n not in o[1] or off != a - o[0]: fail("%04X is attributed to %s+%X, the map says %s" % (a, n, off, o[1]))
        tot[o[0]] = tot.get(o[0], 0) + c
        ip = "%04X" % a
        if ip in first and not (t == first[ip][1] or prof[a][2] != 1 and t in [x for (i, b), x in seen.items() if i == ip]): fail("%04X is listed as %r, executed was %r" % (a, t, first[ip][1]))
    ft = {}
    for c, n in fun:
        k = [x for x, m in syms if m == n] if n != "@@start" else [0]
        if not k: fail("function %s is not in the map" % n)
        ft[k[0]] = ft.get(k[0], 0) + c
    if ft != tot: fail("the counts of functions %s are not those of their addresses %s" % (ft, tot))
    if [(b, a) for b, a, z, n, o in fr] != frames: fail("frames at the deepest stack %s, were %s" % (fr[:6], frames[:6]))
    for k, (b, a, z, n, o) in enumerate(fr):
        nb = fr[k + 1][0] if k + 1 < len(fr) else 65536
        w_ = owner(a)
        if z != nb - b: fail("frame at %04X has size %d, is %d" % (b, z, nb - b))
        if n not in w_[1] or o != a - w_[0]: fail("frame returning to %04X is attributed to %s+%X, the map says %s" % (a, n, o, w_[1]))
    st.update({"addresses profiled": len(inst), "functions profiled": len(fun), "frames": len(fr)})
    return "exit", st

def case(ctx, rng, d, i):
    k = i % 4
    files, map_, cmd, stdin = {}, None, (), "/dev/null"
    if k == 0:
        names = simgen.NAMES if rng.random() < 0.5 else rng.sample(simgen.NAMES, rng.randrange(4, 40)) + ["movw%d" % x for x in (0, 1, 2, 3, 5, 6, 7)]
        prog = simgen.program(rng, rng.choice([20, 60, 120, 200]), names)
        what = "random program"
        if rng.random() < 0.5:
            a = sorted(rng.randrange(0x100, 0x180 + rng.choice([100, 1000, 60000])) for _ in range(rng.choice([1, 3, 50, 500, 3300])))
            if rng.random() < 0.3: a = sorted(a + rng.sample(a, max(1, len(a) // 5)))
            map_ = "".join("%04X %s\n" % (x, rng.choice(["f%d", "_x%d", "LongName%d" + "y" * rng.randrange(0, 50)]) % n) for n, x in enumerate(a)).encode()
    elif k == 1:
        files = {b"F%d.DAT" % n: rng.randbytes(rng.choice([0, 1, 100, 5000])) for n in range(rng.randrange(0, 4))}
        st = rng.random() < 0.4
        prog, g = dosgen.program(rng, files, stdin=st)
        cmd = m02.args(rng)
        stdin = os.path.join(d, "stdin")
        with open(stdin, "wb") as f: f.write(rng.randbytes(rng.choice([0, 10, 3000])))
        what = "program with DOS calls"
        if rng.random() < 0.3: map_ = b"0100 start\n0130 middle\n0130 same\nFFF0 end\n"
    else:
        src, exp = progs.program(rng)
        compile_scc(ctx, d, src)
        with open(os.path.join(d, "p.com"), "rb") as f: prog = f.read()
        with open(os.path.join(d, "p.map"), "rb") as f: map_ = f.read()
        what = "compiled program"
    e, st = options(ctx, d, prog, files, map_, what, cmd, stdin, san=rng.random() < 0.2)
    st["ended " + e] = 1
    return dict(evals=1, keys=[h(prog)], add=st, sample="%s: ended %s, %s" % (what, e, st) if i < 4 else None)

def usage(ctx, rng, d, i):
    """errors of the command line, and programs that fail, are the same with the options"""
    w = os.path.join(d, "w")
    bad = rng.choice([b"\x60", b"\xf4", b"\xcd\x10", b"\xf7\xf1", b"\xb4\x99\xcd\x21"])
    prog = b"\xb2A\xb4\x02\xcd\x21" + b"\x31\xc9" + bad
    for o in ((), ("-v",), ("-p",), ("-v", "-p"), ("-p", "-v")):
        fresh(w, {}, prog, None)
        r = vlib.run([ctx.sim86_san, *o, "t.com"], cwd=w, unpriv=True)
        if r.rc != 1 or b"t.com: " not in r.out: raise Violation("program ending in %s with %s: %s" % (bad.hex(), " ".join(o), r.brief()), {"t.com": prog})
        r = vlib.run([ctx.sim86_san, *o], cwd=w, unpriv=True)
        if r.rc != 1 or b"Usage" not in r.out + r.err: raise Violation("no program with options %s: %s" % (" ".join(o), r.brief()), {})
    return dict(evals=1, keys=[bad.hex()], add={"failing programs": 1})

def body(c):
    t = vlib.Tools(c.dir, ["sim86", "sim86:san", "scc"])
    t.steps = 25000 if vlib.TIER == "quick" else 400000
    c.pool(case, c.n(320, 12000), t, "options")
    c.pool(usage, c.n(10, 60), t, "usage")

if __name__ == "__main__":
    vlib.main("M03", "Each evaluation is one program (random 8086 code, DOS-call programs, compiled C with its map) run by sim86 without options, with -v, -p and both: status, standard error, files and output must agree; the -v trace must equal, step by step, "
      "what the reference 8086 executes (address, state) and its instruction texts the independent disassembly of the executed bytes; the -p report must equal the memory accesses counted by the reference for every address, attributed by the map, with its totals, lowest stack pointer and frames. Distinct = program.", body,
      assumptions=["ndisasm and the reference 8086 in em86/core.h", "the counts of INT instructions are only bounded from below"])
