import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cprog import *
import decls

KW = set("auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while va_list va_start va_end va_arg _emit _start _SBSS _EBSS PC P ExitTo ClearBss Main".split())
PRE_FUNCS = ["PC", "ExitTo", "P", "ClearBss", "_start", "Main"]

def parse_map(data, src):
    """[(address, name)]; checks the line format."""
    if not data.endswith(b"\r\n"): raise Violation("map doesn't end with a line end: %r" % data[-20:], {"p.c": src})
    out = []
    for l in data[:-2].split(b"\r\n"):
        m = re.fullmatch(rb"([0-9A-F]{4}) ([A-Za-z_@][A-Za-z0-9_]*)", l)
        if not m: raise Violation("malformed map line %r" % l, {"p.c": src})
        out.append((int(m.group(1), 16), m.group(2).decode()))
    return out

def check_layout(com, mp, src, want=None, statics=None):
    """The invariants every accepted program's image and map obey."""
    f = {"p.c": src, "p.com": com, "p.map": repr(mp)}
    if [a for a, _ in mp] != sorted(a for a, _ in mp): raise Violation("map isn't in increasing order", f)
    names = [n for _, n in mp if n != "@static"]
    if len(set(names)) != len(names): raise Violation("names listed twice: %s" % sorted(n for n in set(names) if names.count(n) > 1), f)
    if mp[-1][1] != "_EBSS": raise Violation("map ends with %s" % (mp[-1],), f)
    if want is not None and set(names) != want:
        raise Violation("map lists %s too many, misses %s" % (sorted(set(names) - want), sorted(want - set(names))), f)
    at = {n: a for a, n in mp}
    if len(com) != at["_SBSS"] - 0x100: raise Violation("image has %d bytes, _SBSS is %04X" % (len(com), at["_SBSS"]), f)
    # XOR BP,BP ; JMP _start (which may be the next instruction)
    st = at["_start"]
    if com[:2] != b"\x31\xed": raise Violation("image starts with %s" % com[:6].hex(), f)
    if com[2] == 0xE9: t = 0x105 + int.from_bytes(com[3:5], "little")
    elif com[2] == 0xEB: t = 0x104 + ((com[3] ^ 0x80) - 0x80)
    else: t = 0x102
    if t & 0xffff != st: raise Violation("image starts by jumping to %04X, _start is %04X" % (t, st), f)
    return at

def ident(r, used):
    while True:
        n = r.choice("abcxyzABZ_")
        n += "".join(r.choice("abcdefgzABCZ_0189") for _ in range(r.choice([0, 1, 2, 3, 5, 8, 15, 30])))
        if n not in used and n not in KW:
            used.add(n)
            return n

class Prog:
    def __init__(self, r):
        self.r = r
        used = set()
        items, self.init, self.bss, self.funcs, self.lits, self.marks = [], {}, {}, [], {}, []
        self.static_bytes = 0
        ng, nf = r.choice([0, 1, 3, 8, 20, 40]), r.choice([1, 2, 4, 8, 16])
        ob = []
        self.arr = self.ns = 0
        for _ in range(ng):
            n = ident(r, used)
            c = r.random()
            if c < 0.25:
                t, sz = r.choice([("int", 2), ("unsigned", 2), ("char", 1), ("unsigned char", 1)])
                v = r.randrange(-32768, 32768)
                items.append("%s%s %s = %d;\n" % (r.choice(["", "static ", "const "]), t, n, v) if v > -32768 else "int %s = -32767 - 1;\n" % n)
                self.init[n] = (v & 0xffff).to_bytes(2, "little")[:sz]
            elif c < 0.4 and self.arr < 24:
                self.arr += 1
                s = "".join(r.choice("abcdefg 0123XYZ") for _ in range(r.choice([0, 1, 5, 30, 100])))
                if r.random() < 0.3: s += "\\n\\x7f\\0z"
                items.append('const char %s[] = "%s";\n' % (n, s))
                self.init[n] = s.replace("\\n", "\n").replace("\\x7f", "\x7f").replace("\\0", "\0").encode() + b"\0"
            elif c < 0.6 and self.arr < 24:
                self.arr += 1
                t, sz = r.choice([("int", 2), ("char", 1), ("int*", 2), ("unsigned", 2)])
                k = r.choice([1, 2, 3, 7, 100, 1000])
                if r.random() < 0.2 and self.arr < 24:
                    self.arr += 1
                    items.append("%s %s[%d][3];\n" % (t, n, k)); k *= 3
                else: items.append("%s %s[%d];\n" % (t, n, k))
                self.bss[n] = sz * k
            elif c < 0.7:
                items.append("struct { char a; int b; char c[3]; } %s;\n" % n if self.arr < 24 and self.ns < 8 else "char *%s;\n" % n)
                self.bss[n] = 6 if self.arr < 24 and self.ns < 8 else 2
                self.arr += 1
                self.ns += 1
            else:
                t, sz = r.choice([("int", 2), ("unsigned", 2), ("char", 1), ("char*", 2), ("int**", 2)])
                items.append("%s%s %s;\n" % (r.choice(["", "static ", "extern "]), t, n))
                self.bss[n] = sz
                if r.random() < 0.1: items.append("%s %s;\n" % (t, n))
        if sum(self.bss.values()) > 20000: self.bss, items = {}, [x for x in items if "=" in x]
        fns = [ident(r, used) for _ in range(nf)]
        main = []
        self.expect = []     # (what, name or literal bytes) in order of the output
        for k, n in enumerate(fns):
            mark = bytes(r.randrange(256) for _ in range(6))
            self.marks.append(mark)
            body = "".join(" _emit 0x%02X" % b for b in b"\xEB\x06" + mark)
            args = r.choice(["void", "int a", "int a, int b"])
            stat = ""
            for _ in range(r.choice([0, 0, 0, 1, 2, 3])):
                s = ident(r, used)
                used.discard(s)
                if s in fns or s in self.bss or s in self.init or "int %s;" % s in stat: continue
                stat += " static int %s; %s = 1;" % (s, s)
                self.static_bytes += 2
            lit = ""
            for _ in range(r.choice([0, 0, 1, 2])):
                l = "L%d_%d" % (len(self.lits), r.randrange(1 << 30)) + "x" * r.choice([0, 1, 40])
                self.lits[l] = 0
                style = r.randrange(3)
                if style == 0: lit += ' P("%s");' % l; self.expect.append((k, "lit", l))
                elif style == 1: lit += ' { char *q = "%s"; P(q); }' % l; self.expect.append((k, "lit", l))
                else: lit += ' P("%s"[1]);' % l; self.expect.append((k, "val", ord(l[1])))
            dead = r.choice(["", "", " if (0) { P(\"dead\"); P(7); }", " goto e; P(\"dead\"); e:;"])
            call = ""
            if r.random() < 0.4 and k + 1 < nf: call = " %s(1, 2);" % r.choice(fns[k + 1:])
            items.append("%sint %s(%s)\n{\n   %s%s%s%s%s\n    return %d;\n}\n" % (r.choice(["", "static "]), n, args, body, stat, lit, dead, "", k))
            main.append((k, n))
        r.shuffle(items)
        self.items, self.fns, self.mainfns = items, fns, main

    def text(self):
        r = self.r
        out = []
        exp = []     # list of functions at -> expected value
        m = ""
        for n in self.fns:
            if r.random() < 0.7: m += "    P(%s%s);\n" % (r.choice(["", "&"]), n); exp.append(("addr", n))
            m += "    P(%s(1, 2));\n" % n
            k = self.fns.index(n)
            exp += [e[1:] for e in self.expect if e[0] == k]
            exp.append(("val", k))
        for n in list(self.init) + list(self.bss):
            if r.random() < 0.8:
                arr = any(re.match(r"[^{;=]*\b%s\[" % n, i) for i in self.items)
                m += "    P(%s%s);\n" % ("" if arr and r.random() < 0.5 else "&", n); exp.append(("addr", n))
        decl = [i for i in self.items]
        protos = "".join("int %s();\n" % n for n in self.fns)
        mainf = "void Main(void)\n{\n%s}\n" % m
        # P and Main's callees must be known to the text before use where needed
        parts = decl + [mainf]
        gl = [p for p in decl if "\n{" not in p]
        fn = [p for p in decl if "\n{" in p] + [mainf]
        r.shuffle(fn)
        pre = PRELUDE
        # definitions of globals anywhere before Main
        i = fn.index(mainf)
        for g in gl: fn.insert(r.randrange(0, i + 1), g); i = fn.index(mainf)
        # re-declarations must follow... order of equal names doesn't matter
        return protos + (pre + "".join(fn) if r.random() < 0.7 else "void P(int v);\n" + "".join(fn) + pre), exp

def case(ctx, rng, d, i):
    if i % 4 == 3:
        g = decls.Gen(rng)
        try: top, mtext, exp = g.program()
        except (decls.Stop, RecursionError): return None
        src = PRELUDE + top + mtext
        run_and_compare(ctx, d, src, exp, seed=rng.randrange(1 << 20))
        com, mp = (open(os.path.join(d, "p." + e), "rb").read() for e in ("com", "map"))
        check_layout(com, parse_map(mp, src), src)
        keys = [("decls", len(com) // 64)]
        n = mp.count(b"\n")
    else:
        p = Prog(rng)
        src, exp = p.text()
        if rng.random() < 0.3:   # longer old files of the same names are replaced
            for e in ("com", "map"): open(os.path.join(d, "p." + e), "wb").write(b"?" * 60000)
        compile_scc(ctx, d, src, exe=ctx.scc_san if i % 8 == 0 else ctx.scc)
        com, mp = (open(os.path.join(d, "p." + e), "rb").read() for e in ("com", "map"))
        pm = parse_map(mp, src)
        want = set(PRE_FUNCS) | set(p.fns) | set(p.init) | set(p.bss) | {"_SBSS", "_EBSS"}
        at = check_layout(com, pm, src, want)
        f = {"p.c": src, "p.com": com, "p.map": mp}
        for n, v in p.init.items():
            o = at[n] - 0x100
            if com[o:o + len(v)] != v: raise Violation("%s at %04X holds %s, not %s" % (n, at[n], com[o:o + len(v)].hex(), v.hex()), f)
        total = sum(p.bss.values()) + p.static_bytes
        if at["_EBSS"] - at["_SBSS"] != total: raise Violation("_EBSS-_SBSS is %d, the objects need %d" % (at["_EBSS"] - at["_SBSS"], total), f)
        spans = sorted((at[n], at[n] + s, n) for n, s in list(p.bss.items()) + [(n, len(v)) for n, v in p.init.items()])
        for x, y in zip(spans, spans[1:]):
            if x[1] > y[0]: raise Violation("%s overlaps %s" % (x, y), f)
        for n in p.bss:
            if at[n] < at["_SBSS"]: raise Violation("%s lies below _SBSS" % n, f)
        ends = sorted(at[n] for n in p.fns + PRE_FUNCS) + [at["_SBSS"]]
        for n, mk in zip(p.fns, p.marks):
            k = com.count(mk)
            o = com.find(mk) + 0x100
            nx = min(e for e in ends if e > at[n])
            if k != 1 or not at[n] <= o < nx: raise Violation("the code of %s is in the image %d times, at %04X, function at %04X" % (n, k, o, at[n]), f)
        for l in p.lits:
            k = com.count(l.encode() + b"\0")
            if k != 1: raise Violation("string literal %r is in the image %d times" % (l, k), f)
        vals = []
        for k, v in exp:
            vals.append(at[v] if k == "addr" else com.find(v.encode() + b"\0") + 0x100 if k == "lit" else v)
        e = "".join("%04X\n" % (v & 0xffff) for v in vals)
        r, j = em86(ctx, os.path.join(d, "p.com"), d, map=os.path.join(d, "p.map"), seed=rng.randrange(1 << 20))
        if r.out.decode("latin1") != e or j["violations"] or j["ended"] != "exit" or j["exit"]:
            o = r.out.decode("latin1").split("\n")
            w = [(a, b, x) for a, b, x in zip(e.split("\n"), o + [None] * 99, exp) if a != b][:3]
            raise Violation("addresses seen by the program differ from the map: %s (%s %s)" % (w, j["ended"], j["violations"]), f)
        keys = [(len(p.fns), len(p.init), len(p.bss), len(p.lits))]
        n = len(pm)
    # the same text under other names and directories
    dd = os.path.join(d, "sub.dir")
    os.makedirs(dd, exist_ok=True)
    same = 0
    base = "".join(rng.choice("abXY_.-0") for _ in range(rng.randrange(1, 9))).strip(".-") or "n"
    if os.path.isdir(os.path.join(d, base)) or base in ("p.c", "p.com", "p.map"): base = "nn"
    dirs = rng.choice(["", "", "./", "sub.dir/", "./sub.dir/", d + "/"])
    ext = rng.choice([".c", ".C", ".txt", ".i", "", ".com.c", ".map.c", ".x.y"])
    strip = lambda n: n[:n.rindex(".")] if "." in n[n.rfind("/") + 1:] else n
    src_n = dirs + base + ext
    if rng.random() < 0.5:
        if os.path.join(d, strip(src_n) + ".com") == os.path.join(d, src_n): src_n += ".c"
        args, oc, om = [src_n], strip(src_n) + ".com", strip(src_n) + ".map"
    else:
        oc = rng.choice(["", "sub.dir/", "./"]) + "o" + rng.choice(["", "ut.v2", ".1.2"]) + rng.choice([".com", ".x", "", ".COM"])
        args, om = [src_n, oc], strip(oc) + ".map"
    v = (base.count("."), dirs, ext, len(args), oc.count("."))
    with open(os.path.join(d, src_n), "w", newline="") as fo: fo.write(src)
    r = run([ctx.scc] + args, cwd=d)
    try: c2, m2 = (open(os.path.join(d, x), "rb").read() for x in (oc, om))
    except OSError as ex: raise Violation("scc %s didn't write %s: %s" % (args, ex, r.brief()), {"p.c": src})
    if r.rc or c2 != com or m2 != mp:
        raise Violation("compiling the same text as %s gives another image or map (%s)" % (args, r.brief(200)), {"p.c": src, "a.com": com, "b.com": c2, "a.map": mp, "b.map": m2})
    keys.append(("repro", v))
    return dict(evals=n + 1, keys=[h(k) for k in keys], sample=src[-500:] if i < 2 else None, add=dict(programs=1, map_lines=n))

def repo_programs(c, t):
    """the repository's own programs"""
    for name in ("scc", "scpp", "sas", "sim86", "swar"):
        com, mp = open(getattr(t, name + "_com"), "rb").read(), open(getattr(t, name + "_map"), "rb").read()
        src = "(%s.c of the repository)" % name
        check_layout(com, parse_map(mp, src), src)
        c.evals += mp.count(b"\n")
        c.add("repo_programs")

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scc:san", "scpp", "scc.com", "scpp.com", "sas.com", "sim86.com", "swar.com"])
    repo_programs(c, t)
    c.pool(case, c.n(5000, 120000), t)

if __name__ == "__main__":
    vlib.main("C06", "each evaluation is one map line checked against the image, the program text and the address the running program prints, or one recompilation under another name compared byte for byte; distinct counts program shapes (functions, initialised, uninitialised objects, literals)", body)
