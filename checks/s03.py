import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sasgen, s01
from vlib import run, Violation, h
from sasgen import L, Text

NAMES = ["N0", "n0", "Nn", "five", "FIVE", "a.b", "_x", "K$", "movs", "dbx", "Eq", "zz", "ZZ", "mask", "hi", "lo"]
LABELS = ["T%d" % k for k in range(12)] + ["tab", "Tab", "end_", "m.1"]

def string(r, nasm):
    n = r.choice([1, 1, 2, 3, 3, 4, 8, 20, 60, 126, 127, r.randrange(128)] + ([] if nasm else [0]))
    q = r.random()
    if q < 0.5: return "".join(r.choice("abcXYZ 019;,:[]\"\\$#+-%@") for _ in range(n))
    if q < 0.8 or nasm: return "".join(chr(r.choice([c for c in range(32, 127) if c != 39])) for _ in range(n))
    return "".join(chr(r.choice([c for c in range(1, 256) if c != 39])) for _ in range(n))

def program(r, nasm):
    """text, expected bytes (None entries never), org"""
    equs = {}
    tx = Text(r, equs)
    nl = lambda: r.choice(["\n"] * 6 + ["\r\n", " ; 'it' is\n", "\n\n\t\n", ";\n", "   \n"])
    gap = lambda: tx.sp(True) if not nasm else r.choice([" ", "\t", "  "])
    out = r.choice(["", "", "; header\n", "\n\n", "\t; x\r\n"])
    body = []
    def define():
        n = r.choice(NAMES)
        if n in equs: return ""
        v = sasgen.value(r, 2) & 0xffff
        t = tx.expr(v)
        equs[n] = v
        return n + gap() + tx.kw("equ") + gap() + t + nl()
    if nasm:
        tx.sp = lambda need=False: r.choice([" ", "", "\t"]) if not need else r.choice([" ", "\t"])
    for _ in range(r.randrange(0, 6)): out += define()
    org = r.choice([0, 0x100, 0x100, 0x200, 0x7c00, 0x4321])
    if org or r.random() < 0.5: out += tx.kw("org") + gap() + (tx.num(org) if nasm else tx.expr(org)) + nl()
    if r.random() < 0.2: out += tx.kw("cpu") + gap() + "8086" + nl()
    labels = r.sample(LABELS, r.randrange(0, 8))
    pos, data, fix, addr = org, bytearray(), [], {}
    todo = list(labels)
    for _ in range(r.randrange(2, 40)):
        q = r.random()
        if todo and q < 0.15:
            l = todo.pop()
            addr[l] = pos
            out += l + r.choice(["", " "]) + ":" + ("\n" if nasm else r.choice([" ", "\n", ""]))
            continue
        if q < 0.25 and (not nasm or r.random() < 0.3): out += define(); continue
        if q < 0.32:
            v = sasgen.value(r, 2) & 0xffff
            out += tx.kw("mov") + gap() + tx.kw("ax") + "," + tx.expr(v) + nl()
            data += bytes([0xb8, v & 255, v >> 8]); pos += 3
            continue
        size = r.choice([1, 1, 2])
        items = []
        for _ in range(r.randrange(1, r.choice([2, 4, 12]))):
            k = r.random()
            if k < 0.4:
                s = string(r, nasm)
                items.append("'" + s + "'")
                b = s.encode("latin1")
                if size == 2 and len(b) % 2: b += b"\0"
                data += b; pos += len(b)
            elif size == 2 and labels and k < 0.65:
                l = r.choice(labels)
                fix.append((len(data), l))
                items.append(l)
                data += b"\0\0"; pos += 2
            else:
                if size == 1:
                    v = r.choice([0, 1, 127, 128, 255, r.randrange(256)])
                    if r.random() < 0.1 and not nasm: v = 0xff80 + r.randrange(128)
                else: v = sasgen.value(r, 2) & 0xffff
                t = tx.num(v)
                if t[0].isdigit() and t[1:2] not in ("x", "X") and r.random() < 0.1: t = "0" * r.randrange(1, 4) + t
                items.append(t)
                data += (v & 255).to_bytes(1, "little") if size == 1 else v.to_bytes(2, "little"); pos += size
        out += tx.kw("db" if size == 1 else "dw") + gap() + (tx.sp() + "," + tx.sp()).join(items) + nl()
    image = len(data)
    if r.random() < 0.6 or todo:
        for _ in range(r.randrange(1, 6)):
            if todo and r.random() < 0.6:
                l = todo.pop(); addr[l] = pos
                out += l + (":\n" if nasm else ": ")
            n = r.choice([0, 1, 2, 5, 100, r.randrange(2000)])
            w = r.random() < 0.5
            out += tx.kw("resw" if w else "resb") + gap() + (tx.num(n) if nasm else tx.expr(n)) + nl()
            pos += n * (1 + w)
        for l in todo:
            addr[l] = pos
            out += l + ":\n"
    if r.random() < 0.3: out = out.rstrip("\r\n\t ")
    if r.random() < 0.2: out += " ; the end" + r.choice(["", "\n", "\r"])
    for at, l in fix: data[at:at + 2] = (addr[l] & 0xffff).to_bytes(2, "little")
    return out, bytes(data), image, pos - org

def case(ctx, rng, d, i):
    nasm = i % 2 == 0
    text, want, image, total = program(rng, nasm)
    if rng.random() < 0.5:             # put it across the 512 bytes sas reads at once
        k = rng.randrange(505, 520)
        text = ";" + "x" * k + "\n" + text
    files = {"t.asm": text.encode("latin1")}
    if nasm:
        with open(os.path.join(d, "n.asm"), "wb") as f: f.write(files["t.asm"])
        g = run(["nasm", "-w-all", "-f", "bin", "-o", "n.com", "n.asm"], cwd=d)
        if g.rc: raise vlib.CheckError("nasm: %s\n%s" % (g.brief(), text))
        nd = open(os.path.join(d, "n.com"), "rb").read()
        if nd[:image] != want or any(nd[image:]): raise vlib.CheckError("nasm does not agree with the expected bytes: %s %s\n%s" % (nd.hex(), want.hex(), text))
    data, r = s01.assemble(ctx, d, ctx.sas_san if i % 6 == 0 else ctx.sas, files["t.asm"], "data program", files)
    if data is None: raise Violation("data program: sas rejects it: %s" % r.brief(300), files)
    if data != want:
        k = next((k for k in range(min(len(data), len(want))) if data[k] != want[k]), min(len(data), len(want)))
        raise Violation("data program: byte %d of %d (%d expected) is wrong: %s, should be %s" % (k, len(data), len(want), data[k:k + 8].hex(), want[k:k + 8].hex()), dict(files, **{"t.com": data}))
    return dict(evals=1, keys=[h(text)], add=dict(bytes=len(want), nasm_compared=nasm), sample=text if i == 0 else None)

def expressions(ctx, rng, d, i):
    """random operator trees; their value by C's rules on 16 bits"""
    def gen(depth):
        q = rng.random()
        if depth > 4 or q < 0.3:
            v = sasgen.value(rng, 2) & 0xffff
            return (rng.choice(["%d" % v, "0x%x" % v, "%d" % v] + (["'%s'" % chr(v)] if 32 <= v < 127 and v != 39 else [])), v, 0)
        if q < 0.45:
            t, v, p = gen(9)
            o = rng.choice("-~+")
            return (o + t, {"-": -v, "~": ~v, "+": v}[o] & 0xffff, 0)
        o = rng.choice(["+", "-", "|", "<<", "+", "-"])
        prec = {"+": 1, "-": 1, "<<": 2, "|": 3}[o]
        for _ in range(50):
            a, b = gen(depth + 1), gen(depth + 1)
            if a[2] <= prec and b[2] < prec and (o != "<<" or b[1] < 16): break
        else: return gen(9)
        v = {"+": lambda: a[1] + b[1], "-": lambda: a[1] - b[1], "|": lambda: a[1] | b[1], "<<": lambda: a[1] << b[1]}[o]() & 0xffff
        return (a[0] + rng.choice(["", " "]) + o + rng.choice(["", " ", "\t"]) + b[0], v, prec)
    out, want = "org 0\n", b""
    n = 0
    for k in range(100):
        t, v, p = gen(0)
        q = rng.randrange(4)
        if q == 0: out += "E%d equ %s\ndw E%d\n" % (k, t, k); want += v.to_bytes(2, "little")
        elif q == 1: out += "mov cx,%s\n" % t; want += b"\xb9" + v.to_bytes(2, "little")
        elif q == 2 and v < 256: out += "int %s\n" % t; want += bytes([0xcd, v])
        else: out += "test ax,%s\n" % t; want += b"\xa9" + v.to_bytes(2, "little")
        n += 1
    data, r = s01.assemble(ctx, d, ctx.sas_san if i % 6 == 0 else ctx.sas, out, "expressions")
    if data is None: raise Violation("expressions: sas rejects them: %s" % r.brief(300), {"t.asm": out})
    if data != want:
        k = next((k for k in range(min(len(data), len(want))) if data[k] != want[k]), min(len(data), len(want)))
        raise Violation("expressions: byte %d is wrong: %s, should be %s" % (k, data[k:k + 8].hex(), want[k:k + 8].hex()), {"t.asm": out, "t.com": data, "want.bin": want})
    return dict(evals=n, keys=[h(out)], add=dict(expressions=n))

BAD = [("a number too large for DB", "db 256"), ("a number too large for DB", "db 1,2,65407"), ("a number too large for DB", "db 0x100"), ("a number too large for DB", "db 40000"),
    ("a name for a number too large for DB", "Big equ 256\ndb Big"), ("a name for a number too small for DB", "Big equ 0-129\ndb Big"),
    ("three characters as a number", "mov ax,'abc'"), ("no character as a number", "mov ax,''"), ("string without an end", "db 'abc"), ("string without an end", "dw 1,'"),
    ("EQU without a value", "Zed equ\n"), ("EQU with a register", "Zed equ ax"), ("EQU with a memory operand", "Zed equ [5]"), ("name defined twice", "Zed equ 1\nZed equ 1"), ("EQU of an undefined name", "Zed equ Zod"),
    ("DB without data", "db"), ("DW without data", "dw\n"), ("DB with a comma at the end", "db 1,"), ("DW with two commas", "dw 1,,2"), ("DB with a register", "db al"), ("DW with a keyword", "dw byte"), ("DB with brackets", "db [1]"),
    ("operator without an operand", "mov ax,1+"), ("operator without an operand", "mov ax,|1"), ("operator without an operand", "mov ax,1<<"), ("unknown operator", "mov ax,1*2"), ("unknown operator", "mov ax,6/2"), ("unknown operator", "mov ax,7&2"), ("unknown operator", "mov ax,7^2"),
    ("unknown operator", "mov ax,1<2"), ("unknown operator", "mov ax,1>>2"), ("unknown operator", "mov ax,(1)"), ("shift by 16", "mov ax,1<<16"), ("shift by -1", "mov ax,1<<-1"), ("shift by 255", "Zed equ 2<<255"), ("number and name", "mov ax,5Zed"),
    ("another CPU", "cpu 386"), ("CPU without a number", "cpu"), ("another CPU", "cpu 80186"), ("ORG without a number", "org"), ("ORG of a register", "org bx"), ("RESB without a number", "resb"), ("RESW of a register", "resw ax"),
    ("data after reserved space", "resb 1\ndb 1"), ("data after reserved space", "resw 2\ndw 1"), ("data after reserved space", "resb 0\ndb 1"), ("a string after reserved space", "resb 2\ndb 'a'"), ("an instruction after reserved space", "resb 2\nret"),
    ("character outside strings", "db 1 ! 2"), ("character outside strings", "db \"a\""), ("character outside strings", "#db 1"), ("character outside strings", "db 1 \\"), ("character outside strings", "mov ax,{1}"), ("character outside strings", "db @1"), ("times", "times 5 db 1"), ("current position", "mov ax,$$"),
]
def bad(ctx, rng, d, i):
    """a line that denotes no bytes, at the start or behind a program: diagnosed, nothing is written"""
    n, keys = 0, []
    for k in range(10):
        name, t = BAD[(i * 10 + k) % len(BAD)]
        pre = ""
        if rng.random() < 0.5:
            while True:
                pre, want, image, total = program(rng, False)
                if "res" not in pre.lower() and "Z" not in pre: break
        text = pre + "\n" + t + rng.choice(["", "\n", " ; x\n", "\r\n"])
        if t[-1:] == "\n" or "without" in name: text = text.rstrip() + "\n"
        files = {"t.asm": text.encode("latin1")}
        data, r = s01.assemble(ctx, d, ctx.sas_san if k == 0 else ctx.sas, files["t.asm"], name, files)
        if data is not None: raise Violation("%s (%r): accepted" % (name, t), dict(files, **{"t.com": data}))
        if not (r.out + r.err).strip(): raise Violation("%s: refused without a diagnostic" % name, files)
        n += 1; keys.append(h(text))
    return dict(evals=n, keys=keys, add=dict(refused=n))

def body(c):
    t = vlib.Tools(c.dir, ["sas", "sas:san"])
    c.pool(case, c.n(3000, 200000), t, "data")
    c.pool(expressions, c.n(200, 10000), t, "expr")
    c.pool(bad, c.n(60, 2000), t, "bad")

if __name__ == "__main__":
    vlib.main("S03", "Each evaluation is a program of data directives, definitions and expressions whose image is compared byte for byte with what it denotes (computed by the generator; for every second program nasm has to agree first), "
      "or one expression of numbers, characters and operators compared with its value on 16 bits, or a program with one line that denotes no bytes, which must be refused. Letter case, blanks, comments, line ends and the position in the read buffer vary.", body)
