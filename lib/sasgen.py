"""Programs for sas: instructions as trees, their text in every spelling sas reads, and ndisasm's view of the bytes as trees again"""
import re, os
from vlib import run

R8 = ["al", "cl", "dl", "bl", "ah", "ch", "dh", "bh"]
R16 = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"]
SREG = ["es", "cs", "ss", "ds"]
ALU = ["adc", "add", "and", "cmp", "or", "sbb", "sub", "xor"]
CC = {"jo": "jo", "jno": "jno", "jc": "jc", "jb": "jc", "jnae": "jc", "jnc": "jnc", "jnb": "jnc", "jae": "jnc", "jz": "jz", "je": "jz", "jnz": "jnz", "jne": "jnz",
      "jna": "jna", "jbe": "jna", "ja": "ja", "jnbe": "ja", "js": "js", "jns": "jns", "jpe": "jpe", "jpo": "jpo", "jl": "jl", "jnge": "jl", "jnl": "jnl", "jge": "jnl",
      "jng": "jng", "jle": "jng", "jg": "jg", "jnle": "jg"}
PLAIN = ["cbw", "clc", "cli", "cmpsb", "cwd", "lodsb", "movsb", "ret", "stc", "sti", "stosb", "stosw"]
KEYWORDS = set(R8 + R16 + SREG + ALU + PLAIN + list(CC) + "byte short word cpu db dw equ org resb resw call dec div idiv imul inc int jmp lea mov mul neg not pop push rep sar shl shr test xchg".split())
SIZE = {r: 1 for r in R8}; SIZE.update({r: 2 for r in R16 + SREG})

class L:
    """a reference to a label (plus a number in displacements)"""
    def __init__(s, name, add=0, key=None): s.name, s.add, s.key = name, add, key or name
    def __repr__(s): return "%s%+d" % (s.name, s.add)

# operands: ("r", name)  ("i", value or L)  ("m", segment or None, frozenset(registers), displacement or L, size 0/1/2)

# ---------------------------------------------------------------- text
class Text:
    def __init__(s, rng, equs=None, tidy=None):
        s.r, s.equs = rng, equs or {}
        s.tidy = rng.random() < 0.3 if tidy is None else tidy
    def kw(s, w):
        r = s.r
        if s.tidy: return w.upper()
        return r.choice([w.upper, w.lower, w.title, lambda: "".join(r.choice([c.upper(), c.lower()]) for c in w)])()
    def sp(s, need=False):
        r = s.r
        if s.tidy: return " " if need else ""
        q = r.random()
        if q < 0.5: return " " if need else ""
        if q < 0.96: return r.choice([" ", "  ", "\t", " \t "])
        return r.choice([" ; note, with 'quotes' [x]\n", "\n", "\r\n", " \n\n\t", ";\n"])
    def num(s, v, signed=False):
        """an unsigned spelling of v (mod 65536)"""
        r = s.r
        v &= 0xffff
        q = r.random()
        es = [k for k, x in s.equs.items() if x & 0xffff == v]
        if es and q < 0.7: return r.choice(es)
        if q < 0.45: return "%d" % v
        x = "%x" % v
        return "0" + r.choice("xX") + "0" * r.choice([0, 0, 1, 2]) + "".join(r.choice([c.upper(), c]) for c in x)
    def char(s, v):
        v &= 0xffff
        lo, hi = v & 255, v >> 8
        ok = lambda c: 32 <= c < 127 and c != 39
        if ok(lo) and hi == 0: return "'%c'" % lo
        if ok(lo) and ok(hi): return "'%c%c'" % (lo, hi)
    def expr(s, v, depth=0, char=True):
        """an expression for v (mod 65536)"""
        r = s.r
        v &= 0xffff
        q = r.random()
        if char and q < 0.3 and s.char(v): return s.char(v)
        if q < 0.55 or depth > 2: return s.num(v)
        k = r.randrange(7)
        if k == 0: return "-" + s.sp() + s.unary(-v)
        if k == 1: return "~" + s.sp() + s.unary(~v)
        if k == 2: return "+" + s.sp() + s.unary(v)
        if k == 3:
            a = r.choice([1, 2, 0xff, 0x100, r.randrange(65536)])
            # a - b + c: left to right
            b = r.randrange(300)
            return "%s%s+%s%s%s-%s%s" % (s.num(v - a + b), s.sp(), s.sp(), s.num(a), s.sp(), s.sp(), s.unary(b))
        if k == 4:
            a = r.randrange(65536)
            return "%s%s-%s%s" % (s.num(v + a), s.sp(), s.sp(), s.unary(a))
        if k == 5:
            m = r.randrange(65536)
            return "%s%s|%s%s" % (s.low(v & m), s.sp(), s.sp(), s.low(v & ~m | (v & r.randrange(65536))))
        return s.low(v)
    def unary(s, v):
        r = s.r
        q = r.random()
        if q < 0.1: return "-" + s.sp() + s.num(-v)
        if q < 0.2: return "~" + s.sp() + s.num(~v)
        return s.num(v)
    def low(s, v):
        """an expression that binds tighter than |"""
        r = s.r
        v &= 0xffff
        n = 0
        while v and not v & 1 and n < 15 and (not v >> 1 or r.random() < 0.9): v >>= 1; n += 1
        if n and r.random() < 0.8:
            a = r.randrange(20)
            w = v | (r.randrange(65536) << (16 - n) & 0xffff if r.random() < 0.3 else 0)
            return r.choice(["%s%s<<%s%s" % (s.num(w), s.sp(), s.sp(), s.num(n)), "%s+%s%s<<%s%s" % (s.num(w - a), s.num(a), s.sp(), s.sp(), s.num(n)), "%s<<%s%s+%s" % (s.num(w), s.sp(), s.num(max(0, n - 1)), s.num(min(n, 1)))])
        return s.num(v << n)
    def lit(s, v):
        if isinstance(v, L): return v.name
        return s.expr(v)
    def mem(s, m):
        r = s.r
        _, seg, regs, disp, size = m
        regs = list(regs)
        regs.sort(key=lambda x: x == "bx")            # SI comes before BX
        terms = list(regs)
        label, d = (disp.name, disp.add) if isinstance(disp, L) else (None, disp)
        if label: terms.insert(r.randrange(len(terms) + 1), label)
        d &= 0xffff
        nums = []
        if d or not terms or r.random() < 0.1:
            if r.random() < 0.2:
                a = r.randrange(-300, 300)
                nums = [d - a, a]
            else: nums = [d]
        for x in nums: terms.insert(r.randrange(len(terms) + 1) if r.random() < 0.5 else len(terms), x)
        out = ""
        for k, t in enumerate(terms):
            if isinstance(t, int):
                if k and ((t & 0x8000) != 0) == (r.random() < 0.9): out += s.sp() + "-" + s.sp() + s.num(-t)
                else: out += (s.sp() + "+" + s.sp() if k else "") + s.num(t)
            else: out += (s.sp() + "+" + s.sp() if k else "") + (s.kw(t) if t in SIZE else t)
        out = "[" + s.sp() + (s.kw(seg) + s.sp() + ":" + s.sp() if seg else "") + out + s.sp() + "]"
        return (s.kw("byte" if size == 1 else "word") + s.sp() if size else "") + out
    def op(s, o):
        return s.kw(o[1]) if o[0] == "r" else s.lit(o[1]) if o[0] == "i" else s.mem(o)
    def inst(s, x):
        mn, ops = x[0], x[1]
        t = s.kw(mn)
        for k, o in enumerate(ops):
            t += s.sp(True) if k == 0 else s.sp() + "," + s.sp()
            if k == 0 and len(x) > 2 and x[2]: t += s.kw(x[2]) + s.sp(True)
            t += s.op(o)
        return t

# ---------------------------------------------------------------- what to generate
def value(r, size):
    if size == 1: return r.choice([0, 1, 0x7f, 0x80, 0xff, -1, -128, r.randrange(-128, 256)])
    return r.choice([0, 1, -1, 5, 0x7f, 0x80, -0x80, -0x81, 0xff, 0x100, 0x7fff, 0x8000, 0xff7f, 0xff80, 0xffff, r.randrange(65536), r.randrange(-128, 128), r.randrange(32, 127), r.randrange(32, 127) << 8 | r.randrange(32, 127)])

def mem(r, size=0):
    regs = r.choice([(), ("bx",), ("si",), ("di",), ("bp",), ("si", "bx"), ()])
    disp = r.choice([0, 0, 1, -1, 0x7f, 0x80, -0x80, -0x81, 0xff, 0x100, 0x8000, 0xff80, 0xff7f, r.randrange(65536), r.randrange(-128, 128)])
    seg = r.choice([None] * 6 + SREG)
    return ("m", seg, frozenset(regs), disp, size)

def inst(r):
    """an instruction sas supports: (mnemonic, operands, jump size)"""
    R = lambda z: ("r", r.choice(R8 if z == 1 else R16))
    z = r.choice([1, 2])
    ex = lambda: r.choice([0, 0, 0, z])             # a size that is not needed
    k = r.randrange(100)
    if k < 24:
        q = r.randrange(9)
        if q == 0: return ("mov", [R(z), R(z)])
        if q == 1: return ("mov", [R(z), ("i", value(r, z))])
        if q == 2: return ("mov", [R(z), mem(r, ex())])
        if q == 3: return ("mov", [mem(r, ex()), R(z)])
        if q == 4: return ("mov", [mem(r, z), ("i", value(r, z))])
        if q == 5: return ("mov", [("r", r.choice(["es", "ss", "ds"])), r.choice([R(2), mem(r, r.choice([0, 2]))])])
        if q == 6: return ("mov", [r.choice([R(2), mem(r, r.choice([0, 2]))]), ("r", r.choice(SREG))])
        acc = ("r", "al" if z == 1 else "ax")       # the short forms of the accumulator
        m = ("m", r.choice([None, None] + SREG), frozenset(), r.choice([0, 5, 0x80, 0xffff, r.randrange(65536)]), ex())
        return ("mov", [acc, m] if q == 7 else [m, acc])
    if k < 48:
        op = r.choice(ALU)
        q = r.randrange(6)
        if q == 0: return (op, [R(z), R(z)])
        if q == 1: return (op, [R(z), ("i", value(r, z))])
        if q == 2: return (op, [R(z), mem(r, ex())])
        if q == 3: return (op, [mem(r, ex()), R(z)])
        if q == 4: return (op, [mem(r, z), ("i", value(r, z))])
        return (op, [("r", "al" if z == 1 else "ax"), ("i", value(r, z))])
    if k < 53: return (r.choice(["sar", "shl", "shr"]), [R(z), r.choice([("i", 1), ("r", "cl")])])
    if k < 58: return (r.choice(["inc", "dec"]), [r.choice([R(z), mem(r, z)])])
    if k < 62: return ("push", [r.choice([R(2), ("r", r.choice(SREG)), mem(r, 2)])])
    if k < 65: return ("pop", [r.choice([R(2), ("r", r.choice(["es", "ss", "ds"]))])])
    if k < 68: return ("test", [r.choice([R(z), R(z), mem(r, z), ("r", "al" if z == 1 else "ax")]), ("i", value(r, z))])
    if k < 72: return r.choice([("xchg", [("r", "ax"), R(2)]), ("xchg", [R(z), mem(r, ex())])])
    if k < 78: return (r.choice(["mul", "imul", "div", "idiv", "not", "neg"]), [R(z)])
    if k < 81: return ("lea", [R(2), mem(r, r.choice([0, 0, 2]))])
    if k < 84: return ("int", [("i", r.choice([0, 0x10, 0x21, 0xff, r.randrange(256)]))])
    if k < 90: return (r.choice(PLAIN), [])
    if k < 92: return ("rep", [], None, r.choice(["movsb", "stosb", "stosw", "cmpsb", "lodsb"]))
    if k < 94: return ("call", [r.choice([R(2), ("i", ("rel", r.choice([0, 5, -5, 300, -300, 0x7ffd, -0x8000, r.randrange(-32768, 32768)])))])])
    if k < 97: return ("jmp", [("i", ("rel", r.choice([0, 5, -5, 127, 128, -128, -129, 300, r.randrange(-32768, 32768)])))], None)
    if k < 98: return ("jmp", [("i", ("rel", r.choice([0, 127, -128, r.randrange(-128, 128)])))], "short")
    return (r.choice(list(CC)), [("i", ("rel", r.choice([0, 127, -128, r.randrange(-128, 128)])))], r.choice([None, None, "short"]))

def wild(r):
    """any mnemonic with any operands: whatever sas accepts must mean what it says"""
    ms = "mov adc add and cmp or sbb sub xor sar shl shr call jmp inc dec push pop int test xchg mul imul div idiv not neg lea jz jg jnc ret movsb cbw mov add".split()
    mn = r.choice(ms)
    def op():
        q = r.random()
        if q < 0.25: return ("r", r.choice(R8))
        if q < 0.5: return ("r", r.choice(R16))
        if q < 0.6: return ("r", r.choice(["es", "ss", "ds", "cs"]))
        if q < 0.75: return ("i", value(r, r.choice([1, 2])))
        return mem(r, r.choice([0, 1, 2]))
    n = r.choice([0, 1, 1, 2, 2, 2])
    if mn in ("int", "push", "pop", "inc", "dec", "mul", "imul", "div", "idiv", "not", "neg", "call", "jmp", "jz", "jg", "jnc"): n = r.choice([1, 1, 1, 1, 0, 2])
    elif n == 1: n = 2 if r.random() < 0.8 else 1
    if mn == "int" and r.random() < 0.7: return (mn, [("i", r.choice([255, 256, 257, -1, -128, 0x1ff, 0xff00, 0x8000, 0xff80, 0x121]))], None)
    return (mn, [op() for _ in range(n)], r.choice([None] * 6 + ["short"]) if mn[0] == "j" else None)

# ---------------------------------------------------------------- reading ndisasm
NUM = re.compile(r"^([+-]?)(0x[0-9a-f]+|\d+)$")
def _int(t):
    m = NUM.match(t)
    if not m: return None
    v = int(m.group(2), 0)
    return -v if m.group(1) == "-" else v

def parse_op(t):
    t = t.strip()
    size = 0
    m = re.match(r"^(byte|word|short|near)\s+(.*)$", t)
    if m:
        size = {"byte": 1, "word": 2}.get(m.group(1), 0)
        t = m.group(2)
    if t.startswith("["):
        t = t[1:-1]
        seg = None
        if t[2:3] == ":": seg, t = t[:2], t[3:]
        m = re.match(r"^(byte|word)\s+(.*)$", t)
        if m: t = m.group(2)
        regs, d = [], 0
        for x in re.findall(r"[+-]?[^+-]+", t):
            y = x.lstrip("+")
            if y in SIZE: regs.append(y)
            else:
                v = _int(x)
                if v is None: return None
                d += v
        return ("m", seg, frozenset(regs), d & 0xffff, size)
    if t in SIZE: return ("r", t)
    v = _int(t)
    return None if v is None else ("i", v)

LINE = re.compile(r"^([0-9A-F]{8})  ([0-9A-F]+)\s+(\S.*)$")
def ndisasm(d, data, org, skip=0):
    p = os.path.join(d, "dis.bin")
    with open(p, "wb") as f: f.write(data[skip:])
    r = run(["ndisasm", "-b16", "-o", "%d" % (org + skip), p], cwd=d)
    out = []
    for l in r.out.decode().splitlines():
        m = LINE.match(l)
        if not m: continue
        out.append((int(m.group(1), 16), len(m.group(2)) // 2, m.group(3).strip(), m.group(2)))
    # lines of long instructions are never continued for 8086 code (at most 8 bytes are printed on a line)
    return out

def tree(text):
    """ndisasm's text -> (mnemonic, operands, short?, string)"""
    w = text.split(None, 1)
    mn = w[0]
    if mn in ("repe", "repne", "rep") and len(w) > 1: return ("rep" if mn != "repne" else mn, [], None, w[1])
    if mn == "nop" and len(w) == 1: return ("xchg", [("r", "ax"), ("r", "ax")], None, None)
    if text == "db 0x0f": return ("pop", [("r", "cs")], None, None)     # an 8086 instruction
    if len(w) == 1: return (mn, [], None, None)
    rest = w[1]
    short = "short" if rest.startswith("short ") else None
    ops = [parse_op(o) for o in rest.split(",")]
    if None in ops: return ("?" + text, [], None, None)
    return (CC.get(mn, mn), ops, short, None)

def norm(mn, ops, addr=None, strict=False):
    """a form in which what the source says and what the bytes say can be compared"""
    ops = list(ops)
    regsize = 0
    for o in ops:
        if o[0] == "r" and not (mn in ("shl", "shr", "sar") and o is ops[-1] and len(ops) > 1): regsize = SIZE[o[1]]
    memsize = next((o[4] for o in ops if o[0] == "m"), 0)
    size = regsize or memsize
    if mn in ("shl", "shr", "sar") and len(ops) > 1: size = 1
    mask = 0xff if size == 1 or mn == "int" else 0xffff
    out = []
    for o in ops:
        if o[0] == "i":
            v = o[1]
            if isinstance(v, L): v = addr(v.key) + v.add
            if strict and mask == 0xff and not (v & 0xffff < 256 or v & 0xffff >= 0xff80): v = -1000000    # cannot be represented
            else: v &= mask
            out.append(("i", v))
        elif o[0] == "m":
            v = o[3]
            if isinstance(v, L): v = addr(v.key) + v.add
            out.append(("m", o[1] or "", tuple(sorted(o[2])), v & 0xffff, 0 if regsize or mn == "lea" else o[4]))
        else: out.append(o)
    if mn == "xchg": out.sort()
    return (CC.get(mn, mn), out)

# ---------------------------------------------------------------- sas and the comparison
class Refused(Exception): pass

def walk(d, data, org, items, labels):
    """lines the items of a program up with the bytes: yields (item, position, decoded)
    items: ("i", instruction, text)  ("d", words or bytes: [(size, value or L)], text)  ("l", key)  ("r", reserved bytes)
    fills labels: key -> address"""
    pos = 0
    dis = None
    for it in items:
        if it[0] == "l":
            labels[it[1]] = (org + pos) & 0xffff
        elif it[0] == "r":
            pos += it[1]
        elif it[0] == "d":
            n = sum(z for z, v in it[1])
            yield it, pos, data[pos:pos + n]
            pos += n
            dis = None
        else:
            if dis is None or pos not in dis: dis = {a - org: (n, t) for a, n, t, hx in ndisasm(d, data, org, pos)}
            if pos not in dis:
                yield it, pos, None
                return
            n, t = dis[pos]
            while re.match(r"^(es|cs|ss|ds|rep|repe|repne)$", t) and pos + n in dis:      # a prefix on a line of its own
                n2, t2 = dis[pos + n]
                n, t = n + n2, t + " " + t2
            yield it, pos, (n, t)
            pos += n
    yield ("end",), pos, None
