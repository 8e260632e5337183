"""Random 8086 programs made of the instructions sim86 implements."""

CORNERS = [0, 1, 2, 3, 7, 8, 15, 16, 17, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x7f00, 0x7f80, 0x7fff, 0x8000, 0x8001, 0x80ff, 0xff00, 0xff7f, 0xff80, 0xfffe, 0xffff]
SEGS = [0x2000, 0x2000, 0x2000, 0x1fff, 0x2001, 0x2100, 0x3000, 0x2800, 0x1800, 0x4000, 0xb800, 0xf000, 0xffff, 0xfff0, 0, 0x40]

def val(rng, w=1):
    v = rng.choice(CORNERS) if rng.random() < 0.6 else rng.randrange(65536) >> rng.choice([0, 0, 4, 8, 12])
    return v & (0xffff if w else 0xff)

def w16(v): return bytes([v & 255, v >> 8 & 255])

def modrm(rng, reg, mem=None, ptr=None):
    """reg field + random r/m operand; ptr: chance of a register operand"""
    isreg = rng.random() < 0.4 if mem is None else not mem
    if isreg: return bytes([0xc0 | reg << 3 | rng.randrange(8)])
    mod, rm = rng.randrange(3), rng.randrange(8)
    b = bytes([mod << 6 | reg << 3 | rm])
    if mod == 0 and rm == 6:
        a = rng.randrange(0x1800, 0xff00) if rng.random() < 0.85 else val(rng)
        return b + w16(a)
    if mod == 1: return b + bytes([val(rng, 0)])
    if mod == 2: return b + w16(val(rng))
    return b

def seg(rng, p=0.12): return bytes([rng.choice([0x26, 0x2e, 0x36, 0x3e])]) if rng.random() < p else b""

# name -> function(rng) -> bytes; one entry per instruction form
FORMS = {}
def form(*names):
    def d(f):
        for n in names: FORMS[n] = f
        return f
    return d
def _alu(op, k):
    def f(rng):
        o = op << 3 | k
        if k < 4: return seg(rng) + bytes([o]) + modrm(rng, rng.randrange(8))
        return bytes([o]) + (w16(val(rng)) if k & 1 else bytes([val(rng, 0)]))
    return f
for _o in range(8):
    for _k in range(6): FORMS["alu%d/%d" % (_o, _k)] = _alu(_o, _k)
    for _c in (0x80, 0x81, 0x82, 0x83):
        FORMS["%X/%d" % (_c, _o)] = lambda rng, c=_c, o=_o: seg(rng) + bytes([c]) + modrm(rng, o) + (w16(val(rng)) if c == 0x81 else bytes([val(rng, 0)]))
    for _c, _n in ((0x40, "inc"), (0x48, "dec"), (0x90, "xchg")):
        FORMS["%s%d" % (_n, _o)] = lambda rng, c=_c, o=_o: bytes([c | o])
    if _o != 4: FORMS["push%d" % _o] = lambda rng, o=_o: bytes([0x50 | o])    # PUSH SP differs between 8086 and 286
    FORMS["pop%d" % _o] = lambda rng, o=_o: bytes([0x58 | o])
    FORMS["movb%d" % _o] = lambda rng, o=_o: bytes([0xb0 | o, val(rng, 0)])
    FORMS["movw%d" % _o] = lambda rng, o=_o: bytes([0xb8 | o]) + w16(val(rng))
for _c in (0x88, 0x89, 0x8a, 0x8b): FORMS["mov%X" % _c] = lambda rng, c=_c: seg(rng, 0.2) + bytes([c]) + modrm(rng, rng.randrange(8))
FORMS["mov8C"] = lambda rng: seg(rng) + b"\x8c" + modrm(rng, rng.randrange(4))
FORMS["lea"] = lambda rng: seg(rng) + b"\x8d" + modrm(rng, rng.randrange(8), True)
def movseg(rng, sr):
    return b"\xb8" + w16(rng.choice(SEGS) if rng.random() < 0.9 else rng.randrange(65536)) + bytes([0x8e, 0xc0 | sr << 3])
FORMS["movES"] = lambda rng: movseg(rng, 0)
FORMS["movDS"] = lambda rng: movseg(rng, 3)
FORMS["movSS"] = lambda rng: movseg(rng, 2) if rng.random() < 0.3 else b"\x90"
FORMS["mov8E"] = lambda rng: seg(rng) + b"\x8e" + modrm(rng, rng.choice([0, 3, 0, 3, 2]), True) if rng.random() < 0.3 else b"\x90"
for _s in range(4):
    FORMS["pushs%d" % _s] = lambda rng, s=_s: bytes([6 | s << 3])
FORMS["pops"] = lambda rng: bytes([6 | rng.randrange(4) << 3, 7 | rng.choice([0, 0, 3, 2]) << 3])
FORMS["cbw"] = lambda rng: b"\x98"
FORMS["cwd"] = lambda rng: b"\x99"
for _c in (0xa0, 0xa1, 0xa2, 0xa3): FORMS["mov%X" % _c] = lambda rng, c=_c: seg(rng, 0.2) + bytes([c]) + w16(rng.randrange(0x1800, 0xff00) if rng.random() < 0.8 else val(rng))
def count(rng): return b"\xb9" + w16(rng.choice([0, 0, 1, 2, 3, 5, 16, 40, rng.randrange(300), rng.randrange(300)]) if rng.random() < 0.97 else val(rng))
def ptrs(rng):
    return (b"\xbf" + w16(rng.randrange(0x2000, 0xff00) if rng.random() < 0.9 else val(rng)) if rng.random() < 0.6 else b"") + \
           (b"\xbe" + w16(rng.randrange(0x2000, 0xff00) if rng.random() < 0.9 else val(rng)) if rng.random() < 0.6 else b"")
def pfx(rng, *p):
    s = seg(rng, 0.25)
    p = bytes(p)
    return p + s if rng.random() < 0.5 else s + p
FORMS["repmovsb"] = lambda rng: count(rng) + ptrs(rng) + pfx(rng, 0xf3) + b"\xa4"
FORMS["repmovsw"] = lambda rng: count(rng) + ptrs(rng) + pfx(rng, 0xf3) + b"\xa5"
FORMS["repecmpsb"] = lambda rng: count(rng) + ptrs(rng) + pfx(rng, 0xf3) + b"\xa6"
FORMS["repecmpsb="] = lambda rng: count(rng) + b"\xbf" + w16(rng.randrange(0x2000, 0xe000)) + b"\x89\xfe" + (b"\x46" if rng.random() < 0.3 else b"") + b"\xf3\xa6"
FORMS["repstosb"] = lambda rng: count(rng) + ptrs(rng) + pfx(rng, 0xf3) + b"\xaa"
FORMS["repstosw"] = lambda rng: count(rng) + ptrs(rng) + pfx(rng, 0xf3) + b"\xab"
FORMS["stosb"] = lambda rng: ptrs(rng) + seg(rng) + b"\xaa"
FORMS["stosw"] = lambda rng: ptrs(rng) + seg(rng) + b"\xab"
FORMS["lodsb"] = lambda rng: ptrs(rng) + seg(rng, 0.3) + b"\xac"
FORMS["lodsw"] = lambda rng: ptrs(rng) + seg(rng, 0.3) + b"\xad"
FORMS["repnescasb"] = lambda rng: count(rng) + ptrs(rng) + pfx(rng, 0xf2) + b"\xae"
FORMS["movC6"] = lambda rng: seg(rng) + b"\xc6" + modrm(rng, 0) + bytes([val(rng, 0)])
FORMS["movC7"] = lambda rng: seg(rng) + b"\xc7" + modrm(rng, 0) + w16(val(rng))
def loadrm(rng, w=1):
    """a register with a chosen value, or whatever an operand holds: (setup, r/m bytes builder)"""
    return b""
for _n in (4, 5, 7):
    FORMS["D1/%d" % _n] = lambda rng, n=_n: seg(rng) + b"\xd1" + modrm(rng, n)
    FORMS["D3/%d" % _n] = lambda rng, n=_n: (bytes([0xb1, rng.choice([0, 0, 1, 1, 2, 7, 8, 14, 15, 16, 17, 31]) if rng.random() < 0.8 else rng.randrange(32)])) + seg(rng) + b"\xd3" + modrm(rng, n)
for _n in (2, 3, 4, 5):
    FORMS["F7/%d" % _n] = lambda rng, n=_n: seg(rng) + b"\xf7" + modrm(rng, n)
def div(rng, idiv):
    """mostly divisions that do not overflow"""
    r = rng.choice([1, 3, 5, 6, 7])
    if rng.random() < 0.1: return seg(rng) + b"\xf7" + modrm(rng, 7 if idiv else 6)
    d = val(rng) or 1
    if idiv:
        ds = d - 65536 if d & 0x8000 else d
        q = rng.choice([0, 1, -1, 32767, -32768, -32767]) if rng.random() < 0.3 else rng.randrange(-32768, 32768)
        n = q * ds
        rem = rng.randrange(abs(ds)) if rng.random() < 0.7 else 0
        n += rem if n > 0 else -rem
        if not (-32768 <= int(abs(n) // abs(ds)) * (1 if (n < 0) == (ds < 0) else -1) <= 32767): n = q * ds
        if rng.random() < 0.4:                             # what CWD makes
            n = val(rng); n = n - 65536 if n & 0x8000 else n
            if n == -32768 and ds == -1: n = 5
    else:
        q = rng.choice([0, 1, 0xffff, 0x8000]) if rng.random() < 0.3 else rng.randrange(65536)
        n = q * d + rng.randrange(d)
        if rng.random() < 0.4: n = val(rng)
    n &= 0xffffffff
    mem = rng.random() < 0.3
    a = rng.randrange(0x1800, 0xff00)
    setup = b"\xb8" + w16(n) + b"\xba" + w16(n >> 16)
    if mem: return b"\x2e\xc7\x06" + w16(a) + w16(d) + setup + b"\x2e\xf7" + bytes([0x36 | (8 if idiv else 0)]) + w16(a)
    return bytes([0xb8 | r]) + w16(d) + setup + bytes([0xf7, 0xc0 | (7 if idiv else 6) << 3 | r])
FORMS["div"] = lambda rng: div(rng, False)
FORMS["idiv"] = lambda rng: div(rng, True)
FORMS["muls"] = lambda rng: b"\xb8" + w16(val(rng)) + b"\xb9" + w16(val(rng)) + bytes([0xf7, rng.choice([0xe1, 0xe9])])
for _c in (0xfe, 0xff):
    for _n in (0, 1): FORMS["%X/%d" % (_c, _n)] = lambda rng, c=_c, n=_n: seg(rng) + bytes([c]) + modrm(rng, n)
NAMES = sorted(FORMS)
CCS = [c for c in range(16) if c not in (10, 11)]

def implemented(op, modrm, rep, intno, ah):
    """Is this an instruction of the set above (which sim86 must execute)?"""
    reg = modrm >> 3 & 7 if modrm >= 0 else 0
    if op < 0x40: return (op & 7) < 6 or op in (6, 7, 0xe, 0x16, 0x17, 0x1e, 0x1f)
    if op < 0x60 or 0x90 <= op < 0x9a or 0xb0 <= op < 0xc0: return op not in (0x9a,)
    if 0x70 <= op < 0x80: return op not in (0x7a, 0x7b)
    if op in (0x80, 0x81, 0x82, 0x83, 0x88, 0x89, 0x8a, 0x8b, 0xa0, 0xa1, 0xa2, 0xa3, 0xc3, 0xe8, 0xe9, 0xeb): return True
    if op == 0x8c: return reg < 4
    if op == 0x8e: return reg in (0, 2, 3)
    if op == 0x8d: return modrm < 0xc0
    if op in (0xa4, 0xa5, 0xa6): return rep == 0xf3
    if op in (0xaa, 0xab): return rep in (0, 0xf3)
    if op in (0xac, 0xad): return rep == 0
    if op == 0xae: return rep == 0xf2
    if op in (0xc6, 0xc7): return reg == 0
    if op in (0xd1, 0xd3): return reg in (4, 5, 7)
    if op == 0xf7: return 2 <= reg
    if op == 0xfe: return reg < 2
    if op == 0xff: return reg < 3
    if op == 0xcd: return intno == 0x20 or (intno == 0x21 and ah in (2, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x4c))
    return False

class Asm:
    """chunks with labels"""
    def __init__(self): self.items, self.n = [], 0
    def new(self): self.n += 1; return self.n
    def b(self, x): self.items.append(x)
    def l(self, lab): self.items.append(("l", lab))
    def j8(self, op, lab): self.items.append(("j8", op, lab))
    def j16(self, op, lab): self.items.append(("j16", op, lab))
    def a16(self, pre, lab): self.items.append(("a16", pre, lab))       # address of a label as a word operand
    def link(self, org=0x100):
        pos, at, out = org, {}, b""
        for x in self.items:
            if isinstance(x, bytes): pos += len(x)
            elif x[0] == "l": at[x[1]] = pos
            elif x[0] == "j8": pos += 2
            elif x[0] == "j16": pos += 3
            else: pos += len(x[1]) + 2
        pos = org
        for x in self.items:
            if isinstance(x, bytes): out += x; pos += len(x)
            elif x[0] == "l": pass
            elif x[0] == "j8":
                d = at[x[2]] - pos - 2
                assert -128 <= d < 128, d
                out += bytes([x[1], d & 255]); pos += 2
            elif x[0] == "j16": out += bytes([x[1]]) + w16(at[x[2]] - pos - 3); pos += 3
            else: out += x[1] + w16(at[x[2]]); pos += len(x[1]) + 2
        return out

def dump(a, code):
    """end of a program: all memory to the file D, exit with `code`"""
    a.b(b"\x8c\xc8\x8e\xd0\xbc\xf0\xff\x8e\xd8")                          # AX=CS SS=AX SP=FFF0 DS=AX
    a.b(b"\xc7\x06\x90\x00D\x00\xb4\x3c\xba\x90\x00\x31\xc9\xcd\x21\x89\xc3\x31\xf6")
    top = a.new(); a.l(top)
    a.b(b"\x89\xf0\x8e\xd8\xb4\x40\xb9\x00\x80\x31\xd2\xcd\x21\x81\xc6\x00\x08")
    a.j8(0x75, top)
    a.b(b"\xb8" + bytes([code, 0x4c]) + b"\xcd\x21")

def program(rng, n, names=None, pre=b""):
    names = names or NAMES
    a = Asm()
    subs = []
    a.b(pre)
    for r in (0, 1, 2, 3, 5, 6, 7):
        a.b(bytes([0xb8 | r]) + w16(rng.randrange(0x2000, 0xf000) if r in (3, 5, 6, 7) and rng.random() < 0.6 else val(rng)))
    def body(n, lvl):
        k = 0
        while k < n:
            k += 1
            x = rng.random()
            if x < 0.06:
                lab, op = a.new(), 0x70 | rng.choice(CCS)
                a.j8(op if rng.random() < 0.9 else 0xeb, lab)
                size = 0
                for _ in range(rng.randrange(1, 4)):
                    b = FORMS[rng.choice(names)](rng)
                    if size + len(b) > 120: break
                    a.b(b); size += len(b)
                a.l(lab)
            elif x < 0.07:
                lab = a.new()
                a.j16(0xe9, lab)
                a.b(rng.randbytes(rng.randrange(1, 200)))
                a.l(lab)
            elif x < 0.10 and lvl < 2:
                lab = a.new()
                subs.append((lab, lvl + 1))
                y = rng.random()
                if y < 0.6: a.j16(0xe8, lab)
                elif y < 0.8:
                    r = rng.choice([0, 1, 2, 3, 5, 6, 7])
                    a.a16(bytes([0xb8 | r]), lab); a.b(bytes([0xff, 0xd0 | r]))
                else:
                    ad = rng.randrange(0x2000, 0xff00)
                    a.a16(b"\x2e\xc7\x06" + w16(ad), lab); a.b(b"\x2e\xff\x16" + w16(ad))
            elif x < 0.12:                                 # loop backwards
                top = a.new()
                a.b(b"\xb9" + w16(rng.randrange(1, 5))); a.l(top)
                size = 0
                for _ in range(rng.randrange(1, 5)):
                    b = FORMS[rng.choice(names)](rng)
                    if size + len(b) > 100: break
                    a.b(b); size += len(b)
                # the body may change CX: a countdown in memory ends the loop anyway
                ad = rng.randrange(0x1800, 0x2000)
                a.b(b"\x2e\xfe\x0e" + w16(ad) + b"\x2e\x80\x26" + w16(ad) + b"\x03")
                a.j8(0x75, top)
            else:
                a.b(FORMS[rng.choice(names)](rng))
    body(n, 0)
    dump(a, rng.randrange(256))
    i = 0
    while i < len(subs):
        lab, lvl = subs[i]; i += 1
        a.l(lab)
        # push/pop would lose the return address: keep it in memory and put it back
        ad = rng.randrange(0x1400, 0x1800) & ~1
        if rng.random() < 0.5:
            k = rng.randrange(1, 8)
            for _ in range(k):
                nm = rng.choice(names)
                while nm.startswith(("push", "pop")) or "movSS" in nm or "8E" in nm: nm = rng.choice(names)
                a.b(FORMS[nm](rng))
        else:
            body(rng.randrange(1, 6), lvl)
        a.b(b"\xc3")
    code = a.link()
    size = rng.choice([len(code), 0xfe00, rng.randrange(len(code), 0xfe00), 65280])
    size = max(size, len(code))
    return code + rng.randbytes(size - len(code))
