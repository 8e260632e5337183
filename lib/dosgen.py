"""Programs that exercise the DOS services sim86 offers, and keep a log of every result."""
import simgen
from simgen import Asm, w16

LOG = 0x8000            # results of calls (4 bytes each) and what the program finds at start
BUF = 0xA000            # transfers; up to 0xF000
NAMES = 0x6000

class Gen:
    def __init__(self, rng, stdin=False, handles=True, maxlen=0x5000):
        self.rng, self.a, self.nlog, self.stdin, self.handles, self.maxlen = rng, Asm(), 0, stdin, handles, maxlen
        self.slots = []           # (slot address, kind, number)
        self.names = {}
        self.data = bytearray(rng.randbytes(0x6000))        # 0x6000.. names, filler
        self.npos = 0
        self.stats = {}
        self.open = 0
    def count(self, k): self.stats[k] = self.stats.get(k, 0) + 1
    def name(self, n):
        if n not in self.names:
            self.names[n] = NAMES + self.npos
            b = n + b"\0"
            self.data[self.npos:self.npos + len(b)] = b
            self.npos += len(b)
        return self.names[n]
    def log_ax(self, what="both"):
        """AX and carry to the log. AX is undefined after an error, and a handle is only a name"""
        p = LOG + 4 * self.nlog
        self.nlog += 1
        a = self.a
        ok = a.new(); done = a.new()
        if what == "both":
            a.j8(0x73, ok)                                   # JNC
            a.b(b"\xc7\x06" + w16(p + 2) + b"\x01\xee")      # error
            a.j8(0xeb, done)
            a.l(ok)
            a.b(b"\xa3" + w16(p) + b"\xc7\x06" + w16(p + 2) + b"\x00\x00")
            a.l(done)
        elif what == "flag":
            a.b(b"\x19\xc0\xa3" + w16(p + 2))                # SBB AX,AX
        elif what == "ax":
            a.b(b"\xa3" + w16(p))
    def noise(self):
        """carry may be anything before a call"""
        rng, a = self.rng, self.a
        if rng.random() < 0.5: a.b(rng.choice([b"\x31\xc0", b"\xb8\xff\xff\x05\x02\x00", b"\xb0\xff\x04\x01", b"\x83\xe9\x00"]))
        if rng.random() < 0.2: a.b(b"\xbe" + w16(rng.randrange(65536)))
    def call(self, ah, al=None):
        self.a.b((b"\xb4" + bytes([ah]) if al is None else b"\xb8" + bytes([al, ah])) + b"\xcd\x21")
    def start(self):
        a = self.a
        for b in (b"\x8c\xc8", b"\x8c\xd8", b"\x8c\xc0", b"\x8c\xd0", b"\x89\xe0", b"\xa1\x00\x00", b"\x58\x50"):
            # CS DS ES SS SP [0] top of stack
            a.b(b); self.log_ax("ax")
        # the command tail: count, text, return
        a.b(b"\xbe\x80\x00\xbf" + w16(LOG + 0x800) + b"\xb9\x80\x00")
        top, end = a.new(), a.new()
        a.l(top)
        a.b(b"\x8a\x04\x88\x05\x46\x47\x49")                  # MOV AL,[SI] MOV [DI],AL INC SI INC DI DEC CX
        a.j8(0x74, end)
        a.b(b"\x81\xfe\x81\x00"); a.j8(0x74, top)             # right after the count
        a.b(b"\x80\x3d\x00")                                  # (flags only)
        a.b(b"\x3c\x0d"); a.j8(0x75, top)
        a.l(end)
    def putc(self, s=None):
        for ch in s if s is not None else self.rng.choice([b"A", b"\n", b"\r\n", b"\0", b"\x1a", b"\xff\x80", b"%s%d", self.rng.randbytes(3), b"hello "]):
            self.noise()
            self.a.b(b"\xb2" + bytes([ch])); self.call(2)
            self.count("putc")
    def handle(self, slot): self.a.b(b"\x8b\x1e" + w16(slot))
    def opener(self, ah, name, ok):
        slot = 0x5000 + 2 * len(self.slots)
        self.noise()
        self.a.b(b"\xba" + w16(self.name(name)) + b"\x31\xc9")
        if self.rng.random() < 0.5: self.a.b(b"\x05\x01\x00")
        self.call(ah, 0)
        self.a.b(b"\xa3" + w16(slot))
        self.log_ax("flag")
        self.count("create" if ah == 0x3c else "open")
        if ok:
            self.slots.append([slot, ah, True]); self.open += 1
            return self.slots[-1]
        self.count("open fails")
    def transfer(self, ah, slot, n, at):
        self.noise()
        self.a.b(b"\xb9" + w16(n) + b"\xba" + w16(at))
        if isinstance(slot, int): self.a.b(b"\xbb" + w16(slot))
        else: self.handle(slot[0])
        if self.rng.random() < 0.5: self.a.b(b"\xb8\xff\xff\x05\x01\x00")   # carry set
        self.call(ah)
        self.log_ax()
        self.count("read" if ah == 0x3f else "write")
    def close(self, slot):
        self.noise()
        if isinstance(slot, int): self.a.b(b"\xbb" + w16(slot))
        else: self.handle(slot[0])
        if self.rng.random() < 0.5: self.a.b(b"\xb8\xff\xff\x05\x01\x00")
        self.call(0x3e)
        self.log_ax("flag")
        self.count("close")

def program(rng, files, ops=None, end=None, stdin=False, bad=True, maxlen=0x5000, start=True):
    """files: names -> size. Returns (com bytes, log entries, stats, output expected so far is not modelled here)"""
    g = Gen(rng, stdin, maxlen=maxlen)
    a = g.a
    if start: g.start()
    exist = set(files)
    def size():
        return min(maxlen, rng.choice([0, 1, 2, 16, 511, 512, 513, 4096, rng.randrange(600), rng.randrange(0x5000)]))
    for _ in range(ops or rng.randrange(5, 40)):
        x = rng.random()
        live = [s for s in g.slots if s[2]]
        if x < 0.25: g.putc()
        elif x < 0.40 and g.open < 12:
            y = rng.random()
            if y < 0.45:
                n = rng.choice([b"OUT", b"out.txt", b"a", b"x" * rng.choice([8, 20, 63, 64, 65, 100, 126]), b"F%d.DAT" % rng.randrange(4)])
                if n not in files or rng.random() < 0.3:
                    g.opener(0x3c, n, True); exist.add(n)
            elif y < 0.85 and exist: g.opener(0x3d, rng.choice(sorted(exist)), True)
            else: g.opener(0x3d, rng.choice([b"none", b"NO.SUCH", b"y" * 126, b"no dir"]), False)
        elif x < 0.6 and live:
            s = rng.choice(live)
            g.transfer(0x3f if s[1] == 0x3d else 0x40, s, size(), BUF + rng.randrange(0, 0x100))
        elif x < 0.66: g.transfer(0x40, 1, size() if rng.random() < 0.8 else 3, rng.choice([NAMES, BUF]))
        elif x < 0.70 and bad:
            y = rng.random()
            if y < 0.3: g.transfer(rng.choice([0x3f, 0x40]), rng.choice([25, 31, 200, 0x7777, 0xffff, 0x8000]), rng.choice([1, 5, 100]), BUF)
            elif y < 0.5: g.close(rng.choice([25, 31, 200, 0x7777, 0xffff]))
            elif live:
                s = rng.choice(live)
                if s[1] == 0x3d: g.transfer(0x40, s, rng.choice([1, 100]), BUF)     # write to a file opened for reading
        elif x < 0.75 and stdin: g.transfer(0x3f, 0, rng.choice([1, 10, 200, 1000]), BUF + 0x3000)
        elif x < 0.85 and live:
            s = rng.choice(live)
            g.close(s); s[2] = False; g.open -= 1
            # a closed handle number is given out again: no use after this unless nothing was opened since
            if bad and rng.random() < 0.3:
                if rng.random() < 0.5: g.close(s)
                else: g.transfer(rng.choice([0x3f, 0x40]), s, 5, BUF)
        else: a.b(simgen.FORMS[rng.choice(["movw0", "movw1", "cbw", "cwd", "alu0/5", "inc0"])](rng))
    # the log
    g.opener(0x3c, b"LOG", True)
    g.transfer(0x40, g.slots[-1], 0xF000 - LOG, LOG)
    end = end or rng.choice(["exit", "exit", "int20", "ret", "jmp0"])
    if end == "exit": a.b(b"\xb8" + bytes([rng.randrange(256), 0x4c]) + b"\xcd\x21")
    elif end == "int20": a.b(b"\xcd\x20")
    elif end == "ret": a.b(b"\xc3")
    elif end == "jmp0":
        code = a.link()
        a.b(b"\xe9" + w16(-(0x100 + len(code) + 3)))
    elif isinstance(end, bytes): a.b(end)
    code = a.link()
    assert len(code) < 0x4f00, len(code)
    img = code + rng.randbytes(0x5000 - 0x100 - len(code)) + bytes(0x1000) + bytes(g.data)
    img = img[:NAMES - 0x100] + bytes(g.data)
    return img, g
