"""Model of the game swar: the picture the rules give for every history of keys."""
import math

W, H = 320, 200
TW, TH, TUR = 9, 4, 6
YT = [(y >> 1) * 80 | (y & 1) << 13 for y in range(H)]

def s16(v): return ((v + 0x8000) & 0xffff) - 0x8000
# cosine in 1/256, quarter of a circle = 64 steps (the game's own table is truncated)
QUART = [int(256 * math.cos(math.pi * i / 128)) for i in range(65)]
QUART[0] = 256
def icos(a):
    a &= 255
    if a < 64: return QUART[a]
    if a <= 128: return -QUART[128 - a] if a != 64 else 0
    if a < 192: return -QUART[a - 128]
    return QUART[256 - a] if a != 192 else 0
def isin(a): return icos(a - 64)

class Tank:
    def __init__(self, x, y, ang, col): self.x, self.y, self.ang, self.pow, self.col = x, y, ang, 100, col

class Game:
    """vram: packed frame buffer after the start, font: 1024 bytes"""
    def __init__(self, pix, font, trace=False):
        self.p, self.font = pix, font          # pix: bytearray 64000 of colours
        self.over = None
        self.frames = [] if trace else None
        ys = []
        for x, col in ((20, 2), (300, 3)):
            col1 = [y for y in range(H) if pix[y * W + x] == col]
            rows = [y for y in range(H - 3) if all(pix[(y + k) * W + x + i] == col for k in range(TH) for i in range(TW))]
            if len(rows) != 1: raise ValueError("no tank of colour %d at its place" % col)
            ys.append(rows[0] - (TUR + 1))
        self.t = [Tank(20, ys[0], 32, 2), Tank(300, ys[1], 96, 3)]
        self.cur = 0
        self.shots = self.hits = self.moves = 0
    def snap(self):
        if self.frames is not None: self.frames.append(bytes(self.p))
    def put(self, x, y, c): self.p[y * W + x] = c
    def turret_pixels(self, t):
        tx, ty = (t.x + TW // 2) << 7, (t.y + TUR) << 7
        ca, sa = icos(t.ang) >> 1, -isin(t.ang) >> 1
        o = []
        for i in range(TUR):
            o.append(((tx >> 7) & 0x1ff, ty >> 7))
            tx += ca; ty += sa
        return o
    def text(self, x, y, s, fg, bg=0):
        for ch in s.encode():
            for cy in range(8):
                row = self.font[ch * 8 + cy]
                for cx in range(8): self.put(x + cx, y + cy, fg if row & (0x80 >> cx) else bg)
            x += 8
    def info(self):
        t = self.t[self.cur]
        self.text(0, 0, "Ang %3d  Pwr %3d" % (t.ang * 180 >> 7, t.pow), t.col)
    def check_start(self):
        """what must hold of the first picture"""
        p = self.p
        ref = bytearray(p)
        g = Game.__new__(Game); g.p, g.font, g.t, g.cur = ref, self.font, self.t, 0
        g.info()
        if ref != p: return "the information line of player 1 is not shown"
        for t in self.t:
            for x, y in self.turret_pixels(t):
                if p[y * W + x] != t.col: return "turret of tank %d is not drawn at (%d,%d)" % (t.col - 1, x, y)
        tank = set()
        for t in self.t:
            tank |= set(self.turret_pixels(t))
            tank |= {(t.x + i, t.y + TUR + 1 + k) for i in range(TW) for k in range(TH)}
        last = None
        for x in range(W):
            top = None
            for y in range(0, H):
                if y < 8 and x < 128: continue       # information line
                c = p[y * W + x]
                if (x, y) in tank: continue
                if c not in (0, 1): return "colour %d at (%d,%d)" % (c, x, y)
                if c == 1 and top is None: top = y
                if c == 0 and top is not None: return "hole in the ground at (%d,%d)" % (x, y)
            if top is None or not 20 <= top <= H - 20:
                if not any(q[0] == x for q in tank): return "height of the ground %s in column %d" % (top, x)
            clear = not any(q[0] == x for q in tank)
            if clear and last is not None and abs(top - last) > 3: return "step from %d to %d in column %d" % (last, top, x)
            last = top if clear else None
        for t in self.t:
            if p[(t.y + TUR + 1 + TH) * W + t.x + TW // 2] != 1: return "tank %d does not stand on the ground" % (t.col - 1)
        return None
    def fire(self):
        t = self.t[self.cur]
        ca, sa = icos(t.ang) >> 1, -isin(t.ang) >> 1
        tx = ((t.x + TW // 2) << 7) + ca * TUR
        ty = ((t.y + TUR) << 7) + sa * TUR
        q = lambda v: -(-v // 100) if v < 0 else v // 100
        ca, sa = q(ca * t.pow), q(sa * t.pow)
        lx, ly, ssa = -1, 0, 0
        self.shots += 1
        ins = lambda x, y: 0 <= x < W and 0 <= y < H
        n = 0
        while True:
            sx, sy = (tx >> 7) & 0x1ff, s16(ty) >> 7
            if sx >= W or sy >= H: break
            self.snap()
            n += 1
            if ins(lx, ly): self.put(lx, ly, 0)
            if ins(sx, sy):
                if sy > 8:
                    hit = self.p[sy * W + sx]
                    if hit:
                        self.put(sx, sy, 0)
                        self.steps = n
                        return hit
                self.put(sx, sy, 1)
            lx, ly = sx, sy
            tx += ca; ty += sa
            sa += ssa >> 10
            ssa += 5
        if ins(lx, ly): self.put(lx, ly, 0)
        self.steps = n
        return 0
    def key(self, ch):
        """-> True when the game is over"""
        if self.over: return True
        lo = ch & 0xff
        if lo == 27: self.over = "quit"; return True
        t = self.t[self.cur]
        if lo in (13, 32):
            hit = self.fire()
            if hit in (2, 3):
                self.over = "won"; self.hits += 1
                s = "Player %d wins!" % (4 - hit)
                self.text((W - 8 * len(s)) // 2, H // 2 - 4, s, hit ^ 1)
                self.snap()
                return False                # one more key
            self.cur ^= 1
            self.info()
            self.snap()
            return False
        ang = t.ang
        if ch == 0x4B00: ang += 1
        elif ch == 0x4D00: ang -= 1
        elif ch == 0x4800: t.pow = min(100, t.pow + 1)
        elif ch == 0x5000: t.pow = max(0, t.pow - 1)
        elif ch == 0x4900: t.pow = 100
        elif ch == 0x5100: t.pow = 0
        else: return False
        self.moves += 1
        if ang != t.ang:
            for x, y in self.turret_pixels(t): self.put(x, y, 0)
            t.ang = ang % 129
            for x, y in self.turret_pixels(t): self.put(x, y, t.col)
        self.info()
        self.snap()
        return False

def unpack(v):
    """packed frame buffer -> 64000 colours"""
    o = bytearray(W * H)
    for y in range(H):
        r = v[YT[y]:YT[y] + 80]
        o[y * W:(y + 1) * W] = b"".join(_U[b] for b in r)
    return o
_U = [bytes(((b >> 6) & 3, (b >> 4) & 3, (b >> 2) & 3, b & 3)) for b in range(256)]
