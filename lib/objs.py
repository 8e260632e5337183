"""Random objects and access paths. The generator executes each statement on a
concrete byte memory while writing it, so every index and pointer used is known
to be inside its object and the expected memory is exact."""
from cgen import *

PELEM = lambda t: t[1]

class Obj:
    __slots__ = ("name", "t", "addr", "store", "ro")
    def __init__(self, name, t, addr, store):
        self.name, self.t, self.addr, self.store, self.ro = name, t, addr, store, False

class OG:
    def __init__(self, rng):
        self.r = rng
        self.p = Prog(rng)
        self.m = bytearray(65536)
        self.top = 0x200
        self.reg = {}        # (addr, type) -> (base, count, index)
        self.rev = {}        # obj addr -> keys (to unregister)
        self.out = []
        self.log = []
        self.where = []
        self.used = set()
        self.keys = set()
        self.ops = 0
        self.globals = []
        self.depth = 0

    # ---- memory
    def size(self, t): return self.p.size(t)
    def rd(self, t, a):
        m = self.m
        k = t[0]
        if k == "i": return I(m[a] | m[a + 1] << 8)
        if k in "up": return m[a] | m[a + 1] << 8
        if k == "c": return C8(m[a])
        return m[a]
    def mark(self): return len(self.log), set(self.used), len(self.out)
    def undo(self, k):
        n, u, o = k
        while len(self.log) > n:
            a, x, y = self.log.pop()
            self.m[a], self.m[a + 1] = x, y
        self.used = u
        del self.out[o:]
    def find(self, pred, want=None, leaf=False):
        for _ in range(20):
            k = self.mark()
            n = self.lval(want, leaf)
            if n and pred(n): return n
            self.undo(k)
        return None
    def wr(self, t, a, v):
        self.log.append((a, self.m[a], self.m[a + 1]))
        if t[0] in "iup":
            self.m[a], self.m[a + 1] = v & 255, v >> 8 & 255
        else:
            self.m[a] = v & 255
        return self.rd(t, a)
    def P(self, v): self.out.append("%04X\n" % (v & 0xffff))

    def register(self, t, a, base, count, idx, keys):
        key = (a, t)
        self.reg.setdefault(key, (base, count, idx))
        keys.append(key)
        if t[0] == "a":
            z = self.size(t[1])
            for i in range(t[2]):
                self.register(t[1], a + i * z, a, t[2], i, keys)
        elif t[0] == "s":
            for n, mt in self.p.structs[t[1]]["members"]:
                off, _ = self.p.member_off(t[1], n)
                self.register(mt, a + off, a + off, 1, 0, keys)

    def alloc(self, name, t, store):
        z = self.size(t)
        a = self.top
        self.top += z + 40 + (z & 1)
        if self.top > 64000: raise TooLong()
        o = Obj(name, t, a, store)
        keys = self.rev[a] = []
        self.register(t, a, a, 1, 0, keys)
        return o

    def kill(self, o):
        for k in self.rev.pop(o.addr): self.reg.pop(k, None)

    # ---- types
    def has_ptr(self, t):
        if t[0] == "p": return True
        if t[0] == "a": return self.has_ptr(t[1])
        if t[0] == "s": return any(self.has_ptr(x) for _, x in self.p.structs[t[1]]["members"])
        return False

    def scalar(self): return self.r.choice([INT, INT, UINT, CHAR, CHAR, UCHAR])

    def rtype(self, depth=0, ptr=True, inunion=False):
        r = self.r
        c = r.random()
        if depth > 2 or c < 0.3: return self.scalar()
        if c < 0.55:
            n = r.choice([1, 2, 3, 4, 5, 7, 8])
            return Arr(self.rtype(depth + 1, ptr, inunion), n)
        if c < 0.75 and self.structs_ok(inunion):
            return Struct(r.choice(self.structs_ok(inunion)))
        if ptr and not inunion: return Ptr(self.ptarget())
        return self.scalar()

    def structs_ok(self, inunion):
        return [k for k in range(len(self.p.structs)) if self.p.structs[k].get("done") and not (inunion and self.has_ptr(Struct(k)))]

    def ptarget(self):
        r = self.r
        c = r.random()
        if c < 0.5 or not self.p.structs: 
            t = self.scalar()
            if c < 0.1: t = Ptr(t)
            return t
        k = r.randrange(len(self.p.structs))
        t = Struct(k)
        if r.random() < 0.12: t = Ptr(t)
        return t

    def make_structs(self):
        r = self.r
        texts = []
        for k in range(r.choice([0, 1, 2, 3, 4])):
            un = r.random() < 0.3
            s = dict(name="S%d" % k, union=un, members=[], done=False)
            self.p.structs.append(s)
            for i in range(r.choice([1, 2, 2, 3, 4, 5])):
                t = self.rtype(1, True, un)
                if self.size(t) > 60: t = self.scalar()
                n = "m%d" % (i if r.random() < 0.8 else i + 10 * k)
                s["members"].append((n, t))
            s["done"] = True
            texts.append(self.p.struct_def(k))
        return "".join(texts)

    # ---- expressions with known value
    def ints(self):
        for o in self.scope:
            if o.t[0] in "iucb": yield o

    def index(self, lo, hi):
        """C text of an int expression whose value is in [lo, hi]; returns (text, value)."""
        r = self.r
        v = r.randint(lo, hi)
        c = r.random()
        if c < 0.45: return self.lit(v), v
        vs = list(self.ints())
        if vs:
            o = r.choice(vs)
            x = self.rd(o.t, o.addr)
            if lo <= x <= hi and c < 0.7: return o.name, x
            d = v - x
            if -32768 < d < 32768:
                if c < 0.8: return "%s %s %d" % (o.name, "+" if d >= 0 else "-", abs(d)), v
                if c < 0.9: return "%s + %s" % (self.lit(d, True), o.name), v
        if 0.9 <= c < 0.95 and self.tmp and "t0" not in self.used and v > -32768:
            # an index with a side effect, on a variable nothing else in the statement reads
            self.wr(INT, self.tmp.addr, v)
            self.used.add("t0")
            return "t0 = %s" % self.lit(v), v
        if c < 0.97: return "g(%s)" % self.lit(v), v
        return self.lit(v), v

    def lit(self, v, par=False):
        return "%d" % v if v >= 0 else "(%d)" % v if par else "%d" % v

    def busy(self, o): return o.name in self.used
    def use(self, o): self.used.add(o.name)

    # ---- lvalues
    def elems(self, t, a):
        return self.reg.get((a, t))

    def lval(self, want=None, leaf=True, depth=0):
        """A path: (text, type, addr, prec, shape). prec 15 = postfix, 14 = unary."""
        r = self.r
        for _ in range(60):
            o = r.choice(self.scope)
            if o.t[0] == "s" and o.store == "tmp": continue
            k = self.mark()
            n = self.walk((o.name, o.t, o.addr, 16, o.store[0]), want, leaf)
            if n: return n
            self.undo(k)
        return None

    def post(self, n):
        return n[0] if n[3] >= 15 else "(" + n[0] + ")"

    def walk(self, n, want, leaf):
        r = self.r
        for _ in range(12):
            text, t, a, prec, sh = n
            if want is not None:
                if t == want and (t[0] not in "as" or r.random() < 0.8): return n
            elif leaf:
                if t[0] in "iucb": return n
                if t[0] == "p" and r.random() < 0.3: return n
            elif r.random() < 0.4: return n
            k = t[0]
            if k in "iucb": return n if want is None or want == t else None
            if k == "a":
                z, et = self.size(t[1]), t[1]
                c = r.random()
                if c < 0.7:
                    e, v = self.index(0, t[2] - 1)
                    n = ("%s[%s]" % (self.post(n), e), et, a + v * z, 15, sh + "[%s]" % ("k" if e.lstrip("-").isdigit() else "e"))
                elif et[0] == "a":
                    e, v = self.index(0, t[2] - 1)
                    n = ("%s[%s]" % (self.post(n), e), et, a + v * z, 15, sh + "[]")
                elif c < 0.76:
                    n = ("*%s" % (text if prec >= 14 else "(%s)" % text), et, a, 14, sh + "*")
                elif c < 0.86:
                    e, v = self.index(0, t[2] - 1)
                    n = ("*(%s + %s)" % (self.post(n), self.pe(e)), et, a + v * z, 14, sh + "*+")
                elif c < 0.9:
                    e, v = self.index(0, t[2] - 1)
                    n = ("*(%s + %s)" % (self.pe(e), self.post(n)), et, a + v * z, 14, sh + "+*")
                elif c < 0.95:
                    b = r.randrange(t[2])
                    e, v = self.index(-b, t[2] - 1 - b)
                    n = ("(&%s[%d])[%s]" % (self.post(n), b, e), et, a + (b + v) * z, 15, sh + "&[]")
                elif et[0] == "s" and self.p.structs[et[1]]["members"]:
                    mn, mt = r.choice(self.p.structs[et[1]]["members"])
                    off, _ = self.p.member_off(et[1], mn)
                    e, v = self.index(0, t[2] - 1)
                    n = ("(%s + %s)->%s" % (self.post(n), self.pe(e), mn), mt, a + v * z + off, 15, sh + "+->")
                else:
                    e, v = self.index(0, t[2] - 1)
                    n = ("%s[%s]" % (self.post(n), e), et, a + v * z, 15, sh + "[]")
            elif k == "s":
                mem = self.p.structs[t[1]]["members"]
                if not mem: return None
                if r.random() < 0.12:
                    mn, mt = r.choice(mem)
                    off, _ = self.p.member_off(t[1], mn)
                    n = ("(&%s)->%s" % (self.un(n), mn), mt, a + off, 15, sh + "&->")
                else:
                    mn, mt = r.choice(mem)
                    off, _ = self.p.member_off(t[1], mn)
                    n = ("%s.%s" % (self.post(n), mn), mt, a + off, 15, sh + ".%d" % min(off, 3))
            else:
                et = t[1]
                pv = self.rd(t, a)
                e0 = self.elems(et, pv)
                if e0 is None: return None
                base, cnt, idx = e0
                z = self.size(et)
                c = r.random()
                if et[0] == "s" and c < 0.5 and self.p.structs[et[1]]["members"]:
                    mn, mt = r.choice(self.p.structs[et[1]]["members"])
                    off, _ = self.p.member_off(et[1], mn)
                    d = r.random()
                    if d < 0.6:
                        n = ("%s->%s" % (self.post(n), mn), mt, pv + off, 15, sh + "->")
                    elif d < 0.75:
                        n = ("(*%s).%s" % (self.un(n), mn), mt, pv + off, 15, sh + "*.")
                    else:
                        e, v = self.index(-idx, cnt - 1 - idx)
                        n = ("(%s + %s)->%s" % (self.post(n), self.pe(e), mn), mt, pv + v * z + off, 15, sh + "+->")
                elif c < 0.65:
                    n = ("*%s" % self.un(n), et, pv, 14, sh + "*")
                elif c < 0.85:
                    e, v = self.index(-idx, cnt - 1 - idx)
                    n = ("%s[%s]" % (self.post(n), e), et, pv + v * z, 15, sh + "p[%s]" % ("k" if e.lstrip("-").isdigit() else "e"))
                elif c < 0.93:
                    e, v = self.index(-idx, cnt - 1 - idx)
                    n = ("*(%s + %s)" % (self.post(n), self.pe(e)), et, pv + v * z, 14, sh + "*p+")
                elif c < 0.96:
                    v = r.randint(idx - cnt + 1, idx)
                    n = ("*(%s - %s)" % (self.post(n), self.lit(v, True)), et, pv - v * z, 14, sh + "*p-")
                elif not self.busy_addr(a) and idx + 1 <= cnt:
                    up = r.random() < 0.5 or idx == 0
                    d = z if up else -z
                    pre = r.random() < 0.5 and 0 <= idx + (1 if up else -1) < cnt
                    self.touch(a)
                    self.wr(t, a, pv + d)
                    q = "++" if up else "--"
                    n = (("*%s%s" % (q, self.un(n)) if pre else "*%s%s" % (self.post(n), q)), et, pv + (d if pre else 0), 14, sh + "*p++")
                else:
                    return None
        return None

    def un(self, n): return n[0] if n[3] >= 14 else "(" + n[0] + ")"
    def pe(self, e): return e if e.lstrip("-").isdigit() or e.isidentifier() else "(%s)" % e
    def busy_addr(self, a): return bool(self.used) 
    def touch(self, a): self.used.add("@%d" % a)

    # ---- statements: text; state already changed
    def value(self, depth=0):
        """int-valued expression (text, value, prec)"""
        r = self.r
        c = r.random()
        if c < 0.3:
            v = r.choice(INTERESTING) * r.choice([1, 1, -1])
            return self.lit(v), v
        n = self.lval()
        if not n or n[1][0] == "p": return "5", 5
        v = self.rd(n[1], n[2])
        self.keys.add(("rd", n[4], n[1][0]))
        if c < 0.6 or depth > 1: return n[0], v
        e, w = self.value(depth + 1)
        return "%s + %s" % (self.un(n), "(%s)" % e), v + w

    def ptrval(self, t):
        """Expression of pointer type t: (text, address)"""
        r = self.r
        et = t[1]
        c = r.random()
        if c < 0.06: return "0", 0
        if c < 0.5:
            n = self.lval(et, False)
            if n and not self.local_escape(n): return "&%s" % self.un(n), n[2]
        if c < 0.75:
            for _ in range(30):
                k = r.randrange(1, 8)
                n = self.lval(Arr(et, k), False)
                if n:
                    if r.random() < 0.5: return n[0], n[2]
                    e, v = self.index(0, k)
                    return "%s + %s" % (self.post(n), self.pe(e)), n[2] + v * self.size(et)
        n = self.lval(t, False)
        if n:
            pv = self.rd(t, n[2])
            e0 = self.elems(et, pv)
            if e0 and r.random() < 0.5:
                base, cnt, idx = e0
                e, v = self.index(-idx, cnt - idx)
                return "%s + %s" % (self.un(n), self.pe(e)), pv + v * self.size(et)
            return n[0], pv
        n = self.lval(et, False)
        if n: return "&%s" % self.un(n), n[2]
        return "0", 0

    def local_escape(self, n): return False

    def stmt(self):
        r = self.r
        self.used = set()
        for _ in range(20):
            self.used = set()
            self.log = []
            k = self.mark()
            s = self.stmt1()
            if s:
                self.ops += 1
                self.where.append((len(self.out), s))
                return "    " + s + "\n"
            self.undo(k)
        return "    ;\n"

    def stmt1(self):
        r = self.r
        c = r.random()
        if c < 0.30:
            # scalar store: the value is a constant or an independent read, the target path comes first
            n = self.lval()
            if not n or n[1][0] == "p": return None
            side = bool(self.used)
            self.keys.add(("st", n[4], n[1][0]))
            if side: v = r.choice(INTERESTING); e = self.lit(v)
            else: e, v = self.value()
            if self.used and not side: 
                # the value changed something the path may have read
                return None
            self.wr(n[1], n[2], v)
            return "%s = %s;" % (n[0], e)
        if c < 0.42:
            n = self.lval()
            if not n or n[1][0] == "p" or self.used: return None
            op = r.choice(["++", "--", "+=", "-=", "^=", "|=", "&="])
            old = self.rd(n[1], n[2])
            self.keys.add(("up" + op, n[4], n[1][0]))
            if op in ("++", "--"):
                new = self.wr(n[1], n[2], old + (1 if op == "++" else -1))
                if r.random() < 0.5:
                    self.P(old); return "P(%s%s);" % (self.post(n), op)
                self.P(new); return "P(%s%s);" % (op, self.un(n))
            e, v = self.value()
            if self.used: return None
            old = self.rd(n[1], n[2])
            self.wr(n[1], n[2], {"+=": old + v, "-=": old - v, "^=": old ^ v, "|=": old | v, "&=": old & v}[op])
            return "%s %s %s;" % (n[0], op, e)
        if c < 0.58:
            n = self.lval()
            if not n or n[1][0] == "p": return None
            self.keys.add(("rd", n[4], n[1][0]))
            self.P(self.rd(n[1], n[2]))
            return "P(%s);" % n[0]
        if c < 0.76:
            # pointer assignment
            ts = [o for o in self.scope if self.has_ptr(o.t)]
            if not ts: return None
            n = self.walk((lambda o: (o.name, o.t, o.addr, 16, o.store[0]))(r.choice(ts)), None, True)
            if not n or n[1][0] != "p" or self.used: return None
            t = n[1]
            d = r.random()
            if d < 0.65:
                e, v = self.ptrval(t)
                if self.used: return None
                self.wr(t, n[2], v)
                self.keys.add(("pst", n[4]))
                return "%s = %s;" % (n[0], e)
            pv = self.rd(t, n[2])
            e0 = self.elems(t[1], pv)
            if not e0: return None
            base, cnt, idx = e0
            z = self.size(t[1])
            if d < 0.8:
                q = r.choice(["++", "--"])
                dv = 1 if q == "++" else -1
                if not 0 <= idx + dv <= cnt: return None
                self.wr(t, n[2], pv + dv * z)
                self.keys.add(("p" + q, n[4], t[1][0]))
                return ("%s%s;" % (self.post(n), q)) if r.random() < 0.5 else "%s%s;" % (q, self.un(n))
            e, v = self.index(-idx, cnt - idx)
            if self.used: return None
            self.keys.add(("p+=", n[4], t[1][0]))
            if d < 0.9:
                self.wr(t, n[2], pv + v * z)
                return "%s += %s;" % (n[0], e)
            v = r.randint(idx - cnt, idx)
            self.wr(t, n[2], pv - v * z)
            return "%s -= %s;" % (n[0], self.lit(v))
        if c < 0.84:
            # struct assignment
            so = [o for o in self.scope if self.contains_struct(o.t)]
            if not so: return None
            k = r.choice([k for o in so for k in self.contains_struct(o.t)])
            a = self.lval(Struct(k), False)
            b = self.lval(Struct(k), False)
            if not a or not b or self.used: return None
            z = self.size(Struct(k))
            if a[2] != b[2] and abs(a[2] - b[2]) < z: return None
            self.m[a[2]:a[2] + z] = self.m[b[2]:b[2] + z]
            self.keys.add(("s=", a[4], b[4]))
            return "%s = %s;" % (a[0], b[0])
        if c < 0.9:
            # pointer comparison and difference inside one array
            n = self.find(lambda n: n[1][0] == "a" and n[1][1][0] != "a")
            if not n: return None
            t, cnt = n[1], n[1][2]
            i, j = r.randint(0, cnt), r.randint(0, cnt)
            if self.used: return None
            f = r.choice(["&%s[%d]" % (self.post(n), i), "%s + %d" % (self.post(n), i), "(%s + %d)" % (self.post(n), i)])
            g = r.choice(["&%s[%d]" % (self.post(n), j), "(%s + %d)" % (self.post(n), j)])
            op = r.choice(["-", "<", ">", "<=", ">=", "==", "!="])
            self.P({"-": i - j, "<": i < j, ">": i > j, "<=": i <= j, ">=": i >= j, "==": i == j, "!=": i != j}[op])
            self.keys.add(("pc" + op, n[4], t[1][0]))
            e = "%s %s %s" % (f, op, g)
            return "P(%s);" % e if op == "-" else "P(%s ? 1 : 0);" % e
        if c < 0.95:
            d = r.random()
            if d < 0.4:
                t = self.rtype()
                if t[0] == "a" or t[0] == "p" and t[1][0] == "p": t = self.scalar()
                self.P(self.size(t))
                return "P(sizeof(%s));" % self.p.decl(t, "").strip()
            n = self.lval(None, False)
            if not n: return None
            if "=" in n[0] or "++" in n[0] or "--" in n[0]: return None
            self.P(self.size(n[1]))
            self.keys.add(("sz", n[4]))
            return "P(sizeof(%s));" % n[0] if d < 0.8 else "P(sizeof %s);" % (n[0] if n[0].replace("_", "").isalnum() else "(" + n[0] + ")")
        # loop over an array
        n = self.find(lambda n: n[1][0] == "a" and n[1][1][0] in "iucb")
        if not n: return None
        iv = [o for o in self.ints() if o.t[0] == "i" and not self.busy(o) and not o.ro]
        iv = [o for o in iv if not any(n[2] <= o.addr < n[2] + self.size(n[1]) for _ in [0])]
        if not iv or self.used: return None
        o = r.choice(iv)
        if o.name in n[0]: return None
        t, cnt = n[1], n[1][2]
        k = r.choice([1, 2, -1, 7])
        x = 0
        et = t[1]
        z = self.size(et)
        for q in range(cnt):
            self.wr(et, n[2] + q * z, q * k + 3)
        self.wr(o.t, o.addr, cnt)
        self.keys.add(("loop", n[4], et[0]))
        return "for (%s = 0; %s < %d; %s++) %s[%s] = %s * %s + 3;" % (o.name, o.name, cnt, o.name, self.post(n), o.name, o.name, self.lit(k, True))

    def contains_struct(self, t):
        if t[0] == "s":
            return [t[1]] + [k for _, x in self.p.structs[t[1]]["members"] for k in self.contains_struct(x)]
        if t[0] == "a": return self.contains_struct(t[1])
        return []

    # ---- dumps
    def dump(self, o):
        z = self.size(o.t)
        if not self.has_ptr(o.t):
            for i in range(z): self.P(self.m[o.addr + i])
            return "    D((char*)&%s, sizeof(%s));\n" % (o.name, o.name)
        self.ptrs = 10
        return "".join(self.dump_leaf(o.name, o.t, o.addr))

    def dump_leaf(self, text, t, a):
        if t[0] == "a":
            for i in range(t[2]):
                yield from self.dump_leaf("%s[%d]" % (text, i), t[1], a + i * self.size(t[1]))
        elif t[0] == "s":
            s = self.p.structs[t[1]]
            for n, mt in s["members"]:
                yield from self.dump_leaf("%s.%s" % (text, n), mt, a + self.p.member_off(t[1], n)[0])
        elif t[0] == "p":
            # identity of the target if a visible object has that address
            pv = self.rd(t, a)
            e0 = self.elems(t[1], pv)
            self.ptrs -= 1
            if self.ptrs < 0: return
            if pv == 0:
                self.P(1)
                yield "    P(%s == 0 ? 1 : 0);\n" % text
            elif e0:
                for o in self.scope:
                    if o.addr == e0[0] and o.t == t[1]:
                        self.P(1)
                        yield "    P(%s == &%s ? 1 : 0);\n" % (text, o.name)
                        break
                    if o.t[0] == "a" and o.t[1] == t[1] and o.addr == e0[0]:
                        self.P(e0[2])
                        yield "    P(%s - %s);\n" % (text, o.name)
                        break
        else:
            self.P(self.rd(t, a))
            yield "    P(%s);\n" % text

    def fill(self, o):
        """Initialise every scalar; pointers become null. Returns text."""
        z = self.size(o.t)
        seed = self.r.randrange(256)
        if self.has_ptr(o.t):
            for i in range(z): self.m[o.addr + i] = 0
            return "    F((char*)&%s, sizeof(%s), 0, 0);\n" % (o.name, o.name)
        st = self.r.choice([1, 3, 7, 129])
        for i in range(z): self.m[o.addr + i] = (seed + i * st) & 255
        return "    F((char*)&%s, sizeof(%s), %d, %d);\n" % (o.name, o.name, seed, st)

    def program(self, nfun=3, nst=14):
        r = self.r
        top = self.make_structs()
        self.scope = []
        main, body, decls = "", "", ""
        for i in range(r.choice([2, 3, 5, 7])):
            t = self.rtype()
            if self.size(t) > 300: t = self.scalar()
            if self.globals and r.random() < 0.25: t = self.variant(r.choice(self.globals).t)
            o = self.alloc("G%d" % i, t, "global")
            self.globals.append(o)
        decls = self.p.join([(o.t, o.name, "") for o in self.globals], "", r)
        self.scope = list(self.globals)
        decls += "int Gi;\nint Gj;\n"
        for nme in ("Gi", "Gj"):
            o = self.alloc(nme, INT, "global")
            self.globals.append(o)
        self.scope = list(self.globals)
        for o in self.globals: main += self.fill(o)
        for fi in range(nfun):
            b, call = self.function("f%d" % fi, nst)
            body += b
            body += "void m%d(void)\n{\n%s" % (fi, call)
            main += "    m%d();\n" % fi
            for o in self.globals:
                body += self.dump(o)
            body += "}\n"
        pre = """int g(int x) { return x; }
void D(char* p, int n) { while (n--) { P(*p & 255); ++p; } }
void F(char* p, int n, int s, int k) { while (n--) { *p++ = s; s += k; } }
"""
        if body.count("\n") > 1000: raise TooLong()     # might exceed the size of an image
        return top + decls + pre + body, main

    def variant(self, t):
        """another type with the same base type"""
        r = self.r
        while t[0] in "ap": t = t[1]
        c = r.random()
        if c < 0.4: return t
        if c < 0.8: return Arr(t, r.choice([1, 2, 3]))
        return Ptr(t)

    def function(self, name, nst):
        r = self.r
        text = ""
        params, args = [], []
        saved = self.scope
        locs = []
        # parameters: values known from the arguments
        for i in range(r.choice([0, 1, 2, 3])):
            c = r.random()
            if c < 0.4:
                t = self.scalar()
                v = r.choice(INTERESTING) * r.choice([1, -1])
                o = self.alloc("a%d" % i, t, "param")
                self.wr(t, o.addr, v)
                params.append(self.p.decl(t, o.name)); args.append(self.lit(v))
            else:
                self.used = set()
                o2 = r.choice(self.globals)
                if o2.t[0] == "a" and o2.t[1][0] != "a":
                    t = Ptr(o2.t[1])
                    params.append(self.p.decl(t, "a%d" % i) if r.random() < 0.6 else self.p.decl(o2.t[1], "a%d[%s]" % (i, r.choice(["", str(o2.t[2])]))) if o2.t[1][0] != "p" else self.p.decl(t, "a%d" % i))
                    args.append(o2.name)
                elif o2.t[0] != "a" and not (o2.t[0] == "p" and o2.t[1][0] == "p"):
                    t = Ptr(o2.t)
                    params.append(self.p.decl(t, "a%d" % i)); args.append("&" + o2.name)
                else: continue
                o = self.alloc("a%d" % i, t, "param")
                self.wr(t, o.addr, o2.addr)
            locs.append(o)
        self.scope = self.globals + locs
        self.tmp = None
        if r.random() < 0.6:
            self.tmp = self.alloc("t0", INT, "local")
            text += "    int t0;\n" + self.fill(self.tmp)
            locs.append(self.tmp)
        vs = []
        pad = r.randrange(4) if r.random() < 0.5 else -1
        for i in range(r.choice([1, 2, 3, 4])):
            t = self.variant(vs[-1].t) if vs and r.random() < 0.25 else self.rtype()
            if self.size(t) > 200: t = self.scalar()
            st = "static" if r.random() < 0.25 else "local"
            if i == pad:
                # places the following objects around the end of the reach of 8-bit displacements
                used = sum(self.size(o.t) + 1 & -2 for o in vs + locs if o.store == "local")
                k = 129 - used - r.choice([0, 1, 2, 3, 4, 6, 8, self.size(t), self.size(t) // 2])
                if k > 0:
                    vs.append(self.alloc("z0", Arr(("c",), k), "local"))
            vs.append(self.alloc("v%d" % i, t, st))
        text += self.p.join([(o.t, o.name, "static " if o.store == "static" else "") for o in vs], "    ", r)
        for o in vs:
            locs.append(o)
            text += self.fill(o)
        # weight locals
        self.scope = self.globals + [o for o in locs if o is not self.tmp] * 2
        for _ in range(nst): text += self.stmt()
        self.scope = self.globals + locs
        for o in locs: text += self.dump(o)
        for o in locs: self.kill(o)
        self.scope = list(self.globals)
        return "void %s(%s)\n{\n%s}\n" % (name, ", ".join(params), text), "    %s(%s);\n" % (name, ", ".join(args))
