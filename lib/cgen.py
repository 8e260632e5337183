"""Random programs in scc's C subset together with a reference interpreter.

An expression node carries C text (with its precedence), a Python expression
that computes the C value on a byte-addressed memory model with 16-bit ints,
and the sets of objects it reads and writes (so that no generated expression
has unsequenced conflicting side effects).
"""
import random

INT, UINT, CHAR, UCHAR, VOID = ("i",), ("u",), ("c",), ("b",), ("v",)
def Ptr(t): return ("p", t)
def Arr(t, n): return ("a", t, n)
def Struct(k): return ("s", k)
def Fn(ret, args, va=False): return ("f", ret, tuple(args), va)

class UB(Exception):
    pass
class TooLong(Exception):
    pass

ARITH = (INT, UINT, CHAR, UCHAR)
def is_arith(t): return t[0] in "iucb"
def is_ptr(t): return t[0] == "p"
def promote(t): return INT if t[0] in "cb" else t

# ------------------------------------------------------------ memory model
class Mem:
    def __init__(self):
        self.m = bytearray(65536)
        self.top = 0x200
        self.steps = 0
        self.limit = 200000
        self.live = bytearray(65536)   # addressable bytes
    def alloc(self, n):
        a = self.top
        self.top += n + 16
        if self.top > 65000:
            raise TooLong()
        for i in range(a, a + n):
            self.live[i] = 1
            self.m[i] = 0
        return a
    def ok(self, a, n):
        for i in range(a, a + n):
            if not self.live[i & 0xffff]:
                raise UB("access outside objects")

def I(x): return ((x + 0x8000) & 0xffff) - 0x8000
def U(x): return x & 0xffff
def C8(x): return ((x + 0x80) & 0xff) - 0x80

class Rt:
    """Run-time helpers used by the generated Python."""
    def __init__(self, mem=None):
        self.M = mem or Mem()
        self.out = []
        m = self.M
        def ri(a): m.ok(a, 2); return I(m.m[a] | m.m[a+1] << 8)
        def ru(a): m.ok(a, 2); return m.m[a] | m.m[a+1] << 8
        def rc(a): m.ok(a, 1); return C8(m.m[a])
        def rb(a): m.ok(a, 1); return m.m[a]
        def w2(a, v): m.ok(a, 2); m.m[a] = v & 255; m.m[a+1] = (v >> 8) & 255
        def wi(a, v): w2(a, v); return I(v)
        def wu(a, v): w2(a, v); return U(v)
        def wc(a, v): m.ok(a, 1); m.m[a] = v & 255; return C8(v)
        def wb(a, v): m.ok(a, 1); m.m[a] = v & 255; return v & 255
        def wp(a, v): w2(a, v); return U(v)
        def div(l, r, u):
            if r == 0: raise UB("division by zero")
            if not u and l == -32768 and r == -1: raise UB("division overflow")
            q = abs(l) // abs(r)
            return q if (l < 0) == (r < 0) else -q
        def mod(l, r, u):
            if r == 0: raise UB("division by zero")
            if not u and l == -32768 and r == -1: raise UB("division overflow")
            return l - r * div(l, r, u)
        def shl(l, r):
            if not 0 <= r <= 15: raise UB("shift count")
            return l << r
        def shr(l, r):
            if not 0 <= r <= 15: raise UB("shift count")
            return l >> r
        def post(a, t, d):
            r, w = RD[t], WR[t]
            v = r(a); w(a, v + d); return v
        def pre(a, t, d):
            r, w = RD[t], WR[t]
            return w(a, r(a) + d)
        def scopy(d, s, n):
            m.ok(d, n); m.ok(s, n)
            m.m[d:d+n] = bytes(m.m[s:s+n])
            return d
        RD = dict(i=ri, u=ru, c=rc, b=rb, p=ru)
        WR = dict(i=wi, u=wu, c=wc, b=wb, p=wp)
        self.RD, self.WR = RD, WR
        self.g = dict(I=I, U=U, C8=C8, ri=ri, ru=ru, rc=rc, rb=rb, wi=wi, wu=wu, wc=wc, wb=wb, wp=wp,
                      div=div, mod=mod, shl=shl, shr=shr, post=post, pre=pre, scopy=scopy,
                      call=self.call, OUT=self.out.append, P=self.P, PC=self.PC)
        self.funcs = {}
        self.depth = 0
        self.maxdepth = 60
    def P(self, v):
        self.out.append("%04X\n" % (v & 0xffff)); return 0
    def PC(self, v):
        self.out.append(chr(v & 0xff)); return 0
    def call(self, name, *args):
        f = self.funcs[name]
        self.depth += 1
        if self.depth > self.maxdepth:
            raise UB("recursion too deep")
        try:
            return f.run(self, args)
        finally:
            self.depth -= 1

# ------------------------------------------------------------ nodes
class N:
    __slots__ = ("t", "c", "prec", "py", "R", "W", "lv", "const", "bool", "dub", "cost", "size", "key", "labels", "rd")
    def __init__(self, t, c, prec, py, R=frozenset(), W=frozenset(), lv=False, const=None, bool=False, dub=False, cost=1, key="", labels=0, rd=None):
        self.t, self.c, self.prec, self.py, self.R, self.W = t, c, prec, py, R, W
        self.lv, self.const, self.bool, self.dub, self.cost, self.key, self.labels = lv, const, bool, dub, cost, key, labels
        self.rd = rd  # object name an lvalue designates (effect sets)

# precedence levels, higher binds tighter
PREC = {"*": 13, "/": 13, "%": 13, "+": 12, "-": 12, "<<": 11, ">>": 11, "<": 10, ">": 10, "<=": 10, ">=": 10,
        "==": 9, "!=": 9, "&": 8, "^": 7, "|": 6, "&&": 5, "||": 4, "?": 3, "=": 2, ",": 1}

def load(n):
    """Python expression for the value of node n."""
    if n.lv:
        k = n.t[0]
        if k in "iucbp":
            return "r%s(%s)" % ("u" if k == "p" else k, n.py)
        return n.py  # arrays and structs: address
    return n.py

INTERESTING = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 63, 64, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257,
               300, 511, 512, 1000, 1023, 1024, 4095, 4096, 8191, 8192, 10000, 16383, 16384, 20000, 30000, 32766, 32767]

class Var:
    __slots__ = ("name", "t", "store", "addr", "alias", "off", "init", "ro", "struct")
    def __init__(self, name, t, store, addr, alias=None):
        self.name, self.t, self.store, self.addr = name, t, store, addr
        self.alias = alias or name
        self.ro = False

class Prog:
    """Struct table and naming."""
    def __init__(self, rng):
        self.rng = rng
        self.structs = []   # dict(name, union, members=[(name,t)])
        self.typedefs = {}
        self.counter = 0
        self.used = set()
    def name(self, prefix="v"):
        while True:
            self.counter += 1
            r = self.rng
            k = r.random()
            base = prefix + str(self.counter)
            if k < 0.15: base = prefix + "_" + str(self.counter)
            elif k < 0.25: base = prefix.upper() + str(self.counter) + r.choice(["x", "Y", "_", "q7"])
            elif k < 0.3: base = "_" + prefix + str(self.counter)
            if base not in self.used:
                self.used.add(base)
                return base
    def size(self, t):
        k = t[0]
        if k in "iup": return 2
        if k in "cb": return 1
        if k == "a": return t[2] * self.size(t[1])
        if k == "s":
            s = self.structs[t[1]]
            z = [self.size(x) for _, x in s["members"]]
            return max(z) if s["union"] else sum(z)
        if k == "f": return 2
        raise ValueError(t)
    def member_off(self, k, name):
        s = self.structs[k]
        off = 0
        for n, t in s["members"]:
            if n == name:
                return (0 if s["union"] else off), t
            off += self.size(t)
        raise KeyError(name)
    def tname(self, t):
        r = self.rng
        k = t[0]
        if k == "i": return r.choice(["int", "int", "int", "signed int", "short", "signed", "short int"])
        if k == "u": return r.choice(["unsigned", "unsigned int", "unsigned", "unsigned short"])
        if k == "c": return r.choice(["char", "char", "signed char"])
        if k == "b": return "unsigned char"
        if k == "v": return "void"
        if k == "s":
            s = self.structs[t[1]]
            return ("union " if s["union"] else "struct ") + s["name"]
        raise ValueError(t)
    def decl(self, t, name):
        """C declarator text for an object of type t."""
        b, d = self.declarator(t, name)
        return self.tname(b) + " " + d
    def declarator(self, t, name):
        dims, stars = "", ""
        while t[0] == "a":
            dims += "[%d]" % t[2]
            t = t[1]
        while t[0] == "p":
            stars += "*"
            t = t[1]
        return t, stars + name + dims
    def join(self, items, prefix="", rng=None, prob=0.5):
        """Text of declarations (type, name, prefix), some with several declarators."""
        out, last = "", None
        for t, n, pre in items:
            base, d = self.declarator(t, n)
            if (pre, base) == last and rng.random() < prob:
                out = out[:-2] + ", " + d + ";\n"
            else: out += prefix + pre + self.tname(base) + " " + d + ";\n"
            last = (pre, base)
        return out
    def struct_def(self, k):
        s = self.structs[k]
        out = ("union " if s["union"] else "struct ") + s["name"] + " {\n"
        out += self.join([(t, n, "") for n, t in s["members"]], "    ", self.rng)
        return out + "};\n"

class EG:
    """Expression generator over a set of visible variables."""
    def __init__(self, prog, vars, rng, avoid=(), funcs=()):
        self.p, self.vars, self.rng = prog, list(vars), rng
        self.avoid = set(avoid)
        self.funcs = list(funcs)   # Func objects callable from here
        self.allow_side = True
        self.nopar = 0.85   # probability of not adding redundant parentheses
        self.weights = {}
        self.reads_ok = None

    # ---- text helpers
    def par(self, n, need, right=False):
        """n as an operand that must bind at least as tight as `need`."""
        s = n.c
        if n.prec < need or self.rng.random() > self.nopar:
            return "(" + s + ")"
        return s

    def sp(self):
        return self.rng.choice([" ", " ", " ", ""])

    # ---- constants
    def lit_value(self):
        r = self.rng
        k = r.random()
        if k < 0.6: return r.choice(INTERESTING)
        if k < 0.8: return r.randrange(0, 128)
        return r.randrange(0, 32768)

    def lit_text(self, v):
        r = self.rng
        k = r.random()
        if k < 0.6: return str(v)
        if k < 0.8: return ("0x%x" if r.random() < 0.5 else "0X%X") % v
        if k < 0.88: return "0%o" % v
        if 32 <= v < 127 and chr(v) not in "'\\":
            return "'%s'" % chr(v)
        if v < 128 and r.random() < 0.5: return "'\\x%02x'" % v
        return str(v)

    def lit(self, v=None):
        if v is None: v = self.lit_value()
        return N(INT, self.lit_text(v), 20, str(v), const=v, key="K")

    # ---- lvalues
    def var_node(self, v):
        return N(v.t, v.name, 20, v.addr, lv=True, rd=v.alias, key=v.store[0] + v.t[0], R=frozenset(), W=frozenset())

    def lvalue(self, want, depth, write=False):
        """An lvalue whose type satisfies want(t)."""
        r = self.rng
        c = [v for v in self.vars if self.reach(v.t, want) and not (write and v.ro)]
        if not c:
            return None
        for _ in range(8):
            n = self.descend(self.var_node(r.choice(c)), want, depth)
            if n is not None:
                return n
        return None

    def reach(self, t, want, lim=4):
        if want(t): return True
        if lim == 0: return False
        if t[0] in "ap": return self.reach(t[1], want, lim - 1)
        if t[0] == "s": return any(self.reach(x, want, lim - 1) for _, x in self.p.structs[t[1]]["members"])
        return False

    def descend(self, n, want, depth):
        while True:
            if want(n.t) and (n.t[0] not in "p" or self.rng.random() < 0.6 or not self.reach(n.t[1], want)):
                return n
            k = n.t[0]
            if k == "a":
                n = self.index(n, depth)
            elif k == "p":
                n = self.deref(n, want, depth)
            elif k == "s":
                n = self.member(n, want)
            else:
                return None
            if n is None:
                return None

    def small_index(self, bound, depth):
        """An index expression guaranteed to be in [0,bound)."""
        r = self.rng
        k = r.random()
        if k < 0.45 or depth <= 0:
            return self.lit(r.randrange(bound))
        e = self.expr(depth - 1)
        if e is None or e.const is not None:
            return self.lit(r.randrange(bound))
        if bound & (bound - 1) == 0 and r.random() < 0.6:
            return self.bin_raw("&", e, self.lit(bound - 1))
        # unsigned modulo keeps it non-negative
        m = self.bin_raw("&", e, self.lit(0x7fff))
        return self.bin_raw("%", m, self.lit(bound))

    def idx_text(self, n):
        return n.c

    def index(self, arr, depth):
        et = arr.t[1]
        ix = self.small_index(arr.t[2], depth)
        if ix.bool: ix = self.bin_raw("+", ix, self.lit(0))
        if not self.compatible(arr, ix): ix = self.lit(self.rng.randrange(arr.t[2]))
        return self.mk_index(arr, ix, et)

    def mk_index(self, arr, ix, et):
        base = load(arr)
        sz = self.p.size(et)
        r = arr.R | ix.R | ({arr.rd} if arr.lv and arr.t[0] == "p" and arr.rd else frozenset())
        if arr.lv and arr.t[0] == "p": r = r | frozenset([arr.rd])
        return N(et, "%s[%s]" % (self.par(arr, 19), ix.c), 19, "U(%s+(%s)*%d)" % (base, load(ix), sz),
                 R=r | self.rset(ix), W=arr.W | ix.W, lv=True,
                 rd=arr.rd if arr.t[0] == "a" else "*", cost=arr.cost + ix.cost + 1, key="[" + arr.key + ix.key + "]", labels=arr.labels + ix.labels)

    def rset(self, n):
        """objects read when n's value is taken"""
        if n.lv and n.t[0] not in "as":
            return n.R | frozenset([n.rd])
        return n.R

    def deref(self, n, want, depth):
        # pointers in generated programs point at the object given by self.points
        tgt = self.ptr_target(n)
        if tgt is None: return None
        cnt = tgt
        et = n.t[1]
        R = self.rset(n)
        if et[0] == "s" and self.rng.random() < 0.8:
            ms = [(nm, t) for nm, t in self.p.structs[et[1]]["members"] if self.reach(t, want)]
            if not ms: return None
            nm, mt = self.rng.choice(ms)
            off, mt = self.p.member_off(et[1], nm)
            return N(mt, "%s->%s" % (self.par(n, 19), nm), 19, "U(%s+%d)" % (load(n), off), R=R, W=n.W, lv=True, rd="*", cost=n.cost + 1, key="->" + n.key, labels=n.labels)
        if self.rng.random() < 0.5 or cnt <= 0:
            return N(et, "*" + self.par(n, 14), 14, load(n), R=R, W=n.W, lv=True, rd="*", cost=n.cost + 1, key="*" + n.key, labels=n.labels)
        ix = self.small_index(cnt, depth)
        if ix.bool: ix = self.bin_raw("+", ix, self.lit(0))
        if not self.compatible(n, ix): ix = self.lit(0)
        return self.mk_index(n, ix, et)

    def ptr_target(self, n):
        """Number of elements a pointer lvalue may be indexed with (1 = only *p)."""
        return 1

    def member(self, n, want):
        ms = [(nm, t) for nm, t in self.p.structs[n.t[1]]["members"] if self.reach(t, want)]
        if not ms: return None
        nm, mt = self.rng.choice(ms)
        off, mt = self.p.member_off(n.t[1], nm)
        return N(mt, "%s.%s" % (self.par(n, 19), nm), 19, "U(%s+%d)" % (n.py, off), R=n.R, W=n.W, lv=True, rd=n.rd, cost=n.cost + 1, key="." + n.key, labels=n.labels)

    # ---- compatibility of unsequenced operands
    @staticmethod
    def clash(W, X):
        if not W or not X: return False
        if W & X: return True
        # "*" aliases every object marked as address-taken (names starting with '@')
        if "*" in W and any(x == "*" or x.startswith("@") for x in X): return True
        if "*" in X and any(x == "*" or x.startswith("@") for x in W): return True
        return False

    def compatible(self, a, b):
        ra, rb = self.rset(a), self.rset(b)
        return not (self.clash(a.W, rb | b.W) or self.clash(b.W, ra))

    # ---- expressions
    def value(self, n):
        return n

    def leaf(self):
        r = self.rng
        if r.random() < 0.35:
            return self.lit()
        n = self.lvalue(is_arith, 1)
        return n or self.lit()

    def expr(self, depth, side=None):
        """A random integer-valued expression."""
        r = self.rng
        if depth <= 0 or r.random() < 0.12:
            return self.leaf()
        for _ in range(10):
            k = r.random()
            n = None
            if k < 0.46: n = self.binary(depth)
            elif k < 0.58: n = self.relational(depth)
            elif k < 0.66: n = self.logical(depth)
            elif k < 0.74: n = self.unary(depth)
            elif k < 0.80: n = self.cond(depth)
            elif k < 0.86 and self.allow_side: n = self.assign(depth)
            elif k < 0.90 and self.allow_side: n = self.incdec(depth)
            elif k < 0.93: n = self.cast(depth)
            elif k < 0.95: n = self.comma(depth)
            elif k < 0.965: n = self.sizeof(depth)
            elif self.funcs: n = self.call(depth)
            if n is not None:
                return n
        return self.leaf()

    def pure(self, depth):
        old = self.allow_side
        self.allow_side = False
        f, self.funcs = self.funcs, []
        try:
            return self.expr(depth)
        finally:
            self.allow_side = old
            self.funcs = f

    def pair(self, depth):
        r = self.rng
        da, db = (depth - 1, r.randrange(depth)) if r.random() < 0.5 else (r.randrange(depth), depth - 1)
        a = self.expr(da)
        for _ in range(4):
            b = self.expr(db)
            if self.compatible(a, b):
                return a, b
        return a, self.lit()

    def binary(self, depth):
        r = self.rng
        op = r.choice(["+", "+", "-", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
        a, b = self.pair(depth)
        if op in "/%":
            if b.const is not None:
                if b.const == 0: b = self.lit(r.choice([1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 255, 256, 1000, 16384, 32767]))
            elif r.random() < 0.8:
                b = self.bin_raw("|", b, self.lit(r.choice([1, 1, 3, 17, 257])))
                if b is None: return None
        elif op in ("<<", ">>"):
            if b.const is not None:
                b = self.lit(r.randrange(0, 16))
            else:
                b = self.bin_raw("&", b, self.lit(r.choice([1, 3, 7, 15, 15, 15])))
                if b is None: return None
        return self.bin_raw(op, a, b)

    def bin_raw(self, op, a, b):
        if a is None or b is None: return None
        ta, tb = promote(a.t), promote(b.t)
        if not (is_arith(ta) and is_arith(tb)): return None
        const = None
        dub = a.dub or b.dub
        if op in ("<<", ">>"):
            t = ta
        else:
            t = UINT if UINT in (ta, tb) else INT
        la, lb = load(a), load(b)
        if t == UINT and op not in ("<<", ">>"):
            if ta == INT: la = "U(%s)" % la
            if tb == INT: lb = "U(%s)" % lb
        w = "U" if t == UINT else "I"
        u = 1 if t == UINT else 0
        if op == "/": py = "%s(div(%s,%s,%d))" % (w, la, lb, u)
        elif op == "%": py = "%s(mod(%s,%s,%d))" % (w, la, lb, u)
        elif op == "<<": py = "%s(shl(%s,%s))" % (w, la, lb)
        elif op == ">>": py = "%s(shr(%s,%s))" % (w, la, lb)
        else: py = "%s((%s)%s(%s))" % (w, la, op, lb)
        if a.const is not None and b.const is not None:
            x, y = a.const, b.const
            try:
                if op == "/":
                    if y == 0: return None
                    q = abs(x) // abs(y); v = q if (x < 0) == (y < 0) else -q
                elif op == "%":
                    if y == 0: return None
                    q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                    v = x - y * q
                elif op == "<<":
                    if not 0 <= y <= 14 or x < 0: return None
                    v = x << y
                elif op == ">>":
                    if not 0 <= y <= 15 or x < 0: return None
                    v = x >> y
                else:
                    v = eval("x%sy" % op)
            except Exception:
                return None
            if not -32768 <= v <= 32767 or t == UINT: return None
            const = v
            py = str(v)
        pr = PREC[op]
        s = self.sp()
        bc = self.par(b, pr + 1)
        ac = self.par(a, pr)
        if not s and (bc[0] in "+-&" or (op == "/" and bc[0] == "*")): s = " "
        if op == "&" and bc[0] == "&": s = " "
        return N(t, ac + s + op + s + bc, pr, py, R=self.rset(a) | self.rset(b), W=a.W | b.W, const=const, dub=dub,
                 cost=a.cost + b.cost + 1, key="(" + a.key + op + b.key + ")", labels=a.labels + b.labels)

    def relational(self, depth):
        op = self.rng.choice(["<", ">", "<=", ">=", "==", "!="])
        a, b = self.pair(depth)
        return self.rel_raw(op, a, b)

    def rel_raw(self, op, a, b):
        if a is None or b is None: return None
        if a.const is not None and b.const is not None: return None
        if (a.dub or b.dub) and op not in ("==", "!="): return None
        ta, tb = promote(a.t), promote(b.t)
        la, lb = load(a), load(b)
        if UINT in (ta, tb):
            if ta == INT: la = "U(%s)" % la
            if tb == INT: lb = "U(%s)" % lb
        pr = PREC[op]
        s = self.sp()
        bc = self.par(b, pr + 1)
        return N(INT, self.par(a, pr) + s + op + s + bc, pr, "(1 if (%s)%s(%s) else 0)" % (la, op, lb),
                 R=self.rset(a) | self.rset(b), W=a.W | b.W, bool=True, cost=a.cost + b.cost + 1, key="(" + a.key + op + b.key + ")", labels=a.labels + b.labels)

    def logical(self, depth):
        r = self.rng
        op = r.choice(["&&", "||"])
        a, b = self.expr(depth - 1), self.expr(r.randrange(depth))
        if "const_logical" in self.avoid and (a.const is not None or b.const is not None): return None
        if a.const is not None and b.const is not None: return None
        pr = PREC[op]
        bc = self.par(b, pr + 1)
        return N(INT, self.par(a, pr) + " " + op + " " + bc, pr, "(1 if (%s) %s (%s) else 0)" % (load(a), "and" if op == "&&" else "or", load(b)),
                 R=self.rset(a) | self.rset(b), W=a.W | b.W, bool=True, cost=a.cost + b.cost + 2, key="(" + a.key + op + b.key + ")", labels=a.labels + b.labels + 1)

    def unary(self, depth):
        r = self.rng
        op = r.choice(["-", "~", "!", "!", "+", "-", "~"])
        a = self.expr(depth - 1)
        return self.un_raw(op, a)

    def un_raw(self, op, a):
        if a.bool and op in "-~": return None
        if op == "+" and a.lv: return None      # scc keeps an lvalue; harmless but untyped
        t = promote(a.t)
        if op == "!": t = INT
        la = load(a)
        w = "U" if t == UINT else "I"
        py = {"-": "%s(-(%s))" % (w, la), "~": "%s(~(%s))" % (w, la), "+": "%s(%s)" % (w, la), "!": "(0 if (%s) else 1)" % la}[op]
        const = None
        if a.const is not None:
            const = {"-": -a.const, "~": ~a.const, "+": a.const, "!": int(not a.const)}[op]
            if not -32767 <= const <= 32767: return None
            py = str(const)
        ac = self.par(a, 14)
        if ac[0] in "+-" and op in "+-": ac = " " + ac if r_ok(ac) else "(" + ac + ")"
        return N(t, op + ac, 14, py, R=self.rset(a), W=a.W, const=const, bool=(op == "!" and const is None), dub=a.dub and op != "!", cost=a.cost + 1, key=op + a.key, labels=a.labels)

    def cond(self, depth):
        r = self.rng
        c = self.expr(depth - 1)
        a, b = self.expr(r.randrange(depth)), self.expr(r.randrange(depth))
        return self.cond_raw(c, a, b)

    def cond_raw(self, c, a, b):
        if "cond_bool" in self.avoid and (a.bool or b.bool): return None
        ta, tb = promote(a.t), promote(b.t)
        t = UINT if UINT in (ta, tb) else INT
        w = "U" if t == UINT else "I"
        if c.const is not None and t == UINT and ta != tb: return None
        const = None
        if c.const is not None:
            const = a.const if c.const else b.const
        bl = c.const is not None and (a.bool if c.const else b.bool)
        bc = self.par(b, 3)
        ac = self.par(a, 2 if "=" not in a.c else 3)
        # branches that differ in scc's own type terms
        dub = a.dub or b.dub or ta != tb
        return N(t, "%s ? %s : %s" % (self.par(c, 4), ac, bc), 3, "(%s(%s) if (%s) else %s(%s))" % (w, load(a), load(c), w, load(b)),
                 R=self.rset(a) | self.rset(b) | self.rset(c), W=a.W | b.W | c.W, const=const, bool=bl, dub=dub, cost=a.cost + b.cost + c.cost + 2,
                 key="(" + c.key + "?" + a.key + ":" + b.key + ")", labels=a.labels + b.labels + c.labels + 3)

    def comma(self, depth):
        r = self.rng
        a, b = self.expr(depth - 1), self.expr(r.randrange(depth))
        bl = b.bool
        return N(promote(b.t), "(%s, %s)" % (a.c, b.c), 20, "((%s),(%s))[1]" % (load(a), load(b)), R=self.rset(a) | self.rset(b), W=a.W | b.W,
                 bool=bl, dub=b.dub, cost=a.cost + b.cost, key="(" + a.key + "," + b.key + ")", labels=a.labels + b.labels)

    def cast(self, depth):
        r = self.rng
        a = self.expr(depth - 1)
        t = r.choice([INT, UINT, CHAR, UCHAR, UCHAR, UINT])
        w = {"i": "I(%s)", "u": "U(%s)", "c": "C8(%s)", "b": "(%s)&255"}[t[0]]
        ac = self.par(a, 14)
        return N(promote(t), "(%s)%s" % (self.p.tname(t), ac), 14, "(" + w % load(a) + ")", R=self.rset(a), W=a.W, cost=a.cost + 1, key="(" + t[0] + ")" + a.key, labels=a.labels)

    def sizeof(self, depth):
        r = self.rng
        k = r.random()
        if k < 0.4:
            t = r.choice([INT, UINT, CHAR, UCHAR, Ptr(INT), Ptr(CHAR)] + [Struct(i) for i in range(len(self.p.structs))])
            n = self.p.tname(t) if t[0] != "p" else self.p.tname(t[1]) + "*"
            v = self.p.size(t)
            return N(INT, "sizeof(%s)" % n, 14, str(v), const=v, key="S", dub=True)
        if k < 0.8:
            if not self.vars: return None
            v = r.choice(self.vars)
            s = self.p.size(v.t)
            return N(INT, r.choice(["sizeof(%s)", "sizeof %s"]) % v.name, 14, str(s), const=s, key="S", dub=True)
        n = self.lvalue(lambda t: t[0] in "iucb", depth - 1)
        if n is None: return None
        s = self.p.size(n.t)
        return N(INT, "sizeof(%s)" % n.c, 14, str(s), const=s, key="S", dub=True)

    def assign(self, depth):
        r = self.rng
        lv = self.lvalue(is_arith, depth - 1, write=True)
        if lv is None: return None
        for _ in range(4):
            e = self.expr(depth - 1)
            # the value computation of e must not clash with the address computation of lv
            if not (self.clash(lv.W, self.rset(e) | e.W) or self.clash(e.W, lv.R | lv.W | {lv.rd}) ):
                break
        else:
            e = self.lit()
        return self.assign_raw(lv, e, r.choice(["=", "=", "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]))

    def assign_raw(self, lv, e, op="="):
        r = self.rng
        if e is None: return None
        # W clash between lv address side effects and target
        if self.clash(lv.W, frozenset([lv.rd])): return None
        if self.clash(e.W, frozenset([lv.rd]) | lv.R | lv.W): return None
        k = lv.t[0]
        if "char_assign_value" in self.avoid and k in "cb": valdub = True
        else: valdub = False
        if op == "=":
            py = "w%s(%s,%s)" % (k, lv.py, load(e))
        else:
            bop = op[:-1]
            if bop in "/%":
                if e.const is not None:
                    if e.const == 0: return None
                else:
                    e = self.bin_raw("|", e, self.lit(r.choice([1, 3, 257])))
            elif bop in ("<<", ">>"):
                e = self.lit(r.randrange(16)) if e.const is not None else self.bin_raw("&", e, self.lit(15))
            if e is None: return None
            # lv must be pure to be evaluated twice in the model
            if lv.W: return None
            cur = N(lv.t, lv.c, lv.prec, lv.py, R=lv.R, W=frozenset(), lv=True, rd=lv.rd)
            b = self.bin_raw(bop, cur, e)
            if b is None: return None
            py = "w%s(%s,%s)" % (k, lv.py, b.py)
        ec = self.par(e, 2)
        s = self.rng.choice([" ", " ", ""])
        if s == "" and ec[0] in "-+*&=": s = " "
        return N(promote(lv.t), "%s%s%s%s%s" % (self.par(lv, 14), s, op, s, ec), 2, py,
                 R=self.rset(e) | lv.R | (frozenset([lv.rd]) if op != "=" else frozenset()), W=e.W | lv.W | frozenset([lv.rd]), dub=False,
                 cost=lv.cost + e.cost + 1, key="(" + lv.key + op + e.key + ")", labels=lv.labels + e.labels)

    def incdec(self, depth):
        r = self.rng
        lv = self.lvalue(is_arith, depth - 1, write=True)
        if lv is None: return None
        return self.incdec_raw(lv, r.choice(["++", "--"]), r.random() < 0.5)

    def incdec_raw(self, lv, op, post, scale=1):
        if self.clash(lv.W, frozenset([lv.rd])): return None
        d = scale if op == "++" else -scale
        k = lv.t[0]
        py = "%s(%s,'%s',%d)" % ("post" if post else "pre", lv.py, k, d)
        c = (self.par(lv, 19) + op) if post else (op + self.par(lv, 14))
        return N(promote(lv.t), c, 19 if post else 14, py, R=lv.R | {lv.rd}, W=lv.W | {lv.rd}, cost=lv.cost + 1, key=("p" if post else "") + op + lv.key, labels=lv.labels)

    def call(self, depth):
        r = self.rng
        f = r.choice(self.funcs)
        return self.call_fn(f, depth)

    def call_fn(self, f, depth):
        r = self.rng
        args = []
        R, W = frozenset(f.R), frozenset(f.W)
        cost, key, labels = 6, "f(", 0
        aR, aW = frozenset(), frozenset()
        for t in f.args_for(r):
            for _ in range(5):
                a = self.arg(t, depth - 1)
                if a is None: return None
                ra = self.rset(a)
                if not (self.clash(a.W, aR | aW) or self.clash(aW, ra)):
                    break
            else:
                a = self.lit()
            args.append(a)
            aR |= self.rset(a); aW |= a.W
            cost += a.cost; key += a.key + ","; labels += a.labels
        cs = []
        ps = []
        for a in args:
            cs.append(self.par(a, 2))
            ps.append(load(a))
        txt = "%s(%s)" % (f.name, ", ".join(cs))
        py = "call('%s'%s)" % (f.name, "".join("," + x for x in ps))
        return N(promote(f.ret) if is_arith(f.ret) else f.ret, txt, 19, py, R=R | aR, W=W | aW, cost=cost, key=key + ")", labels=labels)

    def arg(self, t, depth):
        e = self.expr(depth)
        return e

def r_ok(ac):
    return True
