"""Random control flow: statements with an operational reference semantics.

A function body is generated as C text and, at the same time, as a list of
micro-operations (labels, branches, stores, markers) that the reference
interpreter executes. Indeterminate values print as '????' (matched by
anything)."""
import random
from cgen import I, U, C8

class Fuel(Exception):
    pass
class Fail(Exception):
    pass

PRE = """int seed; int fuel; int g0; int g1;
enum { E0, E1, E2 = 5, E3, E4 = -3, E5 };
void Quit(void) { P(65535); ExitTo(0); }
void M(int k) { P(k); if (--fuel < 0) Quit(); }
int N(int k) { M(k); seed = seed * 25173 + 13849; return seed >> 3; }
"""
ENUMS = dict(E0=0, E1=1, E2=5, E3=6, E4=-3, E5=-2)

class State:
    def __init__(self, seed, fuel):
        self.seed, self.fuel, self.out = I(seed), fuel, []
        self.g = {"g0": 0, "g1": 0}
        self.funcs = {}
        self.marks = set()
        self.depth = 0
    def P(self, v):
        self.out.append("????\n" if v is None else "%04X\n" % (v & 0xffff))
    def M(self, k):
        self.P(k)
        self.marks.add(k)
        self.fuel -= 1
        if self.fuel < 0:
            self.P(65535)
            raise Fuel()
    def N(self, k):
        self.M(k)
        self.seed = I(self.seed * 25173 + 13849)
        return self.seed >> 3
    def snapshot(self):
        return (self.seed, self.fuel, len(self.out), dict(self.g))
    def restore(self, s):
        self.seed, self.fuel, n, g = s
        del self.out[n:]
        self.g = dict(g)

class Func:
    """ops: executed against vars (list of values, None = indeterminate)."""
    def __init__(self, name):
        self.name, self.ops, self.nvars, self.labels, self.ret = name, [], 0, {}, "i"
        self.nparams = 0
    def call(self, st, args):
        st.depth += 1
        if st.depth > 8: raise Fail()
        v = [None] * self.nvars
        for i, a in enumerate(args): v[i] = a
        ops, labels, pc = self.ops, self.labels, 0
        n = 0
        while True:
            n += 1
            if n > 60000: raise Fail()
            op = ops[pc]
            pc += 1
            k = op[0]
            if k == "x": op[1](st, v)
            elif k == "br":
                if bool(op[1](st, v)) == op[2]: pc = labels[op[3]]
            elif k == "jmp": pc = labels[op[1]]
            elif k == "undef":
                for x in op[1]: v[x] = None
            elif k == "sw":
                x = op[1](st, v)
                t = op[2].get(I(x), op[3])
                pc = labels[t]
            elif k == "ret":
                st.depth -= 1
                return op[1](st, v) if op[1] else None
        
CONVS = {"i": I, "u": U, "c": C8, "b": lambda v: v & 255}
TN = {"i": "int", "u": "unsigned", "c": "char", "b": "unsigned char"}

class Gen:
    def __init__(self, rng, st, budget, callees=()):
        self.r, self.st, self.budget, self.callees = rng, st, budget, list(callees)
        self.mark = 0

    def newmark(self):
        self.mark += 1
        return self.mark

    # ---- expressions: (C text, fn(st, v)); never read indeterminate values for control
    def var(self, need_def=True):
        vs = [x for x in self.scope if not need_def or x[3]]
        return self.r.choice(vs) if vs else None

    def num(self, depth=0):
        """A determinate integer expression."""
        r = self.r
        k = self.newmark
        c = r.random()
        if c < 0.5:
            m, a = self.newmark(), r.choice([1, 1, 2, 3, 7, 8, 128, 255, 256, 0x1000])
            return "N(%d) & %d" % (m, a), lambda s, v: s.N(m) & a
        if c < 0.62:
            m = self.newmark()
            return "N(%d)" % m, lambda s, v: s.N(m)
        if c < 0.72:
            x = self.var()
            if x: return x[0], lambda s, v, i=x[1]: v[i]
        if c < 0.8:
            g = r.choice(["g0", "g1"])
            return g, lambda s, v: s.g[g]
        if c < 0.86:
            g = r.choice(["g0", "g1"]); m = self.newmark(); a = r.choice([1, 3, 15])
            def f(s, v):
                s.g[g] = s.N(m) & a
                return s.g[g]
            return "(%s = N(%d) & %d)" % (g, m, a), f
        if c < 0.92:
            g = r.choice(["g0", "g1"]); t = r.choice(["++%s", "%s++", "--%s", "%s--", "%s += 3"])
            def f(s, v):
                o = s.g[g]
                s.g[g] = I(o + {"++%s": 1, "%s++": 1, "--%s": -1, "%s--": -1, "%s += 3": 3}[t])
                return o if t.startswith("%s") and "=" not in t else s.g[g]
            return "(" + t % g + ")", f
        if c < 0.96 and self.callees:
            f = r.choice(self.callees)
            args = [r.randrange(-5, 300) for _ in range(f.nparams)]
            return "%s(%s)" % (f.name, ", ".join(map(str, args))), lambda s, v: self.det(f.call(s, args))
        x = r.randrange(-3, 4)
        return ("%d" % x if x >= 0 else "(%d)" % x), lambda s, v: x

    @staticmethod
    def det(x):
        if x is None: raise Fail()
        return x

    def cond(self, depth=0):
        r = self.r
        c = r.random()
        if c < 0.3:
            t, f = self.num()
            return t, f
        if c < 0.62:
            t, f = self.num()
            k = r.choice([0, 0, 1, 2, 3, -1, 100, 255, -128])
            op = r.choice(["==", "!=", "<", ">", "<=", ">="])
            p = "(%s)" % t
            py = {"==": lambda a: a == k, "!=": lambda a: a != k, "<": lambda a: a < k, ">": lambda a: a > k, "<=": lambda a: a <= k, ">=": lambda a: a >= k}[op]
            if r.random() < 0.15:
                return "%d %s %s" % (k, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), p), lambda s, v: py(f(s, v))
            return "%s %s %d" % (p, op, k), lambda s, v: py(f(s, v))
        if c < 0.7:
            t, f = self.cond(depth + 1)
            return "!(%s)" % t, lambda s, v: not f(s, v)
        if c < 0.78 and depth < 3:
            (a, f), (b, g) = self.cond(depth + 1), self.cond(depth + 1)
            return "(%s) && (%s)" % (a, b), lambda s, v: bool(f(s, v) and g(s, v))
        if c < 0.86 and depth < 3:
            (a, f), (b, g) = self.cond(depth + 1), self.cond(depth + 1)
            return "(%s) || (%s)" % (a, b), lambda s, v: bool(f(s, v) or g(s, v))
        if c < 0.9 and depth < 2:
            (a, f), (b, g), (d, h) = self.cond(depth + 1), self.cond(depth + 1), self.cond(depth + 1)
            return "(%s) ? (%s) : (%s)" % (a, b, d), lambda s, v: g(s, v) if f(s, v) else h(s, v)
        if c < 0.94:
            (a, f), (b, g) = self.num(), self.cond(depth + 1)
            def q(s, v):
                f(s, v)
                return g(s, v)
            return "(%s, %s)" % (a, b), q
        k = r.choice([0, 1, 1, 2])
        return str(k), lambda s, v: k

    # ---- statements
    def newlabel(self):
        self.nlabels += 1
        return self.nlabels
    def place(self, l):
        self.fn.labels[l] = len(self.fn.ops)
    def op(self, *o):
        self.fn.ops.append(o)

    def block_enter(self):
        b = []
        self.blocks.append(b)
        self.marks_scope.append(len(self.scope))
        o = ["undef", b]
        self.fn.ops.append(o)
        return o
    def block_leave(self):
        self.blocks.pop()
        del self.scope[self.marks_scope.pop():]

    def jump(self, label, chain):
        """goto a place whose enclosing block chain is `chain`: newly entered blocks' variables are indeterminate."""
        self.op("enter", label, list(self.blocks), chain)

    def newvar(self, name, t, defd, det):
        i = self.fn.nvars
        self.fn.nvars += 1
        self.blocks[-1].append(i)
        v = [name, i, t, det]
        self.scope.append(v)
        return v

    def ind(self):
        return "    " * min(self.level, 8)

    def pad(self):
        r = self.r
        n = r.choice([1, 2, 3, 10, 60, 100, 110, 115, 118] + list(range(119, 132)) + [140, 250, 260])
        self.bytes += n
        return "_emit 0x90 " * n

    def block(self, n, fresh=True):
        out = "{\n"
        self.level += 1
        if fresh: self.block_enter()
        for _ in range(n):
            out += self.stmt()
        if fresh: self.block_leave()
        self.level -= 1
        return out + self.ind() + "}\n"

    def body(self):
        """Body of a control statement: block, single statement or empty."""
        r = self.r
        c = r.random()
        if c < 0.7 or self.depth > 5:
            return self.block(r.choice([1, 1, 2, 2, 3, 0]))
        if c < 0.9:
            self.level += 1
            s = "\n" + self.stmt(decl=False)
            self.level -= 1
            return s
        return ";\n"

    def stmt(self, decl=True):
        r, ind = self.r, self.ind()
        self.budget -= 1
        self.depth += 1
        try:
            out = ""
            if self.want_labels and r.random() < 0.12:
                l = self.want_labels.pop(r.randrange(len(self.want_labels)))
                self.place(("n", l))
                self.label_chain[l] = [(b, len(b)) for b in self.blocks]
                m = self.newmark()
                self.op("x", lambda s, v: s.M(m))
                out += "%s: " % l
                if not decl: return out + "M(%d);\n" % m
                out += "M(%d);\n" % m
            return out + ind + self.stmt1(decl)
        finally:
            self.depth -= 1

    def simple(self):
        r = self.r
        c = r.random()
        if c < 0.45:
            m = self.newmark()
            self.op("x", lambda s, v: s.M(m))
            return "M(%d);\n" % m
        if c < 0.7 and self.scope:
            x = r.choice(self.scope)
            self.op("x", lambda s, v, i=x[1]: s.P(v[i]))
            return "P(%s);\n" % x[0]
        if c < 0.85 and self.scope:
            x = r.choice(self.scope)
            if x[0] in self.counters: return "M(0);\n" if not self.op("x", lambda s, v: s.M(0)) else ""
            cv = CONVS[x[2]]
            k = r.randrange(1, 300)
            t = r.choice(["++", "--", "+=", "="])
            if t == "=":
                e, f = self.num()
                self.op("x", lambda s, v, i=x[1]: v.__setitem__(i, cv(f(s, v))))
                return "%s = %s;\n" % (x[0], e)
            d = {"++": 1, "--": -1, "+=": k}[t]
            def fn(s, v, i=x[1]):
                if v[i] is not None: v[i] = cv(v[i] + d)
            self.op("x", fn)
            return "%s%s%s;\n" % (x[0], t, " %d" % k if t == "+=" else "")
        if c < 0.9:
            e, f = self.cond()
            self.op("x", lambda s, v: f(s, v))
            return "%s;\n" % e
        if c < 0.93:
            return ";\n"
        if c < 0.96:
            return "{ " + self.pad() + "}\n"
        e, f = self.num()
        self.op("x", lambda s, v: s.P(f(s, v)))
        return "P(%s);\n" % e

    def declstmt(self):
        r = self.r
        out = []
        t = r.choice("iiiucb")
        arr = r.random() < 0.15
        if arr:
            # an array only moves the stack; first element is used
            n = r.choice([1, 2, 3, 5, 9, 40, 64, 65, 130])
            name = "a%d" % self.uid()
            return "%s %s[%d];\n" % (TN[t], name, n)
        parts = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            name = "v%d" % self.uid()
            if r.random() < 0.6:
                e, f = self.num()
                x = self.newvar(name, t, True, False)
                cv = CONVS[t]
                self.op("x", lambda s, v, i=x[1], f=f, cv=cv: v.__setitem__(i, cv(f(s, v))))
                parts.append("%s = %s" % (name, e))
            else:
                x = self.newvar(name, t, False, False)
                self.op("undef", [x[1]])
                parts.append(name)
        return "%s %s;\n" % (TN[t], ", ".join(parts))

    def uid(self):
        self.uidn += 1
        return self.uidn

    def stmt1(self, decl):
        r = self.r
        c = r.random()
        if self.budget <= 0 or self.depth > 7 or self.nlab > 240 or self.bytes > 2500:
            return self.simple()
        if decl and c < 0.14:
            return self.declstmt()
        if c < 0.36:
            return self.simple()
        if c < 0.52: return self.s_if()
        if c < 0.72: return self.s_loop()
        if c < 0.8: return self.s_switch()
        if c < 0.84: return self.block(r.choice([0, 1, 2, 3]))
        if c < 0.875 and self.brk:
            self.nlab += 0
            self.op("jmp", self.brk[-1])
            return "break;\n"
        if c < 0.91 and self.cont:
            self.op("jmp", self.cont[-1])
            return "continue;\n"
        if c < 0.97:
            return self.s_goto(r.random() < 0.75)
        return self.s_return()

    def s_goto(self, guarded):
        l = self.r.choice(self.names)
        if not guarded:
            self.jump(("n", l), l)
            return "goto %s;\n" % l
        e, f = self.cond()
        self.nlab += 2 + e.count("&&") + e.count("||") + 2 * e.count("?")
        end = self.newlabel()
        self.op("br", f, False, end)
        self.jump(("n", l), l)
        self.place(end)
        return "if (%s) goto %s;\n" % (e, l)

    def s_return(self):
        r = self.r
        c = r.random()
        if self.fn.ret == "v":
            self.op("ret", None)
            return "return;\n"
        cv = CONVS[self.fn.ret]
        if c < 0.4 and self.scope:
            x = r.choice(self.scope)
            self.op("ret", lambda s, v, i=x[1]: None if v[i] is None else cv(v[i]))
            return "return %s;\n" % x[0]
        e, f = self.num() if c < 0.8 else self.cond()
        self.op("ret", lambda s, v: cv(int(f(s, v))))
        return "return %s;\n" % e

    def ccost(self, e):
        self.nlab += 2 + 2 * (e.count("&&") + e.count("||")) + 3 * e.count("?")

    def s_if(self):
        e, f = self.cond()
        self.ccost(e)
        els, end = self.newlabel(), self.newlabel()
        self.op("br", f, False, els)
        braces = self.r.random() < 0.5
        out = "if (%s) " % e
        haselse = self.r.random() < 0.5
        if haselse:
            # avoid the dangling else: the first arm is a block unless simple
            if self.r.random() < 0.3:
                self.level += 1
                out += "\n" + self.ind() + self.simple_nonempty()
                self.level -= 1
            else:
                out += self.block(self.r.choice([0, 1, 1, 2]))
            self.op("jmp", end)
            self.place(els)
            out += self.ind() + "else " + self.body()
            self.place(end)
        else:
            out += self.block(self.r.choice([0, 1, 2])) if braces else self.noelse_body()
            self.place(els)
            self.place(end)
        return out

    def noelse_body(self):
        # an unbraced if arm must not swallow a following else: generated text never starts a statement with else
        self.level += 1
        s = "\n" + self.ind() + self.simple_nonempty()
        self.level -= 1
        return s

    def simple_nonempty(self):
        m = self.r.random()
        if m < 0.3 and self.brk:
            self.op("jmp", self.brk[-1]); return "break;\n"
        if m < 0.45 and self.cont:
            self.op("jmp", self.cont[-1]); return "continue;\n"
        if m < 0.55:
            l = self.r.choice(self.names)
            self.jump(("n", l), l)
            return "goto %s;\n" % l
        if m < 0.6: return self.s_return()
        return self.simple() if True else ""

    def s_loop(self):
        r = self.r
        c = r.random()
        start, cont, end = self.newlabel(), self.newlabel(), self.newlabel()
        self.nlab += 4
        m = self.newmark()
        tick = lambda s, v: s.M(m)
        def inner(first=""):
            """loop body, always starting with a marker"""
            self.brk.append(end); self.cont.append(cont)
            self.level += 1
            o = self.block_enter()
            self.op("x", tick)
            s = "{\n" + self.ind() + "M(%d);\n" % m
            for _ in range(r.choice([0, 1, 2, 2, 3])):
                s += self.stmt()
            self.block_leave()
            self.level -= 1
            self.brk.pop(); self.cont.pop()
            return s + self.ind() + "}"
        if c < 0.35:
            e, f = self.cond(); self.ccost(e)
            self.place(start); self.place(cont)
            self.op("br", f, False, end)
            if r.random() < 0.15 and "N(" in e:
                out = "while (%s) ;\n" % e
            else:
                out = "while (%s) %s\n" % (e, inner())
            self.op("jmp", start)
            self.place(end)
            return out
        if c < 0.6:
            self.place(start)
            b = inner()
            e, f = self.cond(); self.ccost(e)
            self.place(cont)
            self.op("br", f, True, start)
            self.place(end)
            return "do %s while (%s);\n" % (b, e)
        # for
        cnt = [x for x in self.counters if x not in self.busy]
        if cnt and r.random() < 0.5:
            i = r.choice(cnt)
            self.busy.add(i)
            vi = next(x for x in self.scope if x[0] == i)[1]
            n, st = r.randrange(0, 5), r.choice([1, 1, 1, 2])
            self.op("x", lambda s, v: v.__setitem__(vi, 0))
            self.place(start)
            self.op("br", lambda s, v: v[vi] < n, False, end)
            b = inner()
            self.place(cont)
            self.op("x", lambda s, v: v.__setitem__(vi, I(v[vi] + st)))
            self.op("jmp", start)
            self.place(end)
            self.busy.discard(i)
            return "for (%s = 0; %s < %d; %s) %s\n" % (i, i, n, "%s++" % i if st == 1 and r.random() < .5 else "%s += %d" % (i, st), b)
        ini, co, it = r.random() < 0.5, r.random() < 0.6, r.random() < 0.5
        t0 = t1 = t2 = ""
        if ini:
            t0, f0 = self.num()
            self.op("x", lambda s, v: f0(s, v))
        self.place(start)
        if co:
            t1, f1 = self.cond(); self.ccost(t1)
            self.op("br", f1, False, end)
        if it:
            t2, f2 = self.num()
        b = inner()
        self.place(cont)
        if it: self.op("x", lambda s, v: f2(s, v))
        self.op("jmp", start)
        self.place(end)
        return "for (%s; %s; %s) %s\n" % (t0, t1, t2, b)

    def s_switch(self):
        r = self.r
        end, dflt = self.newlabel(), None
        k = r.random()
        if k < 0.1:
            e, f = self.cond()
            f0 = f
            f = lambda s, v: int(f0(s, v))
            vals = [0, 1, 2, -1]
        elif k < 0.2:
            m = self.newmark()
            e, f = "N(%d) | 32767" % m, lambda s, v: I(s.N(m) | 32767)
            vals = [-1, 32767, 0]
        elif k < 0.3:
            m = self.newmark()
            mul = r.choice([1, 4096, -1, 257, -4096])
            e, f = "(N(%d) & 7) * %d" % (m, mul), lambda s, v: I((s.N(m) & 7) * mul)
            vals = [I(i * mul) for i in range(8)]
        elif k < 0.4:
            m = self.newmark()
            e, f = "(char)(N(%d) & 131)" % m, lambda s, v: C8(s.N(m) & 131)
            vals = [0, 1, 2, 3, -128, -127, -126, -125]
        elif k < 0.5:
            e, f = self.num()
            vals = list(range(-4, 5))
        else:
            m = self.newmark()
            mask = r.choice([3, 7, 7, 15, 31, 63])
            off = r.choice([0, 0, -3])
            e, f = "(N(%d) & %d)%s" % (m, mask, " - 3" if off else ""), lambda s, v: (s.N(m) & mask) + off
            vals = [x + off for x in range(mask + 1)]
        self.ccost(e)
        r.shuffle(vals)
        vals = list(dict.fromkeys(vals))
        vals = [x for x in vals if x != -32768][:r.choice([2, 4, 8, 40])]
        table = {}
        sw = ["sw", f, table, end]
        self.fn.ops.append(sw)
        self.nlab += 4
        out = "switch (%s) {\n" % e
        self.brk.append(end)
        base = list(self.blocks)
        self.level += 1
        self.block_enter()
        if r.random() < 0.15:
            out += self.ind() + self.stmt1(True)   # unreachable statement or declaration before the first case
        ngroups = r.choice([0, 1, 2, 3, 4, 6])
        usedef = r.random() < 0.6
        defpos = r.randrange(ngroups + 1) if usedef else -1
        for gi in range(ngroups + 1):
            labs = []
            n = min(len(vals), r.choice([1, 1, 1, 2, 3, 30 if r.random() < .3 else 2]))
            for _ in range(n):
                x = vals.pop()
                labs.append((x, "case %s:" % self.const(x)))
            if gi == defpos:
                labs.insert(r.randrange(len(labs) + 1), (None, "default:"))
            if not labs: break
            # optionally inside a nested block or loop (Duff's device)
            nested = r.random() < 0.12 and self.depth < 5
            if nested:
                kind = r.choice(["block", "while", "if"])
                lend, lst = self.newlabel(), self.newlabel()
                self.nlab += 3
                mk = self.newmark()
                if kind == "while":
                    self.place(lst)
                    out += self.ind() + "while (N(%d) & 1) {\n" % mk
                    self.op("br", lambda s, v, mk=mk: s.N(mk) & 1, False, lend)
                    self.brk.append(lend); self.cont.append(lst)
                elif kind == "if":
                    out += self.ind() + "if (N(%d) & 1) {\n" % mk
                    self.op("br", lambda s, v, mk=mk: s.N(mk) & 1, False, lend)
                else:
                    out += self.ind() + "{\n"
                self.block_enter()
                self.level += 1
                if r.random() < 0.5:
                    out += self.ind() + self.declstmt()
                if r.random() < 0.5:
                    out += self.stmt()
            l = ("c", self.newlabel())
            stub = ("s", self.newlabel())
            chain = list(self.blocks)
            self.nlab += 3
            for x, _ in labs:
                if x is None: sw[3] = stub
                else: table[x] = stub
            self.stubs.append((stub, base, chain, l))
            self.place(l)
            out += self.ind() + " ".join(t for _, t in labs) + "\n"
            for _ in range(r.choice([1, 1, 2, 3])):
                out += self.stmt(decl=r.random() < 0.5)
            if nested:
                if kind == "while":
                    self.op("jmp", lst)
                    self.brk.pop(); self.cont.pop()
                self.place(lend)
                self.block_leave()
                self.level -= 1
                out += self.ind() + "}\n"
            if r.random() < 0.65:
                out += self.ind() + "break;\n"
                self.op("jmp", end)
        self.block_leave()
        self.level -= 1
        self.brk.pop()
        self.place(end)
        return out + self.ind() + "}\n"

    def const(self, x):
        r = self.r
        c = r.random()
        if x in ENUMS.values() and c < 0.3:
            return r.choice([k for k, v in ENUMS.items() if v == x])
        if c < 0.4 and 0 <= x < 30000: return "%d + %d" % (x, 0) if c < 0.35 else "0x%X" % x
        if c < 0.5 and 32 < x < 127 and x not in (39, 92): return "'%s'" % chr(x)
        if c < 0.6 and -30000 < x < 30000: return "%d - %d" % (x + 7, 7) if x + 7 >= 0 else "%d" % x
        return str(x)

    def function(self, name, nparams):
        r = self.r
        fn = self.fn = Func(name)
        fn.ret = r.choice("iiiiucbv") if nparams >= 0 else "v"
        fn.nparams = nparams
        self.blocks, self.scope, self.marks_scope = [], [], []
        self.brk, self.cont, self.stubs = [], [], []
        self.nlabels, self.level, self.depth, self.nlab, self.uidn, self.bytes = 0, 0, 0, 0, 0, 0
        self.names = ["L%d" % i for i in range(r.choice([1, 2, 3, 6, 8]))]
        self.want_labels = list(self.names)
        self.label_chain = {}
        self.counters, self.busy = [], set()
        self.blocks.append([])
        for i in range(nparams):
            t = "i"
            fn.nvars += 1
            self.scope.append(["p%d" % i, i, t, True])
        self.level = 1
        head = ""
        for i in range(r.choice([0, 1, 2, 3])):
            n = "i%d" % i
            x = self.newvar(n, "i", True, True)
            self.counters.append(n)
            k = r.randrange(10)
            head += "    int %s = %d;\n" % (n, k)
            self.op("x", lambda s, v, j=x[1], k=k: v.__setitem__(j, k))
        self.busy = set()
        text = ""
        while self.budget > 0 and self.nlab < 240 and self.bytes < 2500:
            text += self.stmt()
        while self.want_labels:
            l = self.want_labels.pop()
            self.place(("n", l))
            self.label_chain[l] = [(b, len(b)) for b in self.blocks]
            m = self.newmark()
            self.op("x", lambda s, v, m=m: s.M(m))
            text += "%s: M(%d);\n" % (l, m)
            if r.random() < 0.6: text += self.stmt()
        if fn.ret == "v":
            self.op("ret", None)
        else:
            text += "    " + self.s_return()
        # stubs: entering nested blocks by a switch makes their variables indeterminate
        for stub, base, chain, l in self.stubs:
            self.place(stub)
            und = [v for b in chain if not any(b is x for x in base) for v in b]
            self.op("undef", und)
            self.op("jmp", l)
        ops = fn.ops
        for i, o in enumerate(list(ops)):
            if o[0] == "enter":
                _, label, chain, l = o
                # entered blocks start afresh; objects declared after the label are treated as indeterminate
                # too (jumping back over a declaration: see the known finding of C02)
                und = [v for b, n in self.label_chain[l] for v in (b[n:] if any(b is x for x in chain) else b)]
                fn.labels[("e", i)] = len(ops)
                ops.append(("undef", und))
                ops.append(("jmp", label))
                ops[i] = ("jmp", ("e", i))
        ps = ", ".join("int p%d" % i for i in range(nparams))
        rt = {"v": "void"}.get(fn.ret) or TN[fn.ret]
        src = "%s %s(%s)\n{\n%s%s}\n" % (rt, name, ps or r.choice(["", "void"]), head, text)
        return fn, src
