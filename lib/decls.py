"""Generator + reference interpreter for C05: scopes, lifetimes, initial
values. The generator resolves every name itself (C's rules), builds the
program text and, in parallel, closures that execute it on per-declaration
storage."""
from cgen import I, U, C8

SZ = {"i": 2, "u": 2, "c": 1, "b": 1}
TN = {"i": "int", "u": "unsigned int", "c": "char", "b": "unsigned char"}
POOL = ["a", "b", "c", "d", "x", "count"]
TAGS = ["T", "S", "a"]

class Stop(Exception): pass
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass
class Goto(Exception):
    def __init__(self, n): self.n = n

def conv(t, v):
    return I(v) if t == "i" else U(v) if t == "u" else C8(v) if t == "c" else v & 255

class Ent:
    n = 0
    def __init__(self, kind, **k):
        self.kind = kind
        Ent.n += 1
        self.uid = Ent.n
        self.__dict__.update(k)

class Act:
    """Run-time state of one activation"""
    def __init__(self, m): self.m, self.loc = m, {}
    def store(self, e): return self.m.glob if e.stat else self.loc

class Machine:
    def __init__(self):
        self.glob, self.out, self.fuel, self.depth = {}, [], 20000, 0
        self.events = 0
    def P(self, v): self.out.append("%04X\n" % (v & 0xffff))
    def call(self, f, args):
        self.fuel -= 5
        self.depth += 1
        if self.fuel < 0 or self.depth > 12: raise Stop()
        a = Act(self)
        for p, v in zip(f.params, args): a.loc[p.uid] = conv(p.t, v)
        r = 0
        try: f.body(a)
        except Ret as e: r = e.v
        self.depth -= 1
        return I(r)

class Gen:
    def __init__(self, rng):
        self.r = rng
        self.scopes = []       # list of {"n": name -> Ent, "t": tag -> Ent}
        self.keys = set()
        self.funcs = []
        self.vdecls = 0
        self.arrays = 0
        self.structs = [0]
        self.ids = 0
        self.static_arr = 0
        self.used = set()
        self.members = self.nstat = 0

    def look(self, n):
        for s in reversed(self.scopes):
            if n in s["n"]: return s["n"][n]
        return None
    def tag(self, n):
        for s in reversed(self.scopes):
            if n in s["t"]: return s["t"][n]
        return None
    def visible(self, kinds):
        seen, out = set(), []
        for s in reversed(self.scopes):
            for n, e in s["n"].items():
                if n not in seen:
                    seen.add(n)
                    if e.kind in kinds: out.append((n, e))
        return out
    def level(self, n):
        return sum(n in s["n"] for s in self.scopes)

    def use(self, n, e):
        self.used.add(e.uid)
        self.keys.add((e.kind, getattr(e, "where", ""), self.level(n), len(self.scopes)))

    # ---- expressions: (text, prec, fn(act)->int, const or None)
    def lvals(self, ready=True):
        """scalar lvalues currently nameable: (text, type, ent, key)"""
        out = []
        for n, e in self.visible(("var", "arr", "sv")):
            if ready and not e.ready: continue
            if e.kind == "var": out.append((n, n, e.t, e, None))
            elif e.kind == "arr": 
                k = self.r.randrange(e.n)
                out.append(("%s[%d]" % (n, k), n, e.t, e, k))
            else:
                m, t, k = self.r.choice(e.mem)
                if k > 1:
                    j = self.r.randrange(k)
                    out.append(("%s.%s[%d]" % (n, m, j), n, t, e, (m, j)))
                else: out.append(("%s.%s" % (n, m), n, t, e, (m, 0)))
        return out

    def leaf(self):
        r = self.r
        c = r.random()
        if c < 0.62:
            l = self.lvals()
            if l:
                t, n, ty, e, k = r.choice(l)
                self.use(n, e)
                return t, 16, lambda a: a.store(e)[e.uid] if k is None else a.store(e)[e.uid][k]
        if c < 0.78:
            l = self.visible(("enum",))
            if l:
                n, e = r.choice(l)
                self.use(n, e)
                v = e.val
                return n, 16, lambda a: v
        if c < 0.9:
            l = self.visible(("typedef", "var", "arr", "sv"))
            tl = [(t, e) for t in TAGS for e in [self.tag(t)] if e]
            if tl and (not l or r.random() < 0.3):
                t, e = r.choice(tl)
                self.keys.add(("sizetag", len(self.scopes), e.size))
                v = e.size
                return "sizeof(%s %s)" % (e.kw, t), 14, lambda a: v
            if l:
                n, e = r.choice(l)
                v = e.size
                self.keys.add(("sizeof", e.kind, v, self.level(n)))
                return ("sizeof(%s)" % n if e.kind == "typedef" or r.random() < 0.5 else "sizeof %s" % n), 14, lambda a: v
        v = r.choice([0, 1, 2, 5, 7, 100, 255, 256, 1000, 30000])
        return str(v), 16, lambda a: v

    def expr(self, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.3: return self.leaf()
        if r.random() < 0.08:
            a, b, c = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            p = lambda z, q: z[0] if z[1] >= q else "(%s)" % z[0]
            return "%s ? %s : %s" % (p(a, 4), p(b, 4), p(c, 3)), 3, lambda s, f=a[2], g=b[2], h=c[2]: g(s) if f(s) & 0xffff else h(s)
        op, pr = r.choice([("+", 13), ("-", 13), ("^", 7), ("+", 13), ("==", 9)])
        a, b = self.expr(d - 1), self.expr(d - 1)
        p = lambda z, q: z[0] if z[1] >= q else "(%s)" % z[0]
        fn = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "^": lambda x, y: x ^ y, "==": lambda x, y: int((x - y) & 0xffff == 0)}[op]
        return "%s %s %s" % (p(a, pr), op, p(b, pr + 1)), pr, lambda s, f=a[2], g=b[2]: fn(f(s), g(s))

    def constexpr(self, small=False):
        """a constant expression using the visible enumerators: (text, value)"""
        r = self.r
        l = [(n, e) for n, e in self.visible(("enum",))]
        if l and r.random() < 0.5:
            n, e = r.choice(l)
            self.use(n, e)
            k = r.randrange(1, 9)
            if small: return str(k), k
            return r.choice([("%s + %d" % (n, k), e.val + k), (n, e.val), ("%s - %d" % (n, k), e.val - k), ("(%s ^ %d)" % (n, k), I(e.val ^ k))])
        v = r.choice([0, 1, 3, 10, 77, 300, 20000])
        if small: v = r.randrange(1, 6)
        if r.random() < 0.2 and not small: return "-%d" % v, -v
        return str(v), v

    # ---- statements: (text lines, fn(act))
    def P(self):
        e = self.expr(2)
        return ["P(%s);" % e[0]], lambda a: a.m.P(e[2](a))

    def assign(self):
        r = self.r
        l = self.lvals(False)
        l = [x for x in l if x[3].ready or x[3].kind == "var"]
        l = [x for x in l if x[3].ready]
        if not l: return self.P()
        t, n, ty, e, k = r.choice(l)
        self.use(n, e)
        def put(a, v):
            v = conv(ty, v)
            if k is None: a.store(e)[e.uid] = v
            else: a.store(e)[e.uid][k] = v
        get = lambda a: a.store(e)[e.uid] if k is None else a.store(e)[e.uid][k]
        c = r.random()
        if c < 0.5:
            x = self.expr(2)
            return ["%s = %s;" % (t, x[0])], lambda a: put(a, x[2](a))
        if c < 0.7:
            x = self.expr(1)
            return ["%s += %s;" % (t, x[0])], lambda a: put(a, get(a) + x[2](a))
        if c < 0.85: return [r.choice(["%s++;", "++%s;"]) % t], lambda a: put(a, get(a) + 1)
        f = self.callable()
        if f:
            n2, fe, args = f
            return ["%s = %s(%s);" % (t, n2, ", ".join(x[0] for x in args))], lambda a: put(a, a.m.call(fe, [x[2](a) for x in args]))
        return ["%s--;" % t], lambda a: put(a, get(a) - 1)

    def callable(self):
        l = [(n, e) for n, e in self.visible(("func",)) if e.callable_from(self.cur)]
        if not l: return None
        n, e = self.r.choice(l)
        self.use(n, e)
        return n, e, [self.leafint() for _ in e.params]
    def leafint(self):
        x = self.leaf()
        if "sizeof" in x[0]: return ("7", 16, lambda a: 7)
        return x

    def mk(self, kind, **k):
        self.vdecls += 1
        k.setdefault("ready", True)
        return Ent(kind, **k)

    def room(self):
        return self.vdecls < 150

    def name(self):
        r = self.r
        if r.random() < 0.08 and self.funcs: return r.choice(self.funcs).name
        return r.choice(POOL)

    def fresh(self):
        """a name not declared yet in the innermost scope"""
        for _ in range(8):
            n = self.name()
            if n not in self.scopes[-1]["n"]: return n
        return None

    def typename(self, want=None):
        """text, type code: a base type or a visible typedef for one"""
        r = self.r
        l = [(n, e) for n, e in self.visible(("typedef",)) if e.t in TN]
        if l and r.random() < 0.4:
            n, e = r.choice(l)
            self.use(n, e)
            return n, e.t
        t = r.choice("iiiucb")
        return r.choice([TN[t], TN[t], "const " + TN[t] if t in "iuc" else TN[t], "register " + TN[t] if t in "iuc" else TN[t]]), t

    def decl(self):
        """a local declaration"""
        r = self.r
        sc = self.scopes[-1]
        n = self.fresh()
        if n is None or not self.room(): return self.P()
        c = r.random()
        lvl = len(self.scopes)
        if c < 0.36:
            tx, t = self.typename()
            text, fns = [], []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                n = self.fresh()
                if n is None or n == tx: break
                e = self.mk("var", t=t, stat=False, where="local", size=SZ[t], ready=False)
                if r.random() < 0.08:
                    # the new name is in scope in its own initialiser
                    sc["n"][n] = e
                    text.append("%s = sizeof(%s) + %d" % (n, n, 1))
                    fns.append(lambda a, e=e: a.loc.__setitem__(e.uid, conv(e.t, e.size + 1)))
                else:
                    hid = sc["n"].get(n)
                    sc["n"][n] = e      # hides the outer one from here on
                    x = self.expr(2)
                    text.append("%s = %s" % (n, x[0]))
                    fns.append(lambda a, e=e, x=x: a.loc.__setitem__(e.uid, conv(e.t, x[2](a))))
                e.ready = True
            if not text: return self.P()
            def run(a):
                for f in fns: f(a)
            return ["%s %s;" % (tx, ", ".join(text))], run
        if c < 0.5:
            tx, t = self.typename()
            if n == tx: return self.P()
            e = self.mk("var", t=t, stat=False, where="uninit", size=SZ[t], ready=False)
            sc["n"][n] = e
            x = self.expr(1)
            e.ready = True
            return ["%s %s;" % (tx, n), "%s = %s;" % (n, x[0])], lambda a: a.loc.__setitem__(e.uid, conv(t, x[2](a)))
        if c < 0.66 and self.nstat < 3:
            self.nstat += 1
            tx, t = self.typename()
            if n == tx: return self.P()
            e = self.mk("var", t=t, stat=True, where="static", size=SZ[t])
            sc["n"][n] = e
            self.statics.append((e.uid, 0))
            return [r.choice(["static %s %s;", "static %s %s;", "%s static %s;" if " " not in tx and tx in TN.values() else "static %s %s;"]) % (tx, n)], lambda a: None
        if c < 0.74 and self.arrays < 20:
            stat = r.random() < 0.5 and self.nstat < 3
            self.nstat += stat
            t = r.choice("iiucb")
            k = self.constexpr(True)
            bn = k[0]
            if r.random() < 0.3:
                l = [(m, e) for m, e in self.visible(("enum",)) if 1 <= e.val <= 6]
                if l:
                    m, ee = r.choice(l)
                    if m != n: bn, k = m, (m, ee.val); self.use(m, ee)
            e = self.mk("arr", t=t, n=k[1], stat=stat, where="arr", size=SZ[t] * k[1])
            self.arrays += 1
            sc["n"][n] = e
            if stat:
                self.statics.append((e.uid, [0] * k[1]))
                return ["static %s %s[%s];" % (TN[t], n, bn)], lambda a: None
            v = r.randrange(50)
            def run(a): a.loc[e.uid] = [conv(t, v + 3 * j) for j in range(k[1])]
            return ["%s %s[%s];" % (TN[t], n, bn)] + ["%s[%d] = %d;" % (n, j, v + 3 * j) for j in range(k[1])], run
        if c < 0.84:
            # enumeration
            names, val, items = [], 0, []
            tagname = r.choice(["", " E", " F"])
            for _ in range(r.choice([1, 2, 3])):
                m = self.fresh()
                if m is None or m in [q[0] for q in items]: break
                if r.random() < 0.5:
                    x = self.constexpr()
                    val = I(x[1])
                    items.append((m, " = " + x[0]))
                else: items.append((m, ""))
                e = self.mk("enum", val=val, where="enum")
                sc["n"][m] = e     # in scope right after its own enumerator
                val = I(val + 1)
            if not items: return self.P()
            return ["enum%s { %s };" % (tagname, ", ".join(a + b for a, b in items))], lambda a: None
        if c < 0.92:
            tx, t = self.typename()
            if r.random() < 0.2 and self.arrays < 20:
                k = r.randrange(1, 7)
                self.arrays += 1
                sc["n"][n] = self.mk("typedef", t="arr", size=SZ[t] * k, where="typedef")
                return ["typedef %s %s[%d];" % (tx, n, k)], lambda a: None
            if r.random() < 0.2:
                sc["n"][n] = self.mk("typedef", t="ptr", size=2, where="typedef")
                return ["typedef %s *%s;" % (tx, n)], lambda a: None
            sc["n"][n] = self.mk("typedef", t=t, size=SZ[t], where="typedef")
            return ["typedef %s %s;" % (tx, n)], lambda a: None
        return self.structdecl(n)

    def structdecl(self, n, glob=False):
        r = self.r
        sc = self.scopes[-1]
        live = sum(len(s["t"]) for s in self.scopes)
        tags = [(t, self.tag(t)) for t in TAGS if self.tag(t)]
        if tags and (r.random() < 0.5 or live > 5):
            t, te = r.choice(tags)
            text, vn = "%s %s" % (te.kw, t), n
            if te.kind != "tag": return self.P()
        else:
            cand = [t for t in TAGS if t not in sc["t"]]
            if not cand or live > 5 or self.members > 24: return self.P() if not glob else None
            t = r.choice(cand)
            kw = r.choice(["struct", "struct", "union"])
            mem, seen, size = [], set(), 0
            for _ in range(r.choice([1, 2, 3])):
                m = r.choice(POOL + ["next"])
                if m in seen: continue
                seen.add(m)
                ty = r.choice("iiucb")
                k = r.choice([1, 1, 1, 2, 3]) if self.arrays < 20 else 1
                if k > 1: self.arrays += 1
                mem.append((m, ty, k))
                self.members += 1
                b = SZ[ty] * k
                size = max(size, b) if kw == "union" else size + b
            if kw == "union": mem = mem[:1]; size = SZ[mem[0][1]] * mem[0][2]
            te = Ent("tag", kw=kw, mem=mem, size=size, ready=True)
            sc["t"][t] = te
            self.keys.add(("tag", kw, size, sum(t in s["t"] for s in self.scopes)))
            text = "%s %s { %s }" % (kw, t, " ".join("%s %s%s;" % (TN[ty], m, "[%d]" % k if k > 1 else "") for m, ty, k in mem))
            if r.random() < 0.4: return ([text + ";"], lambda a: None) if not glob else (text + ";", None)
        stat = glob or r.random() < 0.5 and self.nstat < 3
        self.nstat += stat and not glob
        dn = n      # sometimes with other declarators in front
        if self.arrays < 18 and not (stat and not glob) and r.random() < 0.3:
            self.arrays += 1
            self.uniq = getattr(self, "uniq", 0) + 1
            dn = "%s, %s" % (r.choice(["zz%d[%d]", "*zz%d[%d]"]) % (self.uniq, r.randrange(1, 4)), n)
            self.vdecls += 1
        e = self.mk("sv", mem=te.mem, stat=stat, where="struct", size=te.size, t=None)
        sc["n"][n] = e
        init = {(m, j): 0 for m, ty, k in te.mem for j in range(k)}
        if glob:
            self.statics.append((e.uid, init))
            return "%s %s;" % (text, dn), e
        if stat:
            self.statics.append((e.uid, init))
            return ["static %s %s;" % (text, n)], lambda a: None
        lines, vals = ["%s %s;" % (text, dn)], {}
        for m, ty, k in te.mem:
            for j in range(k):
                v = r.randrange(200)
                vals[(m, j)] = conv(ty, v)
                lines.append("%s.%s%s = %d;" % (n, m, "[%d]" % j if k > 1 else "", v))
        return lines, lambda a: a.loc.__setitem__(e.uid, dict(vals))

    def push(self): self.scopes.append({"n": {}, "t": {}}); self.marks.append((self.arrays, self.members, self.vdecls))
    def pop(self):
        self.scopes.pop()
        self.arrays, self.members, v = self.marks.pop()

    def block(self, d, pre=None):
        r = self.r
        self.push()
        lines, fns = [], []
        if pre: 
            l, f = pre()
            lines += l; fns.append(f)
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            l, f = self.stmt(d)
            lines += l
            fns.append(f)
        self.pop()
        def run(a):
            for f in fns: f(a)
        return lines, run

    def stmt(self, d):
        r = self.r
        c = r.random()
        self.size += 1
        if self.size > 70: d = 0
        if c < 0.34: return self.decl()
        if c < 0.48: return self.P()
        if c < 0.62 or d <= 0: return self.assign()
        if c < 0.72:
            l, f = self.block(d - 1)
            return ["{"] + l + ["}"], f
        if c < 0.78:
            e = self.expr(1)
            l, f = self.block(d - 1)
            l2, f2 = self.block(d - 1)
            def run(a):
                if e[2](a) & 0xffff: f(a)
                else: f2(a)
            return ["if (%s) {" % e[0]] + l + ["} else {"] + l2 + ["}"], run
        if c < 0.88:
            # a loop whose counter lives in a scope around the body's
            self.push()
            n = r.choice(POOL)
            k = r.randrange(1, 4)
            e = self.mk("var", t="i", stat=False, where="for", size=2)
            self.scopes[-1]["n"][n] = e
            e.ready = False       # don't modify the counter
            self.loop += 1
            guard = "g%d" % self.loop
            l, f = self.block(d - 1)
            e.ready = True
            x = self.expr(1) if r.random() < 0.3 else None
            self.pop()
            def run(a):
                a.loc[e.uid] = 0
                while a.loc[e.uid] < k:
                    a.m.fuel -= 1
                    if a.m.fuel < 0: raise Stop()
                    try: f(a)
                    except Cont: pass
                    except Brk: break
                    if x: x[2](a)
                    a.loc[e.uid] += 1
            self.keys.add(("fordecl", len(self.scopes)))
            inc = r.choice(["%s++", "++%s"]) % n
            if x: inc = "%s, %s" % (x[0] if x[1] > 1 else "(%s)" % x[0], inc)
            return ["{", "int %s;" % n, "for (%s = 0; %s < %d; %s) {" % (n, n, k, inc)] + l + ["}", "}"], run
        if c < 0.93:
            # switch on a value with enumerators as case labels
            l = [(n, e) for n, e in self.visible(("enum",))]
            r.shuffle(l)
            l = [x for i, x in enumerate(l) if x[1].val not in [y[1].val for y in l[:i]]][:3]
            if not l: return self.P()
            e = self.expr(1)
            text, arms = ["switch (%s) {" % e[0]], []
            for n, en in l:
                b, f = self.block(d - 1)
                self.use(n, en)
                text += ["case %s: {" % n] + b + ["} break;"]
                arms.append((en.val, f))
            b, f0 = self.block(d - 1)
            text += ["default: {"] + b + ["}", "}"]
            def run(a):
                v = I(e[2](a))
                for k, f in arms:
                    if k == v: return f(a)
                f0(a)
            return text, run
        if c < 0.96 and self.nlabels < 6:
            # a label named like something else, jumped to from its own block
            n = r.choice([x for x in POOL if x not in self.flabels] or [None])
            if n is None or (self.look(n) and self.look(n).kind == "typedef"): return self.P()
            self.flabels.add(n)
            self.nlabels += 1
            e = self.expr(1)
            l, f = self.block(0)
            self.keys.add(("label", bool(self.look(n))))
            def run(a):
                if not e[2](a) & 0xffff: f(a)
            return ["if (%s) goto %s;" % (e[0], n), "{"] + l + ["}", "%s:;" % n], run
        if c < 0.975 and len(self.scopes) > 3:
            e = self.expr(2)
            x = self.expr(1)
            def run(a):
                if x[2](a) & 0xffff: raise Ret(e[2](a))
            return ["if (%s) return %s;" % (x[0], e[0])], run
        f = self.callable()
        if f:
            n, fe, args = f
            return ["P(%s(%s));" % (n, ", ".join(x[0] for x in args))], lambda a: a.m.P(a.m.call(fe, [x[2](a) for x in args]))
        return self.P()

    def function(self, i, name):
        r = self.r
        self.nstat = self.size = self.loop = self.nlabels = 0
        self.flabels = set()
        f = [e for e in self.funcs if e.name == name][0]
        self.cur = i
        self.push()
        for n, p in zip(f.pnames, f.params):
            self.scopes[-1]["n"][n] = p
        self.vdecls += len(f.params)
        # the body's block may redeclare the parameters' names in nested blocks only
        body_scope = {"n": {}, "t": {}}
        lines, fns = [], []
        for _ in range(r.choice([2, 4, 6, 9])):
            l, g = self.stmt(3)
            lines += l
            fns.append(g)
        e = self.expr(2)
        self.pop()
        self.vdecls = self.gdecls
        def run(a):
            for g in fns: g(a)
            raise Ret(e[2](a))
        f.body = run
        return "int %s(%s)\n{\n%s\n    return %s;\n}\n" % (name, ", ".join("%s %s" % (TN[p.t], n) for n, p in zip(f.pnames, f.params)) or "void", "\n".join("    " + l for l in lines), e[0])

    def program(self):
        r = self.r
        self.marks = []
        self.statics = []
        self.push()
        g = self.scopes[0]
        self.layout = []      # (name, size, initialised)
        nf = r.choice([1, 2, 3, 4])
        fnames = ["f%d" % i for i in range(nf)]
        for i, n in enumerate(fnames):
            k = r.randrange(3)
            e = Ent("func", name=n, params=[Ent("var", t=r.choice("iiucb"), stat=False, where="param", size=0, ready=True) for _ in range(k)],
                    pnames=r.sample(POOL, k), where="func", ready=True)
            for p in e.params: p.size = SZ[p.t]
            e.callable_from = lambda j, i=i: i < j
            e.called = False
            self.funcs.append(e)
        proto = set(i for i in range(nf) if r.random() < 0.4)
        out, tail = [], []
        for i in proto:
            f = self.funcs[i]
            out.append("int %s(%s);\n" % (f.name, ", ".join(TN[p.t] + (" " + n if r.random() < 0.5 else "") for n, p in zip(f.pnames, f.params)) or "void"))
        for f in self.funcs: g["n"][f.name] = f
        self.cur = -1
        def globals_(count):
            txt = []
            for _ in range(count):
                n = r.choice([x for x in POOL + ["g1", "g2", "g3"] if x not in g["n"]] or [None])
                if n is None: break
                c = r.random()
                if c < 0.5:
                    tx, t = self.typename()
                    tx = tx.replace("register ", "")
                    init = r.random() < 0.5
                    e = self.mk("var", t=t, stat=True, where="ginit" if init else "global", size=SZ[t])
                    pre = r.choice(["", "", "static "])
                    if init:
                        x = self.constexpr()
                        redecl = r.random()
                        if redecl < 0.15: txt.append("%s%s %s;\n" % (pre, tx, n))
                        txt.append("%s%s %s = %s;\n" % (pre, tx, n, x[0]))
                        if redecl > 0.9: txt.append("%s%s %s;\n" % (pre, tx, n))
                        self.statics.append((e.uid, conv(t, x[1])))
                    else:
                        for _ in range(r.choice([1, 1, 1, 2])): txt.append("%s%s %s;\n" % (r.choice([pre, "extern "]) if not pre else pre, tx, n))
                        self.statics.append((e.uid, 0))
                    g["n"][n] = e
                    self.layout.append((n, SZ[t], init))
                elif c < 0.6 and self.arrays < 8:
                    t, k = r.choice("iucb"), r.randrange(1, 7)
                    e = self.mk("arr", t=t, n=k, stat=True, where="garr", size=SZ[t] * k)
                    self.arrays += 1
                    g["n"][n] = e
                    self.statics.append((e.uid, [0] * k))
                    self.layout.append((n, e.size, False))
                    txt.append("%s %s[%d];\n" % (TN[t], n, k))
                elif c < 0.7 and self.arrays < 8:
                    s = "".join(r.choice("abcXYZ 019") for _ in range(r.randrange(0, 7)))
                    t = r.choice("cb")
                    e = self.mk("arr", t=t, n=len(s) + 1, stat=True, where="gstr", size=len(s) + 1)
                    self.arrays += 1
                    g["n"][n] = e
                    self.statics.append((e.uid, [ord(x) for x in s] + [0]))
                    self.layout.append((n, e.size, True))
                    txt.append("%s%s %s[] = \"%s\";\n" % (r.choice(["", "const ", "static "]), TN[t], n, s))
                elif c < 0.82:
                    val, items = 0, []
                    for _ in range(r.choice([1, 2, 3])):
                        m = r.choice([x for x in POOL + ["E1", "E2"] if x not in g["n"]] or [None])
                        if m is None: break
                        if r.random() < 0.5:
                            x = self.constexpr()
                            val = I(x[1]); items.append("%s = %s" % (m, x[0]))
                        else: items.append(m)
                        g["n"][m] = self.mk("enum", val=val, where="genum")
                        val = I(val + 1)
                    if items: txt.append("enum { %s };\n" % ", ".join(items))
                elif c < 0.9:
                    tx, t = self.typename()
                    g["n"][n] = self.mk("typedef", t=t, size=SZ[t], where="gtypedef")
                    txt.append("typedef %s %s;\n" % (tx.replace("register ", ""), n))
                else:
                    x = self.structdecl(n, True)
                    if x:
                        txt.append(x[0] + "\n")
                        if x[1] is not None: self.layout.append((n, x[1].size, False))
            return txt
        out += globals_(r.choice([1, 3, 5]))
        self.gdecls = self.vdecls
        main_args, calls = "", []
        for i in range(nf):
            self.gdecls = self.vdecls
            out.append(self.function(i, fnames[i]))
            self.vdecls = self.gdecls
            if r.random() < 0.5: out += globals_(r.choice([1, 2]))
        # Main calls everything several times
        self.cur = nf
        lines, fns = [], []
        self.push()
        for _ in range(r.choice([3, 6, 10])):
            f = r.choice(self.funcs)
            a = [r.choice([0, 1, 2, -1, 7, 300, 200]) for _ in f.params]
            lines.append("    P(%s(%s));\n" % (f.name, ", ".join(map(str, a))))
            fns.append((f, a))
        tailv = []
        for n, e in g["n"].items():
            if e.kind == "var":
                lines.append("    P(%s);\n" % n); tailv.append(lambda m, e=e: m.glob[e.uid])
            elif e.kind == "arr":
                for k in range(e.n):
                    lines.append("    P(%s[%d]);\n" % (n, k)); tailv.append(lambda m, e=e, k=k: m.glob[e.uid][k])
            elif e.kind == "sv":
                for (mm, ty, k) in e.mem:
                    for j in range(k):
                        lines.append("    P(%s.%s%s);\n" % (n, mm, "[%d]" % j if k > 1 else "")); tailv.append(lambda m, e=e, q=(mm, j): m.glob[e.uid][q])
        self.pop()
        m = Machine()
        for uid, v in self.statics: m.glob[uid] = v.copy() if isinstance(v, (list, dict)) else v
        for f, a in fns: m.P(m.call(f, a))
        for t in tailv: m.P(t(m))
        mtext = "void Main(void)\n{\n%s}\n" % "".join(lines)
        return "".join(out), mtext, "".join(m.out)
