import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cprog import *

AVOID = set(os.environ.get("AVOID", "").split())

TEMPLATES = [
    ("int %s(int a) { return a; }", INT, [INT], lambda g: (lambda rt, a: a[0])),
    ("int %s(int a, int b) { return a - b; }", INT, [INT, INT], lambda g: (lambda rt, a: I(a[0] - a[1]))),
    ("unsigned %s(unsigned a, unsigned b) { return (a ^ b) + 1; }", UINT, [UINT, UINT], lambda g: (lambda rt, a: U((a[0] ^ a[1]) + 1))),
    ("char %s(char a) { return a; }", CHAR, [CHAR], lambda g: (lambda rt, a: C8(a[0]))),
    ("unsigned char %s(int a, unsigned char b) { return b; }", UCHAR, [INT, UCHAR], lambda g: (lambda rt, a: a[1] & 255)),
    ("int %s(void) { return 4660; }", INT, [], lambda g: (lambda rt, a: 4660)),
    ("int %s(int a, int b, int c) { return a + (b & c); }", INT, [INT] * 3, lambda g: (lambda rt, a: I(a[0] + (a[1] & a[2])))),
    ("int %s(int a, int b, int c, int d, int e) { return a - b + c - d + e; }", INT, [INT] * 5, lambda g: (lambda rt, a: I(a[0] - a[1] + a[2] - a[3] + a[4]))),
]

class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.p = Prog(rng)
        self.rt = Rt()
        self.top = []     # global text
        self.glob = []
        self.funcs = []
        self.exprs = 0
        self.keys = set()
        self.where = []   # (number of output lines so far, statement)

    def mkvar(self, t, store, prefix, fp=False):
        a = self.rt.M.alloc(self.p.size(t))
        return Var(self.p.name(prefix), t, store, str(a))

    def setval(self, v, x):
        self.rt.WR[v.t[0]](int(v.addr), x)

    def rnd(self):
        r = self.rng
        x = r.choice(INTERESTING) if r.random() < 0.6 else r.randrange(65536)
        return I(-x if r.random() < 0.35 else x)

    def scalars(self, base, t, addr):
        """(text, type, addr) of the scalar parts of an object."""
        k = t[0]
        if k == "a":
            for i in range(t[2]):
                yield from self.scalars("%s[%d]" % (base, i), t[1], addr + i * self.p.size(t[1]))
        elif k == "s":
            for n, mt in self.p.structs[t[1]]["members"]:
                off, mt = self.p.member_off(t[1], n)
                yield from self.scalars("%s.%s" % (base, n), mt, addr + off)
        else:
            yield base, t, addr

    def init_stmts(self, v):
        out = []
        for txt, t, a in self.scalars(v.name, v.t, int(v.addr)):
            x = self.rnd()
            out.append("    %s = %d;\n" % (txt, x if x != -32768 else -32767))
            self.rt.WR[t[0]](a, x if x != -32768 else -32767)
        return out

    def dump(self, v):
        out = []
        for txt, t, a in self.scalars(v.name, v.t, int(v.addr)):
            out.append("    P(%s);\n" % txt)
            self.rt.P(self.rt.RD[t[0]](a))
        return out

    def attempt(self, py):
        snap, n = bytes(self.rt.M.m), len(self.rt.out)
        try:
            return True, eval(py, self.rt.g)
        except (UB, RecursionError):
            self.rt.M.m[:] = snap
            del self.rt.out[n:]
            return False, None

    def program(self, nfun=4, nst=14, depth=4):
        r, p = self.rng, self.p
        # struct
        ms = [(p.name("m"), t) for t in (INT, CHAR, UINT, UCHAR, INT)]
        r.shuffle(ms)
        p.structs.append(dict(name=p.name("S"), union=False, members=ms[:r.randrange(2, 6)]))
        self.top.append(p.struct_def(0))
        for t in (INT, INT, UINT, CHAR, UCHAR, Arr(INT, 4), Arr(CHAR, 5), Arr(UCHAR, 3), Arr(UINT, 2), Struct(0), Arr(Struct(0), 2)):
            v = self.mkvar(t, "global", "g")
            self.glob.append(v)
            if t[0] in "iu" and r.random() < 0.4:
                x = self.rnd()
                if x == -32768: x = 1
                self.top.append(p.decl(t, v.name) + " = %d;\n" % x)
                self.setval(v, x)
            else:
                self.top.append(p.decl(t, v.name) + ";\n")
        en = [(p.name("E"), r.choice(INTERESTING) * r.choice([1, -1])) for _ in range(3)]
        self.enums = en
        self.top.append("enum { %s };\n" % ", ".join("%s = %d" % e for e in en))
        for tmpl in TEMPLATES:
            text, ret, params, mk = tmpl
            nm = p.name("f")
            impl = mk(None)
            f = Func(nm, ret, params)
            f.impl = (lambda impl, params: lambda rt, a: impl(rt, [conv(t, x) for t, x in zip(params, a)]))(impl, params)
            self.rt.funcs[nm] = f
            self.funcs.append(f)
            self.top.append(text % nm + "\n")
        # a function with side effects on a global
        g = next(v for v in self.glob if v.t == INT)
        nm = p.name("f")
        f = Func(nm, INT, [INT], R=[g.name], W=[g.name])
        ga = int(g.addr)
        f.impl = lambda rt, a: rt.WR["i"](ga, rt.RD["i"](ga) * 3 + I(a[0]))
        self.rt.funcs[nm] = f
        self.funcs.append(f)
        self.top.append("int %s(int a) { %s = %s * 3 + a; return %s; }\n" % (nm, g.name, g.name, g.name))
        body = []
        main = []
        first = True
        for k in range(nfun):
            fn = p.name("t")
            params = []
            pt = [r.choice(ARITH) for _ in range(r.randrange(0, 6))]
            vals = []
            for t in pt:
                v = self.mkvar(t, "param", "a")
                params.append(v)
                x = self.rnd()
                if x == -32768: x = 3
                vals.append(x)
                self.setval(v, x)
            text = []
            if first:
                for v in self.glob:
                    if v.t[0] in "as" or r.random() < 0.5:
                        text += self.init_stmts(v)
                first = False
            loc = []
            decls = []
            lt = [r.choice(ARITH) for _ in range(r.randrange(2, 6))] + r.sample([Arr(INT, 4), Arr(CHAR, 3), Struct(0), Arr(UCHAR, 4), Arr(Struct(0), 3)], r.randrange(0, 3))
            if r.random() < 0.3: lt.insert(0, Arr(INT, 80))   # push later locals beyond an 8-bit displacement
            r.shuffle(lt)
            text2 = []
            for t in lt:
                v = self.mkvar(t, "local", "l")
                if t == Arr(INT, 80):
                    decls.append("    %s;\n" % p.decl(t, v.name))
                    decls.append("    %s[0] = %s[1] = %s[63] = %s[79] = 5;\n" % ((v.name,) * 4))
                    continue
                if is_arith(t) and r.random() < 0.6:
                    x = self.rnd()
                    if x == -32768: x = 9
                    decls.append("    %s = %d;\n" % (p.decl(t, v.name), x))
                    self.setval(v, x)
                else:
                    decls.append("    %s;\n" % p.decl(t, v.name))
                    text2 += self.init_stmts(v)
                loc.append(v)
            text = decls + text + text2
            vars_ = self.glob + params + loc + params + loc
            eg = EG(p, vars_, r, AVOID, self.funcs)
            orig_leaf = eg.leaf
            def leaf():
                if r.random() < 0.05:
                    n, x = r.choice(en)
                    return N(INT, n, 20, str(x), const=x, key="E")
                return orig_leaf()
            eg.leaf = leaf
            labels = 0
            i = 0
            while i < nst and labels < 220:
                d = r.choice([1, 2, 2, 3, 3, depth, depth + 1])
                e = eg.expr(d)
                if e.cost > 60: continue
                form = r.random()
                if form < 0.55:
                    st, py = "P(%s);" % (e.c if e.prec >= 2 else "(" + e.c + ")"), "P(%s)" % load(e)
                elif form < 0.72:
                    a, b = r.randrange(1000), r.randrange(1000)
                    st, py = "if (%s) P(%d); else P(%d);" % (e.c, a, b), "P(%d if (%s) else %d)" % (a, load(e), b)
                elif form < 0.80:
                    lv = eg.lvalue(is_arith, 2, write=True)
                    a = eg.assign_raw(lv, e) if lv else None
                    if a is None or eg.clash(e.W, lv.R | lv.W) or eg.clash(lv.W, eg.rset(e) | e.W): continue
                    st, py = a.c + ";", a.py
                elif form < 0.84:
                    st, py = "%s;" % e.c, load(e)
                    if e.c[0] in "(": pass
                elif form < 0.88:
                    a = r.randrange(1000)
                    st, py = "while (%s) { P(%d); break; }" % (e.c, a), "P(%d) if (%s) else 0" % (a, load(e))
                    if e.const is not None: continue
                elif form < 0.91:
                    v = self.mkvar(r.choice([INT, UINT]), "local", "d")
                    if e.dub and 0: continue
                    st, py = "%s = %s;" % (p.decl(v.t, v.name), e.c if e.prec >= 2 else "(" + e.c + ")"), "w%s(%s,%s)" % (v.t[0], v.addr, load(e))
                    ok, _ = self.attempt(py)
                    if not ok: continue
                    text.append("    " + st + "\n")
                    loc.append(v); eg.vars.append(v)
                    i += 1; labels += e.labels; self.exprs += 1; self.keys.add(h(e.key))
                    continue
                elif form < 0.94:
                    a, b = r.randrange(1000), r.randrange(1000)
                    st, py = "do { P(%d); if (n_++) break; } while (%s); " % (a, e.c), None
                    continue
                else:
                    st, py = "switch (%s) { case 0: P(1); break; case 1: P(2); break; case -1: P(3); break; default: P(4); }" % e.c, "P({0:1,1:2,-1:3,65535:3}.get(%s,4))" % load(e)
                    if e.const is not None: continue
                    labels += 10
                ok, _ = self.attempt(py)
                if not ok: continue
                text.append("    " + st + "\n")
                self.where.append((len(self.rt.out), st))
                i += 1
                labels += e.labels + 2
                self.exprs += 1
                self.keys.add(h(e.key))
            for v in loc + params:
                text += self.dump(v)
            ret = r.choice(ARITH)
            for _ in range(10):
                e = eg.expr(3)
                if not self.attempt(load(e))[0]: continue
                # side effects: evaluated as a statement first, then again for the value
                if e.W: text.append("    %s;\n" % e.c)
                ok, val = self.attempt(load(e))
                if ok: break
            else:
                e, val = eg.lit(7), 7
            text.append("    return %s;\n" % e.c)
            self.rt.P(conv(ret, val))
            body.append("%s(%s)\n{\n%s}\n" % (p.decl(ret, fn), ", ".join(p.decl(v.t, v.name) for v in params) or r.choice(["", "void"]), "".join(text)))
            main.append("    P(%s(%s));\n" % (fn, ", ".join(str(x) for x in vals)))
        tail = []
        for v in self.glob:
            tail += self.dump(v)
        src = "".join(self.top) + PRELUDE + "".join(body) + "void Main(void)\n{\n" + "".join(main) + "".join(tail) + "}\n"
        return src, "".join(self.rt.out)

def case(ctx, rng, d, i):
    g = Gen(rng)
    try:
        src, exp = g.program(depth=rng.choice([3, 4, 5]))
    except TooLong:
        return None
    try:
        j = run_and_compare(ctx, d, src, exp, seed=rng.randrange(1 << 20), exe=ctx.scc_san if i % 4 == 0 else ctx.scc)
    except Violation as v:
        if v.key is not None:
            v.msg += " at or before: " + next((s for n, s in g.where if n > v.key), "?")
        raise
    return dict(evals=g.exprs, keys=g.keys, sample=src[-900:] if i < 3 else None,
                add=dict(programs=1, values_compared=exp.count("\n"), steps=j["steps"], calls_checked=j["calls"]), max=dict(opcodes=j["opcodes"]))

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scc:san"])
    run_probes(c, t, "C01")
    c.pool(case, c.n(4000, 120000), t)

if __name__ == "__main__":
    vlib.main("C01", "each evaluation is one generated statement whose value was printed by the compiled program on the reference 8086 and compared with the reference interpreter; distinct counts different expression shapes (operators, operand storage and type)", body)
