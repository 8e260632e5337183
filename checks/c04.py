import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cprog import *

class Lim(Exception): pass

class F:
    """One generated function."""
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params   # params: list of (name, type) ; type in "iucb" or ("fp", arity) or "pi"
        self.va = False
        self.body = None      # fn(env, S) -> value
        self.kind = ""

def cv(t, v):
    return {"i": I, "u": U, "c": C8, "b": lambda x: x & 255, "v": lambda x: 0}[t](v)

TN = {"i": "int", "u": "unsigned", "c": "char", "b": "unsigned char", "v": "void"}

class S:
    """Execution state of the reference."""
    def __init__(self):
        self.cnt = {}
        self.g = {}
        self.depth = 0
        self.calls = 0
        self.out = []
    def P(self, v): self.out.append("%04X\n" % (v & 0xffff))
    def call(self, f, args):
        self.calls += 1
        self.depth += 1
        if self.depth > 40 or self.calls > 4000: raise Lim()
        self.cnt[f.name] = self.cnt.get(f.name, 0) + 1
        env = {}
        if f.va:
            n = len(f.params)
            env = {p[0]: cv(p[1], a) for p, a in zip(f.params, args)}
            env["..."] = [I(a) for a in args[n:]]
        else:
            env = {p[0]: (a if isinstance(p[1], tuple) or p[1] == "pi" else cv(p[1], a)) for p, a in zip(f.params, args)}
        v = f.body(env, self)
        self.depth -= 1
        return 0 if f.ret == "v" else cv(f.ret, v)

class G:
    def __init__(self, rng):
        self.r = rng
        self.fs = []
        self.keys = set()
        self.ncalls = 0
        self.labels = 0

    def fpvars(self, vars, ar):
        return [v for v in vars if isinstance(v[1], tuple) and v[1][1] == ar]

    def fvalue(self, ar, vars):
        """A function designator of the given arity taking ints: (text, fn)"""
        r = self.r
        c = [f for f in self.fs if f.kind == "plain" and f.ret == "i" and len(f.params) == ar and all(t == "i" for _, t in f.params)]
        vs = self.fpvars(vars, ar)
        if vs and (r.random() < 0.5 or not c):
            v = r.choice(vs)
            return v[0], lambda e, s: (e[v[0]] if v[0] in e else s.g[v[0]])
        if not c: return None
        f = r.choice(c)
        return (f.name if r.random() < 0.7 else "&" + f.name), lambda e, s: f

    def expr(self, vars, d, calls=True):
        """(text, prec, fn, maybe_unsigned)"""
        r = self.r
        c = r.random()
        sv = [v for v in vars if v[1] in ("i", "u", "c", "b")]
        if d <= 0 or c < 0.14:
            if sv and r.random() < 0.7:
                v = r.choice(sv)
                if v[0].startswith("G"): return v[0], 16, (lambda e, s: s.g[v[0]]), v[1] == "u"
                return v[0], 16, (lambda e, s: e[v[0]]), v[1] == "u"
            k = r.choice(INTERESTING)
            if r.random() < 0.3: return "-%d" % k, 14, (lambda e, s: -k), False
            return str(k), 16, (lambda e, s: k), False
        if c < 0.6 and calls:
            x = self.call(vars, d)
            if x: return x
        if c < 0.85:
            op = r.choice(["+", "-", "^", "&", "|", "*", "+", "-", "==", "!=", "<", ">="])
            a, b = self.expr(vars, d - 1, calls), self.expr(vars, d - 1, calls)
            if op in ("<", ">=") and (a[3] or b[3]): op = "!="
            if op == "*": b = (lambda k: (str(k), 16, lambda e, s: k, False))(r.choice([2, 3, 5, 7, 10]))
            p = PREC[op]
            f, g = a[2], b[2]
            fn = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "^": lambda x, y: x ^ y, "&": lambda x, y: x & y, "|": lambda x, y: x | y, "*": lambda x, y: x * y,
                  "==": lambda x, y: int(U(x) == U(y)), "!=": lambda x, y: int(U(x) != U(y)), "<": lambda x, y: int(x < y), ">=": lambda x, y: int(x >= y)}[op]
            u = (a[3] or b[3]) and op not in ("==", "!=", "<", ">=")
            w = U if u else I
            return "%s %s %s" % (self.par(a, p), op, self.par(b, p + 1)), p, (lambda e, s: w(fn(f(e, s), g(e, s)))), u
        if c < 0.9:
            a, b, x = self.expr(vars, d - 1, calls), self.expr(vars, d - 1, calls), self.expr(vars, d - 1, calls)
            f, g, h_ = a[2], b[2], x[2]
            u = b[3] or x[3]
            w = U if u else I
            self.labels += 3
            return "%s ? %s : %s" % (self.par(a, 4), self.par(b, 4), self.par(x, 3)), 3, (lambda e, s: w(g(e, s) if f(e, s) else h_(e, s))), u
        if c < 0.94:
            op = r.choice(["&&", "||"])
            a, b = self.expr(vars, d - 1, calls), self.expr(vars, d - 1, calls)
            f, g = a[2], b[2]
            self.labels += 3
            if op == "&&": fn = lambda e, s: int(bool(f(e, s)) and bool(g(e, s)))
            else: fn = lambda e, s: int(bool(f(e, s)) or bool(g(e, s)))
            return "%s %s %s" % (self.par(a, 8), op, self.par(b, 8)), PREC[op], fn, False
        if c < 0.97:
            a, b = self.expr(vars, d - 1, calls), self.expr(vars, d - 1, calls)
            f, g = a[2], b[2]
            def fn(e, s):
                f(e, s)
                return g(e, s)
            return "(%s, %s)" % (self.par(a, 2), self.par(b, 2)), 16, fn, b[3]
        a = self.expr(vars, d - 1, calls)
        f = a[2]
        w = U if a[3] else I
        op = r.choice(["-", "~"])
        return "%s(%s)" % (op, a[0]), 14, (lambda e, s: w(-f(e, s) if op == "-" else ~f(e, s))), a[3]

    def par(self, n, p):
        return n[0] if n[1] >= p and not n[0].startswith("-") else "(%s)" % n[0]

    def args(self, f, vars, d):
        out = []
        for n, t in f.params:
            if isinstance(t, tuple):
                x = self.fvalue(t[1], vars)
                if not x: return None
                out.append((x[0], 16, x[1], False))
            elif t == "pi":
                # pointer to an int object that holds a known value
                pv = [v for v in vars if v[1] == "i" and v[0].startswith("G")]
                if not pv: return None
                v = self.r.choice(pv)
                out.append(("&" + v[0], 16, (lambda v: lambda e, s: v[0])(v), False))
            else:
                out.append(self.expr(vars, d - 1))
        return out

    def call(self, vars, d):
        r = self.r
        c = r.random()
        if self.ncalls > 400: return None
        if c < 0.2:
            ar = r.choice([0, 1, 1, 2, 3, 5])
            x = self.fvalue(ar, vars) if self.fpvars(vars, ar) else None
            if x and x[0][0] != "&":
                args = [self.expr(vars, d - 1) for _ in range(ar)]
                fns = [a[2] for a in args]
                callee = x[1]
                self.ncalls += 1
                self.keys.add(("fp", ar, d))
                t = x[0] if r.random() < 0.6 else "(*%s)" % x[0]
                return "%s(%s)" % (t, ", ".join(self.par(a, 2) for a in args)), 15, (lambda e, s: s.call(callee(e, s), [f(e, s) for f in fns])), False
        cands = [f for f in self.fs if f.ret != "v"]
        if not cands: return None
        f = r.choice(cands)
        args = self.args(f, vars, d)
        if args is None: return None
        if f.va:
            k = r.choice([0, 1, 2, 3, 4, 7, 12])
            args = [(str(k), 16, lambda e, s: k, False)] + [self.expr(vars, d - 2) for _ in range(k)]
        self.ncalls += 1
        fns = [a[2] for a in args]
        self.keys.add((f.kind, f.ret, len(args), tuple(a[1] for a in args)[:6]))
        return "%s(%s)" % (f.name, ", ".join(self.par(a, 2) for a in args)), 15, (lambda e, s: s.call(f, [g(e, s) for g in fns])), f.ret == "u"

    # ---- functions
    def plain(self, i):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 8])
        ps = [("a%d" % k, r.choice("iiiiucb")) for k in range(n)]
        if r.random() < 0.4: ps = [(a, "i") for a, _ in ps]
        if r.random() < 0.15 and n < 8: ps.append(("q", "pi"))
        fps = []
        if r.random() < 0.25 and n < 7:
            fps = [("fn", ("fp", r.choice([1, 1, 2, 3])))]
            ps += fps
        # arguments of function pointer parameters count against the limit of 8 per declaration
        while len(ps) + sum(t[1] for _, t in ps if isinstance(t, tuple)) > 8: ps.pop(0)
        f = F("f%d" % i, r.choice("iiiiucb"), ps)
        if fps or any(t == "pi" for _, t in ps): f.kind = "ptr"
        else: f.kind = "plain"
        g0 = [("G0", "i"), ("G1", "u")]
        gl = [v for v in g0 if r.random() < 0.5]
        e = self.expr([p for p in ps if p[1] != "pi"] + gl, r.choice([0, 1, 2, 3]), True)
        terms, fns = [], []
        for k, (nm, t) in enumerate(ps):
            w = r.choice([1, 3, 5, -7, 256, 100])
            if isinstance(t, tuple):
                if r.random() < 0.8:
                    a = [r.randrange(50) for _ in range(t[1])]
                    terms.append("%s(%s)" % (nm, ", ".join(map(str, a))))
                    fns.append(lambda e, s, nm=nm, a=a: s.call(e[nm], a))
            elif t == "pi":
                terms.append("*q * 3"); fns.append(lambda e, s: s.g[e["q"]] * 3)
            elif w < 0: terms.append("%s * (%d)" % (nm, w)); fns.append(lambda e, s, nm=nm, w=w: e[nm] * w)
            else: terms.append("%s * %d" % (nm, w)); fns.append(lambda e, s, nm=nm, w=w: e[nm] * w)
        ef = e[2]
        layout = ""
        if ps and r.random() < 0.3 and all(not isinstance(t, tuple) for _, t in ps):
            # argument k lies at [BP+4+2k]
            k = r.randrange(len(ps))
            layout = "    if ((char*)&%s - (char*)&%s != %d) Bad();\n" % (ps[k][0], ps[0][0], 2 * k)
        loc = r.random() < 0.5
        text = "%s %s(%s)\n{\n    N%d++;\n%s" % (TN[f.ret], f.name, ", ".join(self.pdecl(p) for p in ps) or "void", i, layout)
        full = " + ".join(["(%s)" % e[0]] + terms)
        if loc:
            text += "    int x = %s;\n    int y = %s;\n    return x + y;\n}\n" % (e[0] if e[1] > 1 else "(%s)" % e[0], " + ".join(terms) or "0")
        else:
            text += "    return %s;\n}\n" % full
        f.body = lambda env, s: ef(env, s) + sum(g(env, s) for g in fns)
        return f, text

    def pdecl(self, p):
        n, t = p
        if t == "pi": return "int *" + n
        if isinstance(t, tuple): return "int (*%s)(%s)" % (n, ", ".join(["int"] * t[1]) or "void")
        return "%s %s" % (TN[t], n)

    def varargs(self, i):
        r = self.r
        f = F("f%d" % i, "i", [("n", "i")])
        f.va, f.kind = True, "va"
        w = r.choice([1, 2, 3, -1])
        sty = r.randrange(3)
        loop = ["    while (n--) s = s * %d + va_arg(l, int);\n", "    int k;\n    for (k = 0; k < n; k++) { int v = va_arg(l, int); s = s * %d + v; }\n",
                "    while (n) { --n; s *= %d; s += va_arg(l, int); }\n"][sty] % w if w > 0 else "    while (n-- > 0) s = -s + va_arg(l, int);\n"
        text = "int %s(int n, ...)\n{\n    N%d++;\n    va_list l;\n    va_start(l, n);\n    int s = 0;\n%s    va_end(l);\n    return s;\n}\n" % (f.name, i, loop)
        def body(env, s):
            v = 0
            for a in env["..."]: v = I(v * w + a)
            return v
        f.body = body
        return f, text

    def recursive(self, i):
        r = self.r
        f = F("f%d" % i, "i", [("n", "i"), ("a", "i")])
        f.kind = "rec"
        k = r.randrange(4)
        c1, c2, m = r.choice([1, 2, 3]), r.choice([3, 5, -1]), r.choice([3, 4, 6])
        me = f.name
        e = self.expr([("n", "i"), ("a", "i")], 1, False)
        if k == 0:
            t = "if (n <= 0) return %s;\n    return n * %d - %s(n - %d, a ^ n) + a;" % (e[0], c1, me, c1)
            def body(env, s): 
                n, a = env["n"], env["a"]
                return e[2](env, s) if n <= 0 else n * c1 - s.call(f, [n - c1, a ^ n]) + a
        elif k == 1:
            t = "return n < 2 ? a : %s(n - 1, a + 1) + %s(n - 2, a - n) * 3;" % (me, me)
            def body(env, s):
                n, a = env["n"], env["a"]
                return a if n < 2 else s.call(f, [n - 1, a + 1]) + s.call(f, [n - 2, a - n]) * 3
        elif k == 2:
            t = "int x = n * 5;\n    if (n > 0) x -= %s(n - 1, %s(0, a) + n);\n    return x + a;" % (me, me)
            def body(env, s):
                n, a = env["n"], env["a"]
                x = I(n * 5)
                if n > 0: x = I(x - s.call(f, [n - 1, s.call(f, [0, a]) + n]))
                return x + a
        else:
            t = "while (n > 0) { a = %s(n - 2, a + n); n--; if (a & 1) n -= 2; }\n    return a - n;" % me
            def body(env, s):
                n, a = env["n"], env["a"]
                while n > 0:
                    a = s.call(f, [n - 2, I(a + n)])
                    n = I(n - 1)
                    if a & 1: n = I(n - 2)
                return a - n
        text = "int %s(int n, int a)\n{\n    N%d++;\n    %s\n}\n" % (me, i, t)
        f.body = body
        f.small = True
        return f, text

    def program(self):
        r = self.r
        top, funcs = [], []
        nf = r.choice([2, 3, 5, 7])
        for i in range(nf):
            k = r.random()
            self.labels = 0
            f, text = (self.plain if k < 0.68 else self.varargs if k < 0.82 else self.recursive)(i)
            funcs.append((f, text, i))
            self.fs.append(f)
        s = S()
        s.g = {"G0": 77, "G1": 40000}
        decl = "int G0;\nunsigned G1;\n" + "".join("int N%d;\n" % i for i in range(nf))
        main = "    G0 = 77;\n    G1 = 40000;\n"
        vars = [("G0", "i"), ("G1", "u")]
        # function pointer variables
        for k, ar in enumerate([r.choice([0, 1, 2, 3]) for _ in range(r.choice([0, 1, 2, 3]))]):
            fv = self.fvalue(ar, [])
            if not fv: continue
            glob = r.random() < 0.5
            nm = ("GF%d" if glob else "lf%d") % k
            d = "int (*%s)(%s)" % (nm, ", ".join(["int"] * ar) or r.choice(["void", ""]))
            if glob:
                decl += d + ";\n"
                main += "    %s = %s;\n" % (nm, fv[0])
            elif r.random() < 0.5:
                main += "    %s = %s;\n" % (d, fv[0])
            else:
                main += "    %s;\n    %s = %s;\n" % (d, nm, fv[0])
            s.g[nm] = fv[1]({}, s)
            vars.append((nm, ("fp", ar)))
        for _ in range(r.choice([3, 6, 10, 14])):
            if self.ncalls > 300: break
            c = r.random()
            snap = (dict(s.cnt), len(s.out), dict(s.g))
            try:
                s.calls = 0
                if c < 0.1 and len(vars) > 2:
                    v = r.choice(vars[2:])
                    fv = self.fvalue(v[1][1], vars)
                    if not fv: continue
                    s.g[v[0]] = fv[1]({}, s)
                    main += "    %s = %s;\n" % (v[0], fv[0])
                    continue
                if c < 0.2 and len(vars) > 2:
                    v, w = r.choice(vars[2:]), r.choice(vars[2:])
                    if v[1] != w[1]: continue
                    op = r.choice(["==", "!="])
                    s.P(int((s.g[v[0]] is s.g[w[0]]) == (op == "==")))
                    main += "    P(%s %s %s ? 1 : 0);\n" % (v[0], op, w[0])
                    continue
                rec = [f for f in self.fs if f.kind == "rec"]
                if c < 0.35 and rec:
                    f = r.choice(rec)
                    a = [r.choice([0, 1, 2, 5, 7]), r.choice([0, 3, -200])]
                    s.depth = 0
                    s.P(s.call(f, a))
                    main += "    P(%s(%d, %d));\n" % (f.name, a[0], a[1])
                    self.keys.add(("rec", a[0]))
                    continue
                e = self.expr(vars, r.choice([1, 2, 3, 4]))
                s.depth = 0
                if self.labels > 200: 
                    self.labels = 0
                    break
                v = e[2]({}, s)
                if r.random() < 0.8:
                    s.P(v); main += "    P(%s);\n" % (e[0] if e[1] > 1 else "(%s)" % e[0])
                else:
                    main += "    %s;\n" % e[0]
            except (Lim, RecursionError):
                s.cnt, s.g = snap[0], snap[2]
                del s.out[snap[1]:]
        for i in range(nf):
            main += "    P(N%d);\n" % i
            s.P(s.cnt.get("f%d" % i, 0))
        # order of definitions and prototypes
        protos, order = "", list(funcs)
        if r.random() < 0.6: r.shuffle(order)
        needp = set()
        pos = {x[2]: k for k, x in enumerate(order)}
        mainpos = r.choice([0, len(order)]) if r.random() < 0.4 else len(order)
        for f, text, i in funcs:
            simple = f.ret == "i" and f.kind in ("plain", "rec")
            # as a designator (not called) or with another return type it must be declared first
            if not simple or True:
                ps = [self.pdecl(p) if r.random() < 0.7 or isinstance(p[1], tuple) else ("int *" if p[1] == "pi" else TN[p[1]]) for p in f.params]
                protos += "%s %s(%s);\n" % (TN[f.ret], f.name, "int n, ..." if f.va else ", ".join(ps) or "void")
        texts = [t for _, t, _ in order]
        mtext = "void Main(void)\n{\n" + main + "}\n"
        texts.insert(mainpos, mtext)
        src = decl + "void Bad(void) { P(48879); ExitTo(1); }\n" + protos + "".join(texts)
        return src, "".join(s.out), sum(s.cnt.values())

def case(ctx, rng, d, i):
    g = G(rng)
    try:
        src, exp, calls = g.program()
    except (Lim, RecursionError):
        return None
    src = PRELUDE + src
    if len(src) > 12000: return None   # would not fit the output limit
    j = run_and_compare(ctx, d, src, exp, seed=rng.randrange(1 << 20), exe=ctx.scc_san if i % 4 == 0 else ctx.scc)
    return dict(evals=calls, keys=[h(k) for k in g.keys], sample=src[-700:] if i < 3 else None, add=dict(programs=1, values_compared=exp.count("\n"), calls_checked=j["calls"]))

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scc:san"])
    run_probes(c, t, "C04")
    c.pool(case, c.n(5000, 150000), t)

if __name__ == "__main__":
    vlib.main("C04", "each evaluation is one call of a generated function executed by the compiled program (shadow-stack monitor on every CALL/RET: SP, BP, return address); results and per-function call counts equalled the reference interpreter's; distinct counts (kind, return type, argument count and argument shapes)", body)
