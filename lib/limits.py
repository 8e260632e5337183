"""Programs that grow towards each of scc's built-in limits, with the output they
must print. FAM: name -> (values to try, number that must be accepted, make)."""

HEAD = "int t;\n"

def globals_(n):
    return ["int g%d;" % i for i in range(n)], ["g%d = %d;" % (i, i * 7 + 1) for i in range(0, n, 5)] + ["g%d = 5;" % (n - 1), "P(g%d + g0);" % (n - 1)], [6 if n > 1 else 10]
def enums(n):
    return ["enum { " + ", ".join("E%d" % i for i in range(n)) + " };"], ["P(E%d);" % (n - 1), "P(E0);"], [n - 1, 0]
def locals_(n):
    return [], ["int l%d; l%d = %d;" % (i, i, i) for i in range(n)] + ["P(l%d);" % (n - 1), "P(l0 + l%d);" % (n // 2)], [n - 1, n // 2]
def idents(n):
    top, k, left = [], 0, n
    while left > 0:
        c = min(20, left)
        left -= c
        top.append("int f%d(void) { %s return v%d; }" % (k, " ".join("int v%d = %d;" % (k * 20 + i, (k * 20 + i) & 99) for i in range(c)), k * 20 + c - 1))
        k += 1
    return top, ["P(f0() + f%d());" % (k - 1)], [((min(20, n) - 1) & 99) + ((n - 1) & 99)]
def idbuf(n):
    per = 60
    top, i = [], 0
    while n > 0:
        c = max(6, min(per, n))
        n -= c
        top.append("int x%03d%s;" % (i, "y" * (c - 5)))
        i += 1
    last = top[-1][4:-1]
    return top, [last + " = 77;", top[0][4:-1] + " = %s + 1;" % last, "P(%s);" % top[0][4:-1]], [78]
def idlen(n):
    a = "a" * (n - 1)
    return ["int %sb;" % a], ["%sb = 3; int %s; %s = 4; P(%sb); P(%s);" % (a, "c", "c", a, "c")], [3, 4]
def labels(n):
    return [], ["t = 1;"] + ["if (t & 1) t += 2;"] * n + ["P(t);"], [1 + 2 * n]
def loops(n):
    return [], ["t = 0; int i;"] + ["for (i = 0; i < 2; ++i) t++;"] * n + ["P(t);"], [2 * n]
def named(n):
    return [], ["t = 0;"] + ["goto L%d;" % (n - 1)] + ["L%d: t += %d; %s;" % (i, i + 1, "goto L%d" % (i - 1) if i else "goto E") for i in range(n)] + ["E: P(t);"], [n * (n + 1) // 2]
def structs(n):
    return ["struct S%d { int a; char c[%d]; };" % (i, i + 1) for i in range(n)], ["struct S%d v; v.a = 9; v.c[%d] = 1; P(v.a + v.c[%d]); P(sizeof(struct S%d));" % (n - 1, n - 1, n - 1, n - 1)], [10, n + 2]
def members(n):
    return ["struct S { " + " ".join(("int" if i & 1 else "char") + " m%d;" % i for i in range(n)) + " };", "struct S g;"], ["g.m%d = 7; g.m0 = 1; P(g.m%d); P(sizeof(struct S));" % (n - 1, n - 1)] + ["t = 0; char* p = (char*)&g; int i; for (i = 0; i < sizeof(struct S); ++i) t += p[i]; P(t);"], [7 if n > 1 else 1, n + n // 2, 8 if n > 1 else 1]
def arrays(n):
    return ["int a%d[%d];" % (i, i + 1) for i in range(n)], ["a%d[%d] = 5; a%d[0] += 2; P(a%d[%d]); P(sizeof(a%d));" % (n - 1, n - 1, n - 1, n - 1, n - 1, n - 1)], [5 if n > 1 else 7, 2 * n]
def strings(n):
    return ["int L(char* s) { int n = 0; while (*s++) ++n; return n; }"], ["t = 0;"] + ['t += L("%s");' % ("s" * (i % 7)) for i in range(n)] + ["P(t);"], [sum(i % 7 for i in range(n))]
def scopes(n):
    return [], ["t = 0;"] + ["{ int s%d = %d; t += s%d;" % (i, i + 1, i) for i in range(n)] + ["P(t + s0);"] + ["}"] * n + ["P(t);"], [n * (n + 1) // 2 + 1, n * (n + 1) // 2]
def args(n):
    ps = ", ".join("int p%d" % i for i in range(n)) or "void"
    return ["int f(%s);" % ps, "int f(%s) { return %s; }" % (ps, " + ".join("p%d * %d" % (i, i + 1) for i in range(n)) or "0")], ["P(f(%s));" % ", ".join(str(i + 2) for i in range(n))], [sum((i + 2) * (i + 1) for i in range(n))]
def args2(n):
    """two parameter lists of a single declaration share the table"""
    ps = ", ".join("int" for i in range(n)) or "void"
    return ["int g(int a, int b) { return a * 10 + b; }", "int f(int (*h)(int, int), %s) { return h(1, 2); }" % ps], ["P(f(g, %s));" % ", ".join("3" for i in range(n))], [12]
def cases(n):
    return [], ["int i; t = 0; for (i = 0; i < %d; ++i) { switch (i) {" % (n + 2)] + ["case %d:" % i for i in range(n)] + ["t += 3; break; default: t += 100; } } P(t);"], [3 * n + 200]
def cases2(n):
    return [], ["int i; t = 0; for (i = 0; i < %d; ++i) { switch (i) {" % (n + 2)] + ["case %d: t += %d; break;" % (i, i & 7) for i in range(n)] + ["default: t += 100; } } P(t);"], [sum(i & 7 for i in range(n)) + 200]
def code(n):
    """n is the approximate image size"""
    k, body, top, f = max(0, n - 460), [], [], 0
    x = 0
    per = 5000
    while k > 0:
        m = min(per, k)
        k -= m
        c = max(1, (m - 15) // 5)
        top.append("void f%d(void) { %s }" % (f, " ".join(["t += 300;"] * (c * 5 // 6))))
        x += 300 * (c * 5 // 6)
        f += 1
    return top, ["t = 0;"] + ["f%d();" % i for i in range(f)] + ["P(t);"], [x & 0xffff]
def strsize(n):
    return ["int L(char* s) { int n = 0; while (*s++) ++n; return n; }"], ['P(L("%s"));' % ('"\n"'.join("x" * min(200, n - i) for i in range(0, n, 200)))], [n]
def initsize(n):
    rows = ['char a%d[] = "%s";' % (i, "z" * min(400, n - i * 400)) for i in range((n + 399) // 400)]
    return rows, ["P(sizeof(a0)); P(a%d[0]);" % (len(rows) - 1)], [min(400, n) + 1, ord("z")]
def fwd(n):
    return ["int f(int x);"], ["t = 0;"] + ["t += f(%d);" % i for i in range(n)] + ["P(t);"], [sum(i + 1 for i in range(n)) & 0xffff], ["int f(int x) { return x + 1; }"]
def funcs(n):
    return ["int f%d(int x) { return x + %d; }" % (i, i) for i in range(n)], ["P(f%d(f0(1)));" % (n - 1)], [n]
def fwdfuncs(n):
    return [], ["P(t);"], [0], ["int h%d(void) { return w%d(); }\nint w%d(void) { return %d; }" % (i, i, i, i) for i in range(n)]
def statics(n):
    return ["int f(void) { %s return %s; }" % (" ".join("static int s%d; s%d += %d;" % (i, i, i + 1) for i in range(n)), " + ".join("s%d" % i for i in range(n)))], ["P(f()); P(f());"], [n * (n + 1) // 2, n * (n + 1)]
def implicit(n):
    return [], ["P(%s);" % " + ".join("u%d()" % i for i in range(n))], [n * (n - 1) // 2], ["int u%d(void) { return %d; }" % (i, i) for i in range(n)]
def late(n):
    """undeclared functions in a function with parameters and locals, which are used again behind"""
    return ["int f(int q, int r) { int l; l = q * 100 + r; { int m; m = l + 1; return %s + l * 3 + m + q + r; } }" % " + ".join("u%d()" % i for i in range(n)), "int q; int r; int l; int m;"], \
        ["q = 1; r = 2; l = 3; m = 4; P(f(3, 7)); P(f(5, 2)); P(q + r * 10 + l * 100 + m * 1000);"], [n * (n - 1) // 2 + (q * 100 + r) * 4 + 1 + q + r for q, r in ((3, 7), (5, 2))] + [4321], ["int u%d(void) { return %d; }" % (i, i) for i in range(n)]
def late2(n):
    """statics in a function with parameters, whose names are declared again behind it"""
    return ["int f(int q, int r) { int l; %s l = q * 100 + r; %s return %s + l * 3 + q + r; }" % (" ".join("static int s%d;" % i for i in range(n)), " ".join("s%d += q + %d;" % (i, i) for i in range(n)), " + ".join("s%d" % i for i in range(n))),
            "int q; char r; int l; int s0;"], ["q = 1; r = 2; l = 3; s0 = 4; P(f(3, 7)); P(q + r * 10 + l * 100 + s0 * 1000); P(f(3, 7));"], [n * 3 + n * (n - 1) // 2 + 307 * 3 + 10, 4321, (n * 3 + n * (n - 1) // 2) * 2 + 307 * 3 + 10]
def late3(n):
    """both, in blocks"""
    return ["int f(int q, int r) { int l; %s l = q; return l * 100 + r%s; }" % (" ".join("{ static int s; int l; s += q; l = s; l += r; }" for i in range(n // 2)), "".join(" + u%d()" % i for i in range(n - n // 2))), "int r; int s; int q;"], \
        ["q = 1; r = 2; s = 3; P(f(3, 7)); P(f(5, 2)); P(q + r * 10 + s * 100);"], [(n - n // 2) * (n - n // 2 - 1) // 2 + q * 100 + r for q, r in ((3, 7), (5, 2))] + [321], ["int u%d(void) { return %d; }" % (i, i) for i in range(n - n // 2)]
def dims(n):
    return ["char a%s;" % ("[2]" * n)], ["a%s = 5; P(a%s); P(sizeof(a));" % ("[1]" * n, "[1]" * n)], [5, 1 << n]
def nest(n):
    return [], ["int x = 3; P(%sx%s);" % ("(" * n, ")" * n)], [3]
def nestblk(n):
    return [], ["t = 5; "] + ["if (t)"] * n + ["t = 6;", "P(t);"], [6]
def unary(n):
    return [], ["int x = 3; P(%sx);" % ("- " * n)], [3 if n % 2 == 0 else 0xfffd]
def chain(n):
    return [], ["int x = 1; P(x%s);" % (" + x" * n)], [n + 1]
def ternary(n):
    return [], ["int x = %d; P(%s 99);" % (n - 1, " ".join("x == %d ? %d :" % (i, i * 3) for i in range(n)))], [(n - 1) * 3]
def bigarray(n):
    return ["char big[%d];" % n, "int tail;"], ["tail = 7; big[%d] = 3; P(tail); P(big[%d]);" % (n - 1, n - 1)], [7, 3]
def arrinit(n):
    return ["char s[] = \"" + "q" * n + "\";"], ["P(sizeof(s)); P(s[%d]);" % n], [n + 1, 0]
def nested_struct(n):
    d = "int v;"
    for i in range(n): d = "struct N%d { char c%d; %s } n%d;" % (i, i, d, i)
    acc = ".".join("n%d" % i for i in reversed(range(n - 1))) if n > 1 else ""
    acc = ("g." + acc + "." if acc else "g.") + "v"
    return [d[:-len(" n%d;" % (n - 1))] + ";", "struct N%d g;" % (n - 1)], ["%s = 8; P(%s); P(sizeof(g));" % (acc, acc)], [8, n + 2]

FAM = {
    # name: (make, floor that must be accepted, values)
    "globals": (globals_, 320, list(range(330, 366)) + [1, 100, 320, 380, 500, 1000]),
    "enums": (enums, 320, list(range(330, 366)) + [1, 320, 380, 600, 1000]),
    "locals": (locals_, 300, [1, 100, 300] + list(range(325, 366)) + [400, 700]),
    "idents": (idents, 480, [1, 480] + list(range(505, 545)) + [600, 1100]),
    "idbuf": (idbuf, 4400, [100, 4400] + list(range(4530, 4600)) + [5000, 6000]),
    "idlen": (idlen, 2200, [2, 10, 511, 512, 513, 1500, 2200] + list(range(2270, 2305)) + [4500, 4990, 5000, 5100, 9000]),
    "labels": (labels, 300, [1, 300] + list(range(312, 324)) + [400]),
    "loops": (loops, 75, [1, 75] + list(range(75, 82)) + list(range(104, 109)) + [160]),
    "named": (named, 7, list(range(1, 13))),
    "structs": (structs, 8, list(range(1, 14))),
    "members": (members, 32, [1, 2] + list(range(28, 38)) + [64]),
    "arrays": (arrays, 30, [1, 2] + list(range(28, 38)) + [64]),
    "strings": (strings, 28, [1, 2] + list(range(26, 38)) + [64]),
    "scopes": (scopes, 12, list(range(1, 20)) + [50]),
    "args": (args, 8, list(range(0, 13)) + [20]),
    "args2": (args2, 5, list(range(1, 12))),
    "cases": (cases, 24, list(range(1, 30)) + [60]),
    "cases2": (cases2, 60, [1, 20, 60, 100, 150, 155, 160, 200, 310, 320, 330]),
    "code": (code, 22000, [600, 5000, 20000, 22000] + list(range(23700, 24700, 37)) + [26000, 40000]),
    "strsize": (strsize, 22000, [1, 199, 511, 512, 513, 1000, 22000] + list(range(23500, 24500, 29)) + [26000, 40000, 70000]),
    "initsize": (initsize, 11000, [1, 399, 401, 2000, 11000, 12000, 13000, 20000, 24000, 24500, 30000]),
    "fwd": (fwd, 1000, [1, 10, 1000, 2000, 2300, 2600, 4000]),
    "funcs": (funcs, 250, [1, 250] + list(range(310, 366, 3)) + [500]),
    "fwdfuncs": (fwdfuncs, 100, [1, 50, 100, 150] + list(range(168, 186)) + [300]),
    "statics": (statics, 4, list(range(1, 12))),
    "implicit": (implicit, 3, list(range(2, 12))),
    "late": (late, 4, list(range(1, 12))), "late2": (late2, 4, list(range(1, 12))), "late3": (late3, 4, list(range(1, 12))),
    "dims": (dims, 8, list(range(1, 20))),
    "nest": (nest, 50, [1, 10, 50, 100, 300, 1000]),
    "nestblk": (nestblk, 50, [1, 10, 50, 100, 300, 320, 330, 1000]),
    "unary": (unary, 50, [1, 2, 10, 50, 101, 300, 1000]),
    "chain": (chain, 500, [1, 10, 100, 500, 2000]),
    "ternary": (ternary, 50, [1, 10, 50, 100, 150, 158, 159, 160, 161, 170, 400]),
    "bigarray": (bigarray, 32767, [1, 255, 256, 257, 10000, 32767]),
    "arrinit": (arrinit, 11000, [1, 2, 510, 511, 512, 513, 11000]),
    "nested_struct": (nested_struct, 4, list(range(1, 12))),
}

def program(name, n):
    """(source, expected)"""
    from cprog import PRELUDE
    x = FAM[name][0](n)
    top, body, exp = x[:3]
    tail = x[3] if len(x) > 3 else []
    src = HEAD + PRELUDE + "\n".join(top) + "\nvoid Main(void)\n{\n" + "\n".join(body) + "\n}\n" + "\n".join(tail) + "\n"
    return src, "".join("%04X\n" % (v & 0xffff) for v in exp)

def prefill(r):
    """(top-level text, prologue for Main) that brings some table close to its limit"""
    k = r.choice(["vars", "enum", "ids", "text", "arrays", "structs", "members", "code", "str", "none"])
    if k == "vars": n = r.randrange(150, 365); return "".join("int zg%d;\n" % i for i in range(n))
    if k == "enum": n = r.randrange(150, 365); return "enum { " + ", ".join("ZE%d" % i for i in range(n)) + " };\n"
    if k == "ids":
        n = r.randrange(300, 560)
        out, i = [], 0
        while i < n:
            out.append("void zf%d(%s) {}\n" % (i, ", ".join("int zp%d" % j for j in range(i, i + 8)))); i += 8
        return "".join(out)
    if k == "text": n = r.randrange(2000, 4900); return "".join("int zz%03d%s;\n" % (i, "y" * 74) for i in range(n // 80))
    if k == "arrays": return "".join("char za%d[%d];\n" % (i, i + 1) for i in range(r.randrange(10, 33)))
    if k == "structs": return "".join("struct ZS%d { int a; };\n" % i for i in range(r.randrange(1, 9)))
    if k == "members": return "struct ZS { %s };\n" % " ".join("int zm%d;" % i for i in range(r.randrange(8, 33)))
    if k == "code":
        n = r.randrange(12000, 24000)
        return "int zt;\n" + "".join("void zf%d(void) { %s }\n" % (i, "zt += 300;" * 160) for i in range(n // 975))
    if k == "str": return "".join('char zs%d[] = "%s";\n' % (i, "z" * 1000) for i in range(r.randrange(8, 24)))
    return ""
