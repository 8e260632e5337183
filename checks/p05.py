import sys, os, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, ppgen, ppcond, ppinc, pplex, fuzz
from vlib import run, Violation, h

WORDS = [w.encode() for w in ("#define #undef #if #ifdef #ifndef #elif #else #endif #include #error #pragma #line # ## define defined include __FILE__ __LINE__ __SCC__ f g F X1 Y id cat str A B a b x ( ) () (a) (a,b) , ; + - * / % < > <= >= == != && || ! ? : "
          "\"t.c\" \"s\" 'c' \" ' \\ \\\n \n \n# \n#if /* */ // <t.c> 0 1 \n#define \n#define f(x) \n#define\tA ").split(" ")]

def outcome(r, what, files):
    if r.sanitizer(): raise Violation("%s: memory error or undefined behaviour: %s" % (what, r.brief()), files)
    if r.timeout: raise Violation("%s: TIMEOUT: scpp does not end" % what, files)
    msg = (r.out + r.err).strip()
    if r.rc == 0:
        if msg: raise Violation("%s: exit status 0 but a diagnostic: %s" % (what, r.brief(300)), files)
        return 0
    if r.rc == -6 and b"Assertion" in r.err: return 1     # assert() is how scpp reports most limits
    if r.rc != 1: raise Violation("%s: scpp ended abnormally: %s" % (what, r.brief()), files)
    if not msg: raise Violation("%s: exit status 1 without a diagnostic" % what, files)
    return 1

def three(ctx, d, data, what, files=None):
    files = dict(files or {}, **{"t.c": data})
    for n, t in files.items():
        with open(os.path.join(d, n), "wb") as f: f.write(t if isinstance(t, bytes) else t.encode("latin1"))
    res = []
    for exe in (ctx.scpp_san, ctx.scpp, ctx.scpp_pat):
        p = os.path.join(d, "t.i")
        if os.path.exists(p): os.unlink(p)
        r = run([exe, "t.c", "t.i"], cwd=d, timeout=20)
        rc = outcome(r, what, files)
        out = open(p, "rb").read() if rc == 0 else None
        if rc == 0 and len(out) > 1 << 24: raise Violation("%s: output of %d bytes" % (what, len(out)), files)
        res.append((rc, out))
    if not res[0] == res[1] == res[2]:
        raise Violation("%s: the outcome depends on how scpp was built (undefined behaviour): %s" % (what, [(a, h(b)) for a, b in res]), files)
    return res[0]

def mutant(ctx, rng, d, i):
    keys, ok = [], 0
    base, files = ctx.corpus[rng.randrange(len(ctx.corpus))]
    for _ in range(10):
        data = fuzz.mutate(rng, base, WORDS, [b for b, f in ctx.corpus])[:20000]
        fs = dict(files)
        if fs and rng.random() < 0.5:
            k = rng.choice(sorted(fs))
            fs[k] = fuzz.mutate(rng, fs[k] or b"x", WORDS, [base])[:20000]
        rc, img = three(ctx, d, data, "mutated input", fs)
        ok += rc == 0
        keys.append(h("mut", data))
    return dict(evals=10, keys=keys, add=dict(mutants=10, mutants_accepted=ok))

def prefix(ctx, rng, d, i):
    base, files = ctx.corpus[rng.randrange(len(ctx.corpus))]
    t = fuzz.toks(base)
    for _ in range(10):
        data = b"".join(t[:rng.randrange(len(t) + 1)])
        if rng.random() < 0.4: data = data[:-1]
        if rng.random() < 0.3: data = data[:len(data) // 512 * 512 + rng.choice([-1, 0, 1])]
        three(ctx, d, data, "input cut off after %d bytes" % len(data), files)
    return dict(evals=10, keys=[h("pre", base, i)], add=dict(prefixes=10))

def must(ctx, d, text, what, exe=None):
    """valid input within the limits: accepted, and the tokens gcc gives"""
    with open(os.path.join(d, "t.c"), "wb") as f: f.write(text.encode("latin1"))
    r = run([exe or ctx.scpp, "t.c", "t.i"], cwd=d, timeout=60)
    if outcome(r, what, {"t.c": text}): raise Violation("%s: scpp rejects it: %s" % (what, r.brief(300)), {"t.c": text})
    g = ppgen.gcc_e(d, "t.c")
    if g.rc: raise vlib.CheckError("gcc -E: " + g.brief(300))
    got, want = ppgen.toks(open(os.path.join(d, "t.i"), encoding="latin1").read()), ppgen.toks(g.out.decode("latin1"))
    if got != want and not ppgen.blanks(d, ctx.scpp, got, want, text):
        k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        raise Violation("%s: output differs at token %d\n scpp: %s\n  gcc: %s" % (what, k, got[k:k + 20], want[k:k + 20]), {"t.c": text})
    return len(want)

def uses(ctx, rng, d, i):
    """the same macros used thousands of times: nothing may run out"""
    while True:
        s = ppgen.settle(d, ppgen.program(rng, undef=False))
        if s and any(k == "u" for k, t in s[0]): break
    defs = [t for k, t in s[0] if k == "d" and t]
    last = max(k for k, c in enumerate(s[0]) if c[0] == "d" or k == 0)
    us = [t for k, (c, t) in enumerate(s[0]) if c == "u" and k > last] or ["x"]
    g = ppgen.Gen(rng)                         # a few conditions over the same macros
    names = [m[1] for m in (re.match(r"#\s*define\s+(\w+)", t) for t in defs) if m][:3]
    out = list(defs)
    n = 0
    for k in range(ctx.history):
        q = rng.random()
        if q < 0.03 and names: out += ["#if%s %s" % (rng.choice(["def", "ndef"]), rng.choice(names)), "c", "#endif"]
        elif q < 0.05: out += ["#if (%d + 2) * 3 > %d && !defined NOPE" % (k % 100, k % 50), "c", "#endif"]
        elif q < 0.06: out += ["u __LINE__ __FILE__"]
        elif q < 0.08: out += ["#undef NOPE%d" % (k % 5)]
        elif q < 0.09: out += ['"a string that is no macro %d" other_words_%d 12345' % (k, k)]
        else: out += ["zq", rng.choice(us)]; n += 1
    for u in sorted(set(us)):                  # a use that needs more than there is says nothing about histories
        with open(os.path.join(d, "t.c"), "wb") as f: f.write(("\n".join(defs + [u]) + "\n").encode("latin1"))
        if outcome(run([ctx.scpp, "t.c", "t.i"], cwd=d, timeout=60), "one use", {"t.c": "\n".join(defs + [u])}): return dict(evals=1, keys=[], add=dict(uses_beyond_limits=1))
    toks = must(ctx, d, "\n".join(out) + "\n", "history of %d uses" % n, ctx.scpp_san if i % 3 == 0 else ctx.scpp)
    return dict(evals=1, keys=[h("\n".join(out))], add=dict(history_uses=n, history_tokens=toks), sample="\n".join(out[:20]) if i == 0 else None)

def redefine(ctx, rng, d, i):
    """#define, use and #undef over and over: token nodes come back (their text does not: it stays within its limit)"""
    names = rng.sample(["f", "g", "A", "B", "line"], 3)
    text = 0
    params = 0
    nodes = 0
    out = []
    live = {}
    n = 0
    while True:
        k = rng.choice(names)
        if k in live:
            if rng.random() < 0.5:
                out.append("#undef " + k)
                if rng.random() < 0.2: out.append("#undef " + k)
                del live[k]
            else: out.append("%s%s ;" % (k, "(%s, (y, z))" % rng.choice(["x", "", "x x", "f", "A"]) if live[k] else ""))
            n += 1
            continue
        fn = rng.random() < 0.3 and params < 26
        body = rng.choice([["x"], ["(", "1", "+", "2", ")"], ["+", "-", "*", ";", "[", "]", "{", "}"] * rng.choice([1, 2, 4]), ["y"] * 12, []]) + (["p", "#", "q", "p", "##", "q1"] if fn and rng.random() < 0.5 else ["p"] if fn else [])
        need = sum(len(t) + 1 for t in body) + 12
        if text + need > 1300: break
        text += need
        nodes += 2 * len(body)
        params += 2 * fn
        out.append("#define %s%s %s" % (k, "(p,q)" if fn else "", " ".join(body)))
        live[k] = fn
        if rng.random() < 0.3: out.append(out[-1])        # the same again
    toks = must(ctx, d, "\n".join(out) + "\n", "history of %d definitions and uses" % n, ctx.scpp_san if i % 3 == 0 else ctx.scpp)
    return dict(evals=1, keys=[h("\n".join(out))], add=dict(redefine_steps=n, nodes_defined=nodes))

def _nestmac(n): return "\n".join("#define m%d m%d" % (k, k + 1) for k in range(n)) + "\nm0\n"
LIMITS = {   # name: (program of size n, size that must work, sizes tried)
    "macros": (lambda n: "".join("#define m%d %d\n" % (k, k) for k in range(n)) + " ".join("m%d" % k for k in range(n)) + "\n", 16, range(14, 20)),
    "parameters": (lambda n: "#define f(%s) %s\nf(%s)\n" % (",".join("p%d" % k for k in range(n)), " ".join("p%d" % k for k in range(n)), ",".join(map(str, range(n)))), 15, range(12, 20)),
    "parameter slots": (lambda n: "".join("#define f%d(a,b,c,d) d c b a\n" % k for k in range(n)) + "".join("f%d(1,2,3,4)\n" % k for k in range(n)), 8, range(6, 12)),
    "argument tokens": (lambda n: "#define f(x) x\nf(%s)\n" % " ".join(["a"] * n), 100, [100, 150, 200, 254, 255, 256, 257, 260, 400, 510, 512, 600, 1100]),
    "argument operators": (lambda n: "#define f(x) x\nf(%s)\n" % "+" .join(["1"] * n), 60, [50, 60, 100, 120, 127, 128, 129, 200, 300]),
    "body tokens": (lambda n: "#define f %s\nf\nf\n" % " ".join(["a"] * n), 200, [100, 200, 254, 255, 256, 257, 258, 400, 510, 511, 512, 513, 600]),
    "nesting": (_nestmac, 15, range(8, 18)),
    "calls": (lambda n: "#define f(x) x\n" + "f(" * n + "1" + ")" * n + "\n", 8, range(1, 40)),
    "parentheses": (lambda n: "#define f(x) x\nf(" + "(" * n + "1" + ")" * n + ")\n", 60, [1, 50, 60, 100, 127, 128, 129, 200, 255, 256, 300]),
    "stringify": (lambda n: "#define s(x) #x\ns(%s)\n" % ("a" * n), 248, list(range(244, 262)) + [300, 511, 512, 1000]),
    "stringify quotes": (lambda n: "#define s(x) #x\ns(\"%s\")\n" % ("\\\\" * n), 50, list(range(50, 70)) + [100, 125, 126, 127, 128]),
    "stringify spaces": (lambda n: "#define s(x) #x\ns(%s)\n" % " ".join(["a"] * n), 120, range(120, 135)),
    "identifier": (lambda n: "a" * n + " b\n", 500, [1, 63, 64, 255, 256, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 1900, 2040, 2045, 2046, 2047, 2048, 2049, 2050, 4000]),
    "string": (lambda n: '"' + "a" * n + '" b\n', 500, [1, 255, 256, 500, 511, 512, 513, 1024, 2040, 2044, 2045, 2046, 2047, 2048, 2049, 4000]),
    "number": (lambda n: "1" * n + " b\n", 500, [1, 500, 511, 512, 2044, 2045, 2046, 2047, 2048, 2049, 4000]),
    "comment": (lambda n: "a/*" + "*" * n + "*/b//" + "c" * n + "\nd\n", 9000, list(range(500, 520)) + list(range(1010, 1030)) + [9000]),
    "blank": (lambda n: "a" + " " * n + "b" + "\n" * n + "c\n", 9000, list(range(500, 520)) + list(range(1010, 1030)) + [9000]),
    "conditions": (lambda n: "#if 1\n" * n + "x\n" + "#endif\n" * n, 16, range(14, 19)),
    "skipped conditions": (lambda n: "#if 0\n" * n + "x\n" + "#endif\n" * n + "y\n", 16, range(14, 19)),
    "expression parentheses": (lambda n: "#if " + "(" * n + "1" + ")" * n + "\nx\n#endif\n", 100, [1, 10, 100, 200]),
    "expression terms": (lambda n: "#if 0" + "+1" * n + "==%d\nx\n#endif\n" % n, 300, [10, 300, 1000, 3000]),
    "skipped text": (lambda n: "#if 0\n" + "word 'x' \"str\" 123 ;\n" * n + "#endif\ny\n", 1000, [1000]),
    "text": (lambda n: "word 'x' \"str\" 123 ;\n" * n, 2000, [1, 10, 100, 2000]),
    "macro text": (lambda n: "#define f %s\nf\n" % " ".join("w%05d" % k for k in range(n)), 150, [100, 150, 200, 230, 280, 288, 289, 290, 291, 292, 293, 294, 300]),
    "many arguments given": (lambda n: "#define f(a) a\nf(%s)\n" % ",".join(["x"] * n), 0, [2, 3, 20, 100]),
    "name at end": (lambda n: "#define f(a) a\nx" + "\nf" * n + "\n", 100, [1, 2, 3, 10, 100]),
    "name and blank": (lambda n: "#define f(a) a\n" + "f \n\n /* c */ " * n + "\n", 100, [1, 2, 3, 10, 16, 17, 100]),
    "paste": (lambda n: "#define c(a,b) a##b\n#define d(x) c(x,1)\n" + "d(" * n + "z" + ")" * n + "\n", 6, range(1, 30)),
    "paste chain": (lambda n: "#define c(a) a" + "##a" * n + "\nc(xy)\n", 30, [1, 10, 30, 60, 100, 150, 200, 300]),
}

def limit(ctx, rng, d, i):
    name, n = ctx.lims[i]
    make, floor, _ = LIMITS[name]
    text = make(n)
    what = "limit '%s' at %d" % (name, n)
    rc, out = three(ctx, d, text.encode(), what)
    if rc:
        if n <= floor: raise Violation(what + ": rejected although within the limits", {"t.c": text})
        return dict(evals=1, keys=[what], add=dict(limit_rejected=1))
    with open(os.path.join(d, "t.c"), "w") as f: f.write(text)
    g = ppgen.gcc_e(d, "t.c")
    if g.rc == 0 and ppgen.toks(g.out.decode("latin1")) != ppgen.toks(out.decode("latin1")):
        raise Violation(what + ": accepted, but the output is wrong", {"t.c": text, "t.i": out})
    return dict(evals=1, keys=[what], add=dict(limit_accepted=1), max={"max_" + name: n})

HOSTILE = [b"", b"\n", b" ", b"\0", b"\r", b"a\0b\n", b"\xff" * 600, b"\x80", b"\\", b"\\\r", b"\\\rx", b"a\\", b"#", b"# ", b"#\\", b"#define", b"#define ", b"#define A", b"#define A(", b"#define A(x", b"#define A(x,", b"#define A(x,)", b"#define A(,)", b"#define A(1) 2", b"#define A(x x) 2", b"#define A() x\nA", b"#define A() x\nA(", b"#define A() x\nA(1)",
    b"#define A(x) x\nA", b"#define A(x) x\nA(", b"#define A(x) x\nA(1", b"#define A(x) x\nA(1,2)", b"#define A(x,y) x y\nA(1)", b"#define A(x) #x\nA(", b"#define A(x) #\nA(1)", b"#define A(x) # y\nA(1)", b"#define A(x) ##\nA(1)", b"#define A ##\nA", b"#define A x##\nA", b"#define A ##x\nA", b"#define A(x) x##\nA(1)", b"#define A(x) ##x\nA(1)", b"#define A(x) #x##\nA(1)", b"#define A #x\nA", b"#define A(x) x\nA(\n#define B 1\nB)", b"#define A(x) x\nA(\n#undef A\n1)", b"#define A(x) x\nA(\n#if 1\n1\n#endif\n)", b"#define A(x) x x\nA(A(\n#undef A\n1))",
    b"#define A A\nA", b"#define A B\n#define B A\nA B", b"#define A(x) A(x)\nA(A(1))", b"#define A(x) x A\nA(1)(2)(3)", b"#define A ( A\nA", b"#define A(x) B(x\n#define B(x) A(x\nA(1)))))", b"#define f(x) x f\nf(f)(f(1))(2)", b"#define A 1 2\n#define A 3\nA", b"#define A(x) x\n#define A y\nA(1)", b"#define __LINE__ 5\n__LINE__", b"#undef __FILE__\n__FILE__", b"#define defined 1\n#if defined\n#endif", b"#define define x\n#define B 1\nB define", b"#undef", b"#undef 5", b"#undef \"x\"", b"#undef A(x)", b"#define 5 x", b"#define \"A\" x", b"#define (x) y", b"#define A\"x\"\nA", b"#define A+1\nA",
    b"#if", b"#if ", b"#if 1", b"#if 1\n#else", b"#if 1\n#else\n#else\n#endif", b"#if 1\n#else\n#elif 1\n#endif", b"#else", b"#elif 1", b"#endif", b"#if 0\n\"x\n#endif", b"#if 0\n'\n#endif", b"#if 0\n/*\n#endif", b"#if 1/0\n#endif", b"#if 1%0\n#endif", b"#if (\n#endif", b"#if )\n#endif", b"#if 1 1\n#endif", b"#if 1 +\n#endif", b"#if + 1\n#endif", b"#if -1\n#endif", b"#if ~1\n#endif", b"#if 'a'\n#endif", b"#if \"a\"\n#endif", b"#if 1 ? 2\n#endif", b"#if 1 ? : 3\n#endif", b"#if 1 : 2\n#endif", b"#if defined\n#endif", b"#if defined(\n#endif", b"#if defined(A\n#endif", b"#if defined 5\n#endif", b"#if defined()\n#endif", b"#if 99999999999999999999\n#endif", b"#if 0x\n#endif", b"#if 08\n#endif", b"#if 1.5\n#endif", b"#if 1u2\n#endif", b"#if 2147483647+1\n#endif", b"#if 2147483647*2147483647\n#endif", b"#if (0-2147483647-1)/(0-1)\n#endif", b"#if (0-2147483647-1)%(0-1)\n#endif", b"#if 1<<40\n#endif", b"#if a b c\n#endif", b"#if A(\n#endif", b"#define A(x) x\n#if A(\n#endif", b"#define A(x) x\n#if A(1\n)\n#endif", b"#define A(x) x\n#if A\n#endif", b"#define A(x) x\n#if A\n(1)\n#endif", b"#ifdef", b"#ifdef\n#endif", b"#ifdef 5\n#endif", b"#ifdef A B\n#endif", b"#ifndef \"x\"\n#endif",
    b"#include", b"#include \n", b"#include x", b"#include 5", b"#include \"", b"#include \"x", b"#include <", b"#include <x", b"#include <" + b"a" * 3000, b"#include \"" + b"a" * 3000 + b"\"", b"#include \"t.c\"", b"#include <t.c>", b"#include \"\"", b"#include <>", b"#include .", b"#include \"..\"", b"#define X \"t.c\"\n#include X", b"#define X(a) #a\n#include X(t.c)", b"#define X x\n#include X", b"#error", b"#error x", b"#if 0\n#error\n#endif", b"#pragma", b"#pragma once", b"#line", b"#line 5 \"x\"", b"#5", b"#\"x\"", b"#+", b"##", b"#foo", b"#if 0\n#foo\n#endif", b"x #define A 1\nA", b"#define H #\nH define B 1\nB", b"#define H # define B 1\nH\nB", b"\"abc", b"'abc", b"\"abc\n\"", b"\"\\", b"\"\\\n\"", b"'\\'", b"''", b"/*", b"/* *", b"//", b"// \\\nx", b"/", b"/\\\n/ x", b"a\\\nb", b"1.5e+3 .5 0x1p3", b"@`$", b"%: ??= <:", b"L\"x\" u8\"x\"", b"#define A(x...) x\nA(1)", b"#define A(...) __VA_ARGS__\nA(1)", b"#define EMPTY\n#define A(x) [x]\nA(EMPTY)EMPTY A EMPTY(1)"]

def hostile(ctx, rng, d, i):
    x = HOSTILE[i]
    acc = 0
    w = [x, x + b"\n", b"#define Q(x) x x\n" + x + b" Q(1)\n", b" " * (511 - len(x) % 511) + x, b"/*" + b"y" * rng.randrange(480, 515) + b"*/" + x + b"\nz", x.replace(b"\n", b"\r\n"), x + b"\0", x[:-1], x + b"\n" + x]
    for y in w: acc += three(ctx, d, y, "hostile input %r" % x[:60])[0] == 0
    y = b"in\n" + x
    three(ctx, d, b'#include "h.h"\nafter\n', "hostile include file %r" % x[:60], {"h.h": x})
    return dict(evals=len(w) + 1, keys=[h("hostile", x)], add=dict(hostile=len(w) + 1, hostile_accepted=acc))

def invocation(ctx, d):
    with open(os.path.join(d, "a.c"), "w") as f: f.write("x\n")
    with open(os.path.join(d, "noext"), "w") as f: f.write("x\n")
    long = "n" * 70 + ".c"
    with open(os.path.join(d, long), "w") as f: f.write("x\n")
    os.mkdir(os.path.join(d, "dir")); os.mkdir(os.path.join(d, "sub"))
    n = 0
    for exe in (ctx.scpp_san, ctx.scpp):
        for args, want, made in (([], 1, None), (["nosuch.c"], 1, None), (["nosuch.c", "o.i"], 1, None), (["a.c", "sub/none/o.i"], 1, None), (["a.c", "dir"], 1, None), (["", ""], 1, None), (["a.c", ""], 1, None),
                           (["a.c", "o.i"], 0, "o.i"), (["a.c"], 0, "a.i"), (["noext"], 0, "noext.i"), (["./a.c", "./sub/o.i"], 0, "sub/o.i"), ([long], None, None), ([long, "l.i"], 0, "l.i"), (["a.c", "m" * 240], 0, "m" * 240)):
            r = run([exe] + args, cwd=d)
            n += 1
            rc = outcome(r, "scpp %s" % args, {})
            if want is not None and rc != want: raise Violation("scpp %s: %s instead of %d: %s" % (args, r.rc, want, r.brief(300)))
            if made:
                p = os.path.join(d, made)
                if not os.path.exists(p) or open(p).read().split() != ["x"]: raise Violation("scpp %s: does not write %s" % (args, made))
                os.unlink(p)
    return n

def body(c):
    t = vlib.Tools(c.dir, ["scpp", "scpp:san"])
    t.scpp_pat = os.path.join(c.dir, "scpp_pat")
    r = run(["gcc", "-O0", "-w", "-std=c99", "-D_DEFAULT_SOURCE", "-ftrivial-auto-var-init=pattern", "-o", t.scpp_pat, os.path.join(vlib.REPO, "scpp.c")], timeout=120)
    if r.rc: raise vlib.CheckError("cannot build scpp: " + r.brief())
    rr = random.Random("corpus5:%d" % vlib.SEED)
    t.corpus = []
    for _ in range(60): t.corpus.append((ppgen.text_of(ppgen.program(rr))[0].encode("latin1"), {}))
    for _ in range(25):
        s = ppcond.program(rr)[0].encode("latin1")
        if len(s) < 4000: t.corpus.append((s, {}))
    for _ in range(25):
        fs = {k: v.encode("latin1") for k, v in ppinc.program(rr)[0].items()}
        t.corpus.append((fs.pop("t.c"), fs))
    for _ in range(5): t.corpus.append((pplex.program(rr)[0].encode("latin1")[:3000], {}))
    td = os.path.join(vlib.REPO, "test", "scpp")
    for f in sorted(os.listdir(td)):
        s = open(os.path.join(td, f), "rb").read()
        if f.endswith(".c") and len(s) < 8000: t.corpus.append((s, {}))
    t.lims = [(n, v) for n in sorted(LIMITS) for v in LIMITS[n][2]]
    t.history = 1500 if c.quick else 8000
    dd = os.path.join(c.dir, "inv"); os.mkdir(dd)
    c.note(dict(evals=0, keys=["inv"], add=dict(invocations=invocation(t, dd))))
    c.pool(limit, len(t.lims), t, tag="lim")
    c.pool(hostile, len(HOSTILE), t, tag="hostile")
    c.pool(uses, c.n(60, 3000), t, tag="uses")
    c.pool(redefine, c.n(300, 10000), t, tag="redef")
    c.pool(prefix, c.n(60, 3000), t, tag="prefix")
    c.pool(mutant, c.n(600, 40000), t, tag="mut")

if __name__ == "__main__":
    vlib.main("P05", "An evaluation is an input (mutated, cut off, hostile, or at a limit) that an ASan/UBSan build, a plain build and a build with scrambled locals all end with the same outcome, 0 or a diagnostic and failure; or a long history of macro uses, "
      "or of definitions, uses and #undef, that must not run out of anything and give gcc's tokens.", body)
