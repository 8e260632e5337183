import sys, os, functools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cprog import *
import fuzz, limits, progs, random

WORDS = [w.encode() for w in ("auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while "
         "va_list va_start va_end va_arg _emit _start _SBSS _EBSS + - * / % & | ^ ~ ! < > = ? : , ; ( ) [ ] { } . -> ++ -- << >> <= >= == != && || += -= *= /= %= &= |= ^= <<= >>= ... /* */ // # \" ' 'a' \"s\" 0 1 x").split()]

def three(ctx, d, data, what, files=None):
    """compile with the sanitizer build, the plain build and a build with scrambled locals: all must end
    with the same outcome, without reports"""
    with open(os.path.join(d, "p.c"), "wb") as f: f.write(data)
    files = {"p.c": data}
    res = []
    for exe in (ctx.scc_san, ctx.scc, ctx.scc_pat):
        for x in ("p.com", "p.map"):
            if os.path.exists(os.path.join(d, x)): os.unlink(os.path.join(d, x))
        r = run([exe, "p.c", "p.com"], cwd=d, timeout=20)
        if r.sanitizer(): raise Violation("%s: memory error or undefined behaviour: %s" % (what, r.brief()), files)
        if r.timeout: raise Violation("%s: TIMEOUT: scc does not end" % what, files)
        if r.rc not in (0, 1): raise Violation("%s: scc ended abnormally: %s" % (what, r.brief()), files)
        if r.rc == 1 and not (r.out + r.err).strip(): raise Violation("%s: exit status 1 without a diagnostic" % what, files)
        img = None
        if r.rc == 0:
            if (r.out + r.err).strip(): raise Violation("%s: exit status 0 but a diagnostic: %s" % (what, r.brief(300)), files)
            try: img = open(os.path.join(d, "p.com"), "rb").read(), open(os.path.join(d, "p.map"), "rb").read()
            except OSError as e: raise Violation("%s: exit status 0 but %s" % (what, e), files)
            if not img[0] or not img[1]: raise Violation("%s: exit status 0 but an empty image or map" % what, files)
            if len(img[0]) > 0xFF00: raise Violation("%s: image of %d bytes" % (what, len(img[0])), files)
        res.append((r.rc, img))
    if not (res[0] == res[1] == res[2]):
        raise Violation("%s: the outcome depends on how scc was built (undefined behaviour): %s" % (what, [(a, h(b)) for a, b in res]), files)
    return res[0]

def mutant(ctx, rng, d, i):
    keys, ok = [], 0
    base = ctx.corpus[rng.randrange(len(ctx.corpus))]
    for _ in range(8):
        data = fuzz.mutate(rng, base, WORDS, ctx.corpus)[:60000]
        rc, img = three(ctx, d, data, "mutated program")
        ok += rc == 0
        keys.append(h("mut", data))
    return dict(evals=8, keys=keys, add=dict(mutants=8, mutants_accepted=ok))

def prefixes(ctx, rng, d, i):
    """every token and buffer boundary as the end of the file"""
    src = ctx.corpus[rng.randrange(len(ctx.corpus))]
    t = fuzz.toks(src)
    n = 0
    for _ in range(10):
        k = rng.randrange(len(t) + 1)
        data = b"".join(t[:k])
        if rng.random() < 0.3: data = data[:-1]
        if rng.random() < 0.3: data = data[:len(data) // 512 * 512 + rng.choice([-1, 0, 1])]
        three(ctx, d, data, "program cut off after %d bytes" % len(data))
        n += 1
    return dict(evals=n, keys=[h("pre", src, i)], add=dict(prefixes=n))

def limit(ctx, rng, d, i):
    name, n = ctx.lims[i]
    floor = limits.FAM[name][1]
    src, exp = limits.program(name, n)
    what = "limit %s at %d: " % (name, n)
    rc, img = three(ctx, d, src.encode(), what)
    if rc:
        if n <= floor: raise Violation(what + "rejected a program within the limit", {"p.c": src})
        return dict(evals=1, keys=[h("lim", name, n)], add=dict(limit_rejected=1))
    j = run_and_compare(ctx, d, src, exp, seed=i + 1, what=what)
    return dict(evals=1, keys=[h("lim", name, n)], add=dict(limit_accepted=1, steps=j["steps"]), max={"max_" + name: n})

def filled(ctx, rng, d, i):
    """a valid random program compiled with some table nearly full"""
    src, exp = progs.program(rng)
    pre = limits.prefill(rng)
    if rng.random() < 0.3: pre += limits.prefill(rng) if not pre else ""
    src = pre + src
    rc, img = three(ctx, d, src.encode("latin1"), "program behind a nearly full table")
    if rc: return dict(evals=1, keys=[h(src)], add=dict(filled_rejected=1))
    if exp is not None:
        run_and_compare(ctx, d, src, exp, seed=i + 1, what="program behind a nearly full table: ")
    return dict(evals=1, keys=[h(src)], add=dict(filled_accepted=1))

HOSTILE = {
    "empty": b"", "newline": b"\n", "blank": b" " * 600, "nul": b"\0", "nul middle": b"int x;\0int y;\n", "ff": b"\xff" * 100, "80": b"int \x80;", "ctrl z": b"int x;\x1a",
    "comment": b"/* never closed", "comment star": b"/* *", "line comment": b"// x", "string": b'char s[] = "abc', "string newline": b'char s[] = "abc\n";', "string escape": b'char s[] = "\\', "char": b"int x = 'a", "char escape": b"int x = '\\", "char empty": b"int x = '';", "char long": b"int x = 'abcdefgh';", "hex": b"int x = 0x;", "hex escape": b"char s[] = \"\\x\";", "hex escape eof": b"char s[] = \"\\x4",
    "octal": b"char s[] = \"\\777\\8\\08\";", "number": b"int x = 99999999999999999999999999;", "hex long": b"int x = 0xFFFFFFFFFFFFFFFFFFFFFF;",
    "directive": b"#", "directive eof": b"#define", "start only": b"void _start(void){", "start": b"void _start(void){}", "no start": b"int x;", "start variable": b"int _start;", "bss": b"int _SBSS;", "bss2": b"int _EBSS;", "bss call": b"void _start(void){_SBSS();}", "emit": b"void _start(void){_emit", "emit expr": b"void _start(void){int x; _emit x;}", "emit range": b"void _start(void){_emit 300 _emit -1}",
    "div0": b"int a[1/0];", "mod0": b"enum{A=1%0};", "negative bound": b"int a[-1];", "zero bound": b"int a[0];", "empty bound": b"void _start(void){int a[]; a[0]=1;}", "huge bound": b"int a[32767][32767];", "huge struct": b"struct S{int a[32767]; int b[32767];}; struct S s; void _start(void){s.b[5]=1;}",
    "void var": b"void x;", "void array": b"void a[3];", "void member": b"struct S{void v;};", "void param": b"int f(void x){return x;}", "incomplete": b"struct S x;", "incomplete member": b"struct S{struct S s;}; struct S x; int a[sizeof(struct S)];", "self": b"struct S{struct S* s; struct S a[3];};", "incomplete param": b"struct T; int f(struct T t){return sizeof(t);}", "member of int": b"void _start(void){int x; x.a=1;}", "arrow int": b"void _start(void){int x; x->a=1;}", "no member": b"struct S{int a;}; void _start(void){struct S s; s.b=1;}",
    "call int": b"void _start(void){int x; x();}", "call const": b"void _start(void){5();}", "deref int": b"void _start(void){int x; *x=1;}", "deref const": b"void _start(void){*5=1;}", "assign const": b"void _start(void){5=1;}", "assign func": b"void f(void){} void _start(void){f=1;}", "inc func": b"void f(void){} void _start(void){f++; ++f; f+=1; f--;}", "assign array": b"int a[3]; void _start(void){a=1; a++;}", "assign struct int": b"struct S{int a;}; void _start(void){struct S s; s=1; s=s+s; s++; if(s) ; s(); !s; -s; s?1:2;}", "struct cond": b"struct S{int a;}; void _start(void){struct S s; struct S t; int x; s = x ? s : t; }", "struct arg": b"struct S{int a;}; void f(struct S s){} void _start(void){struct S s; f(s);}", "struct ret": b"struct S{int a;}; struct S f(void){struct S s; return s;}", "void value": b"void f(void){} void _start(void){int x = f(); x = f() + 1; if (f()) ; f() = 1; !f(); }",
    "break": b"void _start(void){break;}", "continue": b"void _start(void){continue;}", "case": b"void _start(void){case 1: ;}", "default": b"void _start(void){default: ;}", "default twice": b"void _start(void){switch(1){default: default: ;}}", "case var": b"void _start(void){int x; switch(x){case x: ;}}", "goto": b"void _start(void){goto x;}", "label twice": b"void _start(void){x: ; x: ;}", "else": b"void _start(void){else ;}", "return out": b"return 1;", "statement": b"1+1;", "switch struct": b"struct S{int a;}; void _start(void){struct S s; switch(s){case 1: ;}}", "while void": b"void f(void){} void _start(void){while(f()) ;}",
    "sizeof": b"int a[sizeof];", "sizeof paren": b"int a[sizeof(];", "sizeof void": b"int a[sizeof(void)];", "sizeof fn": b"void f(void); int a[sizeof(f)];", "cast": b"void _start(void){(struct S)1; (struct S*)1;}", "cast array": b"void _start(void){(int[3])1;}", "typedef": b"typedef", "typedef self": b"typedef T T;", "typedef fn": b"typedef int F(int); F f; void _start(void){f(1);}", "typedef arr": b"typedef int A[3]; A a; void _start(void){a[2]=1;}", "typedef in expr": b"typedef int T; void _start(void){T; T=1; T*x; T(y); }",
    "va": b"void _start(void){va_start; va_arg; va_end; va_list;}", "va start": b"void _start(void){va_list v; va_start(v, x);}", "va arg": b"void f(int a, ...){va_list v; va_start(v,a); va_arg(v,struct S); va_arg(v); va_arg(a,int);}", "dots": b"void f(...){} void _start(void){f(1,2);}", "dots mid": b"void f(int a, ..., int b){}", "redef": b"int f(void){return 1;} int f(void){return 2;}", "redef var": b"int x; int x; char x; void x(void){}", "fn then var": b"void f(void); int f;", "param twice": b"void f(int a,int a){a=1;}", "kr": b"int f(a,b) int a; int b; {return a+b;}",
    "init array": b"int a[3] = {1,2,3};", "init string big": b"char a[2] = \"abcdef\";", "init struct": b"struct S{int a;} s = {1};", "init fn": b"void f(void); int x = f;", "init self": b"int x = x;", "init var": b"int x; int y = x;", "init neg": b"int x = -32768;", "init expr": b"int x = 1 ? 2 : 3, y = sizeof(int), z = (1,2);", "enum big": b"enum{A=40000,B,C=-1,D};", "enum self": b"enum{A=A};", "enum neg": b"enum E{X=-5} e;", "enum empty": b"enum{};", "struct empty": b"struct S{}; struct S s; int a[sizeof(struct S)];", "union": b"union U{}; union U u;", "bitfield": b"struct S{int a:3;};", "semis": b";;;;", "garbage": b"@", "backslash": b"\\", "quote": b"`$",
    "ptr levels": b"int**** p; void _start(void){****p=1;}", "ptr levels2": b"int*** p; void _start(void){int x=***p; &p; &*p; **p++; *&*&p;}", "addr levels": b"int*** p; void _start(void){int q=&p;}", "addr const": b"void _start(void){&5; &(1+2); &f;}", "addr func": b"void f(void){} void _start(void){&f; *f; **f; (*f)(); (&f)();}", "fnptr": b"int (*f)(int); void _start(void){f(1); (*f)(1); f=0; f++; f+1; f-f; &f;}", "fnptr ret": b"int (*f(void))(int);", "fnptr arr": b"int (*f[3])(int); void _start(void){f[1](2);}", "fnptr fnptr": b"int (*f)(int (*)(int)); int (**g)(int);",
    "shift": b"int a[1<<40]; int b = 1<<-1, c = 1>>16, d = -1>>1;", "overflow": b"int x = 32767+1, y = -32768-1, z = 300*300, w = -32768/-1, v = -32768%-1;", "unsigned": b"int x = 0xFFFFu; unsigned unsigned y; unsigned char z; signed unsigned w; long q; long long r; short s; float f; double d;", "const": b"const const int const x; const* y; int* const z; volatile int v; register int r; auto int a; extern int e; static static int s;", "static fn": b"static int f(void){return 1;} static x;", "extern": b"extern int x; extern void f(void); void _start(void){x=1;}", "inline": b"inline int f(void){}",
    "missing paren": b"void _start(void){if x) ; while(1 ; for(;; ; do ; while(1 ;", "for decl": b"void _start(void){for(int i=0;i<3;++i) ;}", "nested fn": b"void _start(void){int f(void){return 1;}}", "proto in fn": b"void _start(void){int f(void);}", "comma": b"int a,b,c,; int ,d;", "comma expr": b"void _start(void){int x; x=(1,2,3); ,;}", "ternary": b"void _start(void){1?2; 1?:2; ?1:2; 1?2:3?4:5;}", "ops": b"void _start(void){+ - * / % ; 1 + ; * ; ! ; ~ ; ++ ; -- ; 1++; --1; +1; ++(x); }", "brackets": b"int a[3]; void _start(void){a[; a]; a[]; a[1][2]; 1[a]; a[a]; a[1,2];}", "string index": b"void _start(void){\"abc\"[1]; *\"abc\"; \"abc\"+1; \"abc\"=1; &\"abc\"; \"a\" \"b\" \"c\";}", "string case": b"void _start(void){switch(1){case 1: \"x\"; case \"y\": ;}}",
}

def hostile(ctx, rng, d, i):
    name, data = sorted(HOSTILE.items())[i]
    acc = 0
    wrap = [data, data + b"\n", b"void _start(void){}\n" + data, data + b" void _start(void){}", b" " * (512 - len(data) % 512) + data, b"/*" + b"x" * 507 + b"*/" + data, data.replace(b" ", b"\r\n"), data + b"\0", data[:-1], b"int zz; " + data * 2]
    for x in wrap:
        rc, _ = three(ctx, d, x, "hostile input '%s'" % name)
        acc += rc == 0
    return dict(evals=len(wrap), keys=[h("hostile", name)], add=dict(hostile=len(wrap), hostile_accepted=acc))

def invocation(ctx, d):
    """command lines and files that cannot be opened"""
    with open(os.path.join(d, "a.c"), "w") as f: f.write("void _start(void) { }\n")
    os.mkdir(os.path.join(d, "dir.com")); os.mkdir(os.path.join(d, "sub"))
    n = 0
    for exe in (ctx.scc_san, ctx.scc):
        for args, want in (([], 1), (["nosuch.c"], 1), (["nosuch.c", "o.com"], 1), (["a.c", "sub/none/o.com"], 1), (["a.c", "dir.com"], 1), (["", ""], 1), (["a.c", ""], 1),
                           (["a.c", "o.com"], 0), (["a.c"], 0), (["a.c", "noext"], 0), (["./a.c", "./sub/o.com"], 0), (["a.c", "x.y.com"], 0), (["a.c", "." + "n" * 200 + ".com"], 0), (["a.c", "m" * 240], 0)):
            r = run([exe] + args, cwd=d)
            n += 1
            if r.crashed(): raise Violation("scc %s: %s" % (args, r.brief()))
            if r.rc != want: raise Violation("scc %s: exit status %s instead of %d: %s" % (args, r.rc, want, r.brief(300)))
            if want and not (r.out + r.err).strip(): raise Violation("scc %s: failed without a diagnostic" % args)
    return n

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scc:san"])
    t.scc_pat = os.path.join(c.dir, "scc_pat")
    r = run(["gcc", "-O0", "-w", "-std=c99", "-D_DEFAULT_SOURCE", "-ftrivial-auto-var-init=pattern", "-o", t.scc_pat, os.path.join(vlib.REPO, "scc.c")], timeout=120)
    if r.rc: raise vlib.CheckError("cannot build scc: " + r.brief())
    rr = random.Random("corpus:%d" % vlib.SEED)
    t.corpus = []
    while len(t.corpus) < 60:
        s = progs.program(rr)[0].encode("latin1")
        if len(s) < 6000: t.corpus.append(s)
    td = os.path.join(vlib.REPO, "test", "scc")
    for f in sorted(os.listdir(td)):
        s = open(os.path.join(td, f), "rb").read()
        if f.endswith(".c") and len(s) < 8000: t.corpus.append(s)
    t.lims = [(n, v) for n in sorted(limits.FAM) for v in limits.FAM[n][2]]
    rng = random.Random(vlib.SEED)
    if c.quick:
        keep = []
        for n in sorted(limits.FAM):                # in the quick tier a sample of the long sweeps
            vs = limits.FAM[n][2]
            if len(vs) > 14: vs = sorted(rng.sample(vs, 14) + [limits.FAM[n][1]])
            keep += [(n, v) for v in vs]
        t.lims = keep
    dd = os.path.join(c.dir, "inv"); os.mkdir(dd)
    n = invocation(t, dd)
    c.note(dict(evals=n, keys=["inv"], add=dict(invocations=n)))
    c.pool(limit, len(t.lims), t, tag="lim")
    if c.violations: return
    c.pool(hostile, len(HOSTILE), t, tag="hostile")
    c.pool(filled, c.n(160), t, tag="fill")
    c.pool(prefixes, c.n(60), t, tag="prefix")
    c.pool(mutant, c.n(1000), t, tag="mut")

if __name__ == "__main__":
    vlib.main("C08", "an input text (mutated, cut off, hostile or at a limit) compiled by an ASan/UBSan build, a plain build and a build with scrambled locals, ended with the same outcome; accepted limit programs also executed",
          body, assumptions=["nesting of expressions and statements up to 1000 levels (deeper nesting is limited by the host's stack)", "inputs up to 60000 bytes"])
