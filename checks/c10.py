import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cprog import *
import layout, progs

# Declarations the wrong statements refer to
DECL = """struct ErS { int a; char b[4]; };
struct ErS ErGs;
struct ErS* ErSp;
struct ErN* ErNp;
enum { ErE = 3 };
int ErI;
char ErC;
int ErA[4];
int* ErP;
int ErF(int a) { return a; }
int* ErPF(void) { return ErP; }
struct ErS ErSa[2];
struct ErS** ErSq;
int** ErQ;
void ErV(void) { }
"""
# wrong wherever a statement can be
STMT = """5 = ErI; | (ErI + 1) = 2; | ErF(1) = 1; | ++5; | 5++; | --ErE; | ErE = 5; | &5; | ErP = &(ErI + 1); | ErP = &ErF(1); | ErP = &&ErI; | 5 += ErI; | ErI + 1 -= 2; | sizeof(ErI) = 1; | !ErI = 1; | ErI = ErC = 1 = 2; | -ErI = 3;
*5; | ErI = *ErI; | ErI[0] = 1; | 5[ErI] = 1; | ErI = ErA[1][2]; | *ErGs; | ErI = **ErP; | ErC[ErI] = 2; | ErI = *ErC;
ErGs.nope = 1; | ErSp->nope = 1; | ErI.a = 1; | ErI->a = 1; | ErSp.a = 1; | ErGs->a = 1; | ErP->a = 1; | ErA.a = 2; | ErF(1).a = 2; | ErGs.b.a = 1; | ErGs.a.a = 1; | ErGs.5 = 1; | ErI = ErGs.; | ErSp-> = 3;
goto; | goto 5; | switch (ErI) { case ErI: ErC = 1; } | switch (ErI) { case: ErC = 1; } | switch (ErI) { default: ErC = 1; default: ErC = 2; } | switch ErI { } | switch (ErI) { case 1 ErC = 1; } | switch (ErI) { default ErC = 1; } | switch (ErI) { case ErF(1): ; }
enum { ErQ1 = ErI }; | enum { ErQ1 = }; | enum { 5 }; | enum ErT5 { ErQ1 ErR }; | int Erb[ErI]; | int Erb[0]; | int Erb[-1]; | int Erb[ErF(2)]; | int Erb[; | int Erb[3; | int Erq = ; | int 5; | int Erq Err; | int Erb[2] = { 1, 2 }; | static int Ers = 5; | int Ers(int a);
ErI = ErUnknown; | ErI = ErUnknown + 1; | ErUnknown = 1; | ErI = ErUnknown[1]; | ErI += ErUnknown; | ErI = (ErUnk)ErI; | ++ErUnknown; | ErUnknown; | ErF(ErUnknown); | return ErUnknown; | if (ErUnknown) ; | sizeof(struct ErN); | ErNp->a = 1; | ErNp = ErNp + 1; | struct ErN ErX; | struct ErQ9 ErX; | ErI = sizeof(*ErNp);
5(); | ErI(); | (ErI + 1)(); | ErGs(); | ErSp(); | ErI = 5 / 0; | ErI = 5 % 0; | ErI = ErE / (3 - 3); | ErI = -ErGs; | ErI = ~ErGs; | ErGs = ErI; | ErI = -ErP; | ErI = ~ErP;
ErI = ''; | ErI = 'ab'; | ErI = '\\q'; | ErP = "\\q"; | ErI = 12ab; | ErI = 08; | ErI = 1 @ 2; | ErI = 1 $ 2; | ErI = 1 ` 2; | ErI = 1 \\ 2; | @ | $; | ErI = ErI ErI; | ErI 5; | ErI = 5 5; | ;@;
if ErI ; | if (ErI ErC) ; | if () ; | while () ; | while ErI ; | do ; while (ErI) ErC = 1; | do ; (ErI); | for (ErI = 1; ErI < 2) ; | for (ErI = 1, ErI < 2; ErI) ; | for ErI ; | ; else ErI = 1; | if (ErI) ; else ; else ; | ErI = (1; | ErI = 1); | ErI = ErA[1; | ErF(1; | ErF(1 2); | ErI = 1 +; | ErI = *; | ErI = ? 1 : 2; | ErI = ErI ? 1; | ErI = ErI ? : 2; | ErI = ErI ? 1 2; | return return; | ErI = { 1 }; | ) ; | ] | , ; | ErI = , 1; | = 5; | sizeof; | ErI = sizeof; | ErI = sizeof(); | ErI = ErI +* / 2; | ErI = ErI & & ErC | ; | ErI = !; | ErI = ErI ! ErC; | ErI = ErI ~ ErC; | case; | default; | (int ErI) = 1; | ErI = (int; | va_start(ErI, ErC); | ErI = va_arg(ErI, int); | break 5; | continue 5; | break continue; | -> 5; | . 5; | : ; | ErI = . 5; | ErI..a = 1; | return ; ] | ErF(; | int Erq = (1 + ; | ErGs = ErGs + 1 + ;""".replace("ErI & & ErC | ;", "ErI & & & ErC;")
# wrong where no loop or switch is around
FLAT = "break; | continue; | case 1: ErI = 1; | default: ErI = 1; | if (ErI) break; | { break; } | if (ErI) { ErC = 1; continue; } | do ErC = 1; while (0); break; | while (0) ; continue; | switch (ErI) { case 1: ; } break; | switch (ErI) { case 1: continue; } | { case 2: ; } | for (;0;) ; default: ;"
# reported at the end of the function or of the program
LATE = "goto ErNowhere; | ErUndefined(1); | ErI = ErUndefined(); | ErX: ; goto ErY; | /* never closed"
# wrong between functions
TOP = """int ErI = 5; int ErI = 6; | int ErF(int a) { return 1; } | 5; | int ErQ1 = ErI; | int ErQ1 = 5 +; | int ErQ1 = "abc"; | int (; | int ErH( { } | int ErH(int a { } | int ErH(int 5) { } | int ErZ[ErI]; | int ErZ[0]; | int ErZ[3; | enum { ErX1 ErX2 }; | enum { ErX1 = ErI }; | enum { ErX1 = , ErX2 }; | enum { , }; | struct ErZ { int a }; | struct ErZ { int a; | struct ErZ { 5; }; | int ErX1 ErX2; | int , ErX1; | int ErX1 1; | int ErX1 = 1 2; | else; | return 1; | { } | if (1) ; | ErF(1); | int ErX1 @; | char* ErX1 = "a"; | void ErH(void) { return 1 }; | int ErH(void) { 5 } | = 5; | int ErH(int a) return a; | int ErH(int a) { return a; } } | ] | typedef 5; | static 5; | int 5 = 5; | int ErX1[2] = { 1, 2 }; | int* 5; | struct ErS 5; | enum 5;"""
# ... reported where the size is needed: at the end
TOPLATE = "/* never closed | int ErZ[]; | void ErZ; | struct ErNever ErX1;"
def split(t): return [x.strip() for l in t.split("\n") for x in l.split(" | ") if x.strip()]
STMT, FLAT, LATE, TOP, TOPLATE = split(STMT), split(FLAT), split(LATE), split(TOP), split(TOPLATE)

# Wrong by what the operands are: %s in the left pieces stands for each of the right ones
PTRVAL = "ErP + 1 | 1 + ErP | ErP - 1 | &ErI | &ErA[1] | &*ErP | &ErGs.a | ErPF() | ErP++ | --ErP | (int*)ErI | (int*)5 | ErP = 0 | ErP += 2 | ErSp + 1 | (struct ErS*)ErP | &ErSa[1] | &ErGs | *ErQ + 1 | ErA + 1 | ErSp++"
INTVAL = "5 | ErE | ErI + 1 | ErC * ErI | ErF(1) | ErI++ | --ErC | -ErI | ~ErC | +ErI | !ErI | !ErP | (char)ErI | (int)ErP | sizeof ErI | sizeof(int) | ErI == 2 | ErP < ErP | ErI && ErC | ErI || ErP | ErI = 5 | ErC += 2 | ErI << 2 | 'a' | ErP - ErP | 2 + 3 | ErA[1] & 3 | ErI, 5"
INTOBJ = "ErI | ErC | ErA[1] | ErGs.a | ErGs.b[1] | ErSp->a | *ErP | **ErQ | ErSa[1].b[ErI]"
PTROBJ = "ErP | ErSp | *ErQ | ErSq | ErQ | *ErSq"
OBJECT = "(%s) = 5; | (%s)++; | ++(%s); | (%s)--; | --(%s); | ErI = !&(%s); | (%s) += 2; | (%s) -= ErI; | ErI = 1 + (%s)++; | if ((%s) = 5) ; | for (;; (%s)++) ; | ErF((%s) = 2);"
POINTER = "*(%s); | ErI = *(%s); | *(%s) = 1; | ErI = (%s)[1]; | (%s)[ErI] = 2; | ++*(%s); | ErF(*(%s)); | while (*(%s)) ;"
MEMBER = "(%s).a = 1; | ErI = (%s).a; | ErI = (%s).b[1]; | ErI = sizeof (%s).a; | ++(%s).a;"
ARROW = "(%s)->a = 1; | ErI = (%s)->a; | (%s)->b[ErI]++; | ErI = !&(%s)->a;"
CALL = "(%s)(); | ErI = (%s)(1); | (%s)(ErI, 2) + 1;"
CONST = "switch (ErI) { case %s: ErC = 1; } | switch (ErI) { case 1: case %s: ; case 3: ; } | int Erb[%s]; | enum { ErQ1 = %s }; | enum { ErQ1, ErQ2 = %s, ErQ3 };"
NUMBER = "ErI = -(%s); | ErI = ~(%s); | ErP = -(%s); | ErI = 1 + ~(%s);"
ZERO = "ErI = 5 / (%s); | ErI = 7 % (%s); | ErI = ErE / (%s); | switch (ErI) { case 5 / (%s): ; } | int Erb[5 / (%s)]; | enum { ErQ1 = 5 % (%s) };"
ZEROS = "0 | 3 - 3 | ErE - 3 | !5 | 5 & 2 | 0 * 7 | 1 >> 1"
def product(a, b): return [x.replace("%s", y) for x in split(a) for y in split(b)]
FAMILY = {"object": [x for x in product(OBJECT, PTRVAL + " | " + INTVAL) if not re.search(r"\((?:--\w+|\w+ (?:\+=|=) \w+)\)", x)], "pointer": product(POINTER, INTVAL + " | " + INTOBJ + " | ErGs | *ErSp | ErSa[1]"),
          "member": product(MEMBER, INTVAL + " | " + INTOBJ + " | " + PTRVAL + " | " + PTROBJ + " | ErA | ErSa"), "nope": [x.replace(".a", ".nope").replace(".b", ".nope") for x in product(MEMBER, "ErGs | *ErSp | ErSa[ErI] | **ErSq | ErSp[1]")] + [x.replace("->a", "->nope").replace("->b", "->nope") for x in product(ARROW, "ErSp | &ErGs | ErSa + 1 | *ErSq | &ErSa[1] | ErSp++")],
          "arrow": product(ARROW, INTVAL + " | " + INTOBJ + " | ErP | ErQ | *ErQ | ErSq | &ErSp | ErGs | *ErSp | ErPF() | &ErI | ErA | ErP + 1"),
          "call": product(CALL, INTVAL.replace("5 |", "5 |") + " | " + INTOBJ + " | ErP | ErGs | ErSp | &ErI | ErP + 1 | ErA | ErPF()"),
          "constant": product(CONST, INTOBJ + " | ErF(2) | ErI + 1 | ErI++ | &ErI | ErP | 5 + ErC | !ErI | ErI ? 1 : 2 | ErI = 3"), "number": product(NUMBER, PTRVAL + " | " + PTROBJ), "zero": product(ZERO, ZEROS)}
FAMILY["constant"] += product("ErL5: ; int ErX1[%s]; | struct { int a; int b[%s]; } ErX1;", "ErI | ErC | ErF(2) | 0 | -1 | ErE - 3 | ErI + 1 | 3 - 5 | 'a' - 98")


TOK = re.compile(r"/\*.*$|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'|\w+|<<=|>>=|->|\+\+|--|&&|\|\||[-+*/%&|^=!<>]=|\S")

def spread(rng, text):
    """the tokens of a wrong piece of program, on several lines"""
    if rng.random() < 0.5: return text
    return "".join(t + rng.choice([" ", " ", "\n", "\n\n", " // x\n", " /* a\n b */ "]) if t[:2] != "/*" else t for t in TOK.findall(text)).rstrip()

def lines(s): return s.count("\n")

def refused(ctx, d, src, what, lo, hi, rng):
    """src must be refused with a line number in [lo, hi]"""
    fs = {"t.c": src.encode("latin1"), "what.c": what}
    old = None
    out = os.path.join(d, "t.com")
    if os.path.exists(out): os.unlink(out)
    if rng.random() < 0.3:
        old = b"old program"
        with open(out, "wb") as f: f.write(old)
    with open(os.path.join(d, "t.c"), "wb") as f: f.write(fs["t.c"])
    r = run([ctx.scc_san if rng.random() < 0.25 else ctx.scc, "t.c", "t.com"], cwd=d, timeout=20)
    if r.timeout or r.sanitizer() or r.rc not in (0, 1): raise Violation("scc ended abnormally on %r: %s" % (what, r.brief(300)), fs)
    if r.rc == 0: raise Violation("scc accepts %r" % what, fs)
    m = re.findall(rb"In line (-?\d+): \S", r.out + r.err)
    if not m: raise Violation("no diagnostic with a line for %r: %s" % (what, r.brief(300)), fs)
    n = int(m[-1])
    if not lo <= n <= hi: raise Violation("%r is in lines %d to %d, scc says line %d" % (what, lo, hi, n), fs)
    now = open(out, "rb").read() if os.path.exists(out) else None
    if now != old: raise Violation("scc refuses %r and writes the program" % what, fs)

def next_token(src, pos):
    """line on which the first token at or after pos starts (last line if there is none)"""
    for m in layout.TOK.finditer(src, pos):
        if m.lastgroup != "ws": return 1 + src.count("\n", 0, m.start())
    return 1 + src.count("\n")

OKLINE = re.compile(r"\s+(?:[^\s].*)?[;{}]\s*$")
def places(src):
    """ends of lines inside function bodies, ends of bodies, starts of functions"""
    inside, ends, tops = [], [], []
    body, pos = False, 0
    for l in src.split("\n"):
        if not body and re.match(r"(?:int|void|unsigned|char)\b[^;{}]*\)\s*$", l): tops.append(pos)
        if l.startswith("{"): body = True
        elif l.startswith("}"):
            if body: ends.append(pos)
            body = False
        elif body and OKLINE.match(l): inside.append(pos + len(l) + 1)
        pos += len(l) + 1
    return inside, ends, tops

def base(ctx, rng, d):
    """an accepted program that begins with DECL"""
    for _ in range(20):
        src = DECL + progs.program(rng)[0]
        with open(os.path.join(d, "b.c"), "wb") as f: f.write(src.encode("latin1"))
        r = run([ctx.scc, "b.c", "b.com"], cwd=d, timeout=20)
        if r.rc == 0: return src
    return None

def semantic(ctx, rng, d, i):
    src = base(ctx, rng, d)
    if not src: return None
    inside, ends, tops = places(src)
    keys, n = [], 0
    for _ in range(24):
        y = rng.random()
        if y < 0.35 and inside: t, p = rng.choice(FAMILY[rng.choice(sorted(FAMILY))]), rng.choice(inside + ends)
        elif y < 0.65 and inside: t, p = rng.choice(STMT), rng.choice(inside + ends)
        elif y < 0.78 and ends: t, p = rng.choice(FLAT), rng.choice(ends)
        elif y < 0.84 and ends: t, p = rng.choice(LATE), rng.choice(ends)
        elif tops: t, p = rng.choice(TOP + TOPLATE * 4), rng.choice(tops + [len(src)] * 2)
        else: continue
        e = spread(rng, t)
        if t in FLAT or p in ends or "ErUnk" in t: e = "ErL: ; " + e        # reachable whatever is before it
        # nothing of what follows can join the wrong piece
        new = src[:p] + "\n" * rng.randrange(3) + e + "\n" + src[p:]
        lo = 1 + src.count("\n", 0, p)
        q = p + new[p:].index(e) + len(e)
        lo = 1 + new.count("\n", 0, q - len(e))
        hi = 1 + new.count("\n") if t in LATE + TOPLATE or "ErUnk" in t or t.count("{") > t.count("}") else next_token(new, q)
        if t in ("goto ErNowhere;", "ErX: ; goto ErY;"): hi = next_token(new, new.index("\n}", q) + 2)
        refused(ctx, d, new, t, lo, hi, rng)
        keys.append(h(t, p in ends)); n += 1
    return dict(evals=n, keys=keys, add={"wrong pieces": n})

def character(ctx, rng, d, i):
    """a character no token starts with, anywhere between tokens: its own line is named"""
    src = base(ctx, rng, d)
    if not src: return None
    if rng.random() < 0.7:
        src = layout.relayout(rng, layout.tokens(src))
        with open(os.path.join(d, "b.c"), "wb") as f: f.write(src.encode("latin1"))
        if run([ctx.scc, "b.c", "b.com"], cwd=d, timeout=20).rc: return None   # C07's matter
    ms = [m for m in layout.TOK.finditer(src)]
    cand = [k for k in range(1, len(ms)) if ms[k].lastgroup != "ws"]
    keys, n = [], 0
    for _ in range(24):
        k = rng.choice(cand)
        p = ms[k].start()
        a = rng.choice(["", " ", "\n", "\n\n\n", "// c\n", "/*\n\n*/", "\n# 5\n", "\n# 5\n# 6 \"x\"\n#\n", "// x\n#\n//\n", "\n#/*\n/*#\n*/", " " * rng.choice([100, 500, 511, 512, 513]) + "\n", "\r\n\r\n"])
        c = rng.choice("@$`\\")
        new = src[:p] + a + c + rng.choice(["", " ", "\n"]) + src[p:]
        line = 1 + new.count("\n", 0, p + len(a))
        refused(ctx, d, new, "%s before %s" % (c, ms[k].group()[:20]), line, line, rng)
        keys.append(h(ms[k].lastgroup, ms[k].group() if ms[k].lastgroup == "op" else "", ms[k - 1].group()[-2:])); n += 1
    return dict(evals=n, keys=keys, add={"wrong characters": n})

INS = [";", ",", "(", ")", "{", "}", "[", "]", "=", "+", "*", "if", "5", "return", "else", "while", ".", "->", "?", ":", "case", "!", "==", "<", "for", "goto", "sizeof"]
GCCHEAD = "typedef char *va_list; extern char _SBSS, _EBSS;\n#define va_start(a,b) (a=0)\n#define va_arg(a,t) (*(t*)a)\n#define va_end(a)\n#line 1\n"
def gcc(d, src):
    with open(os.path.join(d, "g.c"), "wb") as f: f.write((GCCHEAD + re.sub(r"_emit\s+0x[0-9A-Fa-f]+", ";", src)).encode("latin1"))
    return run(["gcc", "-fsyntax-only", "-w", "-std=gnu99", "-fpermissive", "-ffreestanding", "-fno-builtin", "-fmax-errors=3", "g.c"], cwd=d, timeout=30)

def syntax(ctx, rng, d, i):
    """a token of a statement removed, doubled, replaced or added: where gcc finds a syntax error scc has to find one too"""
    src = base(ctx, rng, d)
    if not src or b" error: " in gcc(d, src).err: return None      # (0xE-1 is one wrong number for gcc)
    ms = [m for m in layout.TOK.finditer(src)]
    body = False
    pos = 0
    good = set()
    # (scc takes the name of a type for an operand, and a comma in a case's constant)
    types = re.compile(r"\b(?:%s)\b" % "|".join(["int", "char", "unsigned", "void", "struct", "union", "enum", "static", "typedef", "const", "va_list", "case"] + re.findall(r"\btypedef\b[^;]*?(\w+)(?:\s*\[[^;]*)?;", src)))
    for l in src.split("\n"):
        if l.startswith("{"): body = True
        elif l.startswith("}"): body = False
        elif body and "_emit" not in l and not types.search(l): good.add(pos)
        pos += len(l) + 1
    cand = [k for k in range(1, len(ms)) if ms[k].lastgroup not in ("ws", "str") and src.rfind("\n", 0, ms[k].start()) + 1 in good]
    if not cand: return None
    keys, n, ng = [], 0, 0
    for _ in range(16):
        k = rng.choice(cand)
        t, (p, q) = ms[k].group(), ms[k].span()
        o = rng.choice(INS)
        kind = rng.randrange(4)
        new = src[:p] + (" ", t + " " + t, " " + o + " " + t, " " + o + " ")[kind] + src[q:]
        r = gcc(d, new)
        err = [l for l in r.err.decode("latin1").splitlines() if " error: expected" in l]
        if not err: ng += 1; continue
        if re.search(r"error: expected (?:declaration|identifier or|specifier|.\)\S before .\.\.\.)", err[0]): continue
        if re.search(r",\s*\)", new[max(0, p - 20):q + 20]): continue          # f(1,) is accepted
        what = "line %d: %s" % (1 + src.count("\n", 0, p), new[new.rfind("\n", 0, p) + 1:new.index("\n", p)])
        refused(ctx, d, new, what, 1 + src.count("\n", 0, p), 1 + new.count("\n"), rng)
        keys.append(h(kind, t if ms[k].lastgroup == "op" or t in INS else ms[k].lastgroup, o if kind > 1 else "")); n += 1
    return dict(evals=n, keys=keys, add={"syntax errors": n, "changes gcc calls no syntax error": ng})

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scc:san"])
    c.pool(semantic, c.n(450, 15000), t, "semantic")
    c.pool(character, c.n(300, 10000), t, "character")
    c.pool(syntax, c.n(200, 8000), t, "syntax")

if __name__ == "__main__":
    vlib.main("C10", "Each evaluation is one wrong program made from a generated correct one: a forbidden statement or declaration put somewhere, an unknown character between two tokens, or a token removed, doubled, replaced or added where gcc then finds a syntax error. "
      "scc (a quarter under ASan/UBSan) must end with status 1, name a line of the wrong piece or of the token after it (the exact line for a character), and write no program. Distinct = wrong piece, token context, or kind of change.", body)
