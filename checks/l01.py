import sys, os, shutil, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from vlib import Violation, h, em86, run, CheckError

NS, SZ = 4, 120                     # string buffers

def lit(s):
    """C literal of the bytes s"""
    o, hexed = "", False
    for c in s:
        ch = chr(c)
        if c == 10: t = "\\n"
        elif c == 13: t = "\\r"
        elif c == 9: t = "\\t"
        elif ch in "\\\"": t = "\\" + ch
        elif 32 <= c < 127 and not (hexed and ch in "0123456789abcdefABCDEF"): t = ch
        else: t = "\\x%02X" % c
        hexed = t.startswith("\\x")
        o += t
    return '"%s"' % o

TEXT = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,;:!?+-*/()[]{}<>=_#&|^~@$'`"
class G:
    def __init__(self, rng):
        self.rng, self.out, self.ind = rng, [], 1
        self.len = [0] * NS          # string length known at generation time
        self.files = {}              # name -> length
        self.stats = {}
        self.fn = []
        self.nf = 0
    def st(self, k): self.stats[k] = self.stats.get(k, 0) + 1
    def emit(self, s): self.out.append("    " + s)
    def text(self, n=None):
        rng = self.rng
        n = rng.choice([0, 1, 2, 5, 8, 15, 30, 49]) if n is None else n
        pool = TEXT if rng.random() < 0.8 else bytes(range(1, 256))
        return bytes(rng.choice(pool) for _ in range(n)).replace(b"%", b"p")
    def num(self):
        rng = self.rng
        v = rng.choice([0, 1, -1, 9, 10, 11, 99, 100, -9, -10, -99, -100, 255, 256, 999, 1000, 9999, 10000, 32767, -32767, -32768, 0x7f, 0x80, 0xff0]) if rng.random() < 0.6 else rng.randrange(-32768, 32768) >> rng.choice([0, 3, 8])
        if rng.random() < 0.5:
            i = rng.randrange(6)
            self.emit("V[%d] = %s;" % (i, self.cnum(v)))
            return "V[%d]" % i, v
        return self.cnum(v), v
    def cnum(self, v): return "(-32767 - 1)" if v == -32768 else str(v)
    def fmt(self, room):
        """(format bytes, argument texts, longest result)"""
        rng = self.rng
        f, args, n = b"", [], 0
        for _ in range(rng.randrange(1, 7)):
            k = rng.randrange(12)
            t = self.text(rng.randrange(0, 6))
            if n + len(t) + 30 > room: break
            f += t; n += len(t)
            if k == 0: f += b"%%"; n += 1; continue
            if len(args) >= 5: continue
            if k <= 3:
                w = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 19, 20])
                e, v = self.num()
                f += b"%" + (b"0" if w and rng.random() < 0.4 else b"") + (b"%d" % w if w else b"") + b"d"
                args.append(e); n += max(w, 6); self.st("%d")
            elif k == 4:
                e, v = self.num(); f += b"%+d"; args.append(e); n += 6; self.st("%+d")
            elif k <= 7:
                w = rng.choice([0, 0, 1, 2, 3, 4, 4, 5, 8, 9, 10, 12])
                e, v = self.num()
                f += b"%" + (b"0" if w and rng.random() < 0.5 else b"") + (b"%d" % w if w else b"") + rng.choice([b"x", b"X"])
                args.append("%s & 0xffff" % e); n += max(w, 4); self.st("%x")
            elif k == 8:
                c = rng.randrange(1, 256); f += b"%c"; args.append(str(c) if rng.random() < 0.5 else self.chlit(rng.choice(TEXT))); n += 1; self.st("%c")
            else:
                if rng.random() < 0.5:
                    i = rng.randrange(NS)
                    if n + self.len[i] > room - 10: continue
                    f += b"%s"; args.append("S[%d]" % i); n += self.len[i]
                else:
                    t = self.text()
                    if n + len(t) > room - 10: continue
                    f += b"%s"; args.append(lit(t)); n += len(t)
                self.st("%s")
        return f, args, n
    def chlit(self, c): return "'%s'" % {39: "\\'", 92: "\\\\"}.get(c, chr(c))
    def call(self, name, pre, f, args): self.emit("%s(%s);" % (name, ", ".join(pre + [lit(f)] + args)))
    def shows(self, i):
        self.emit('printf("%%d %%s|\\n", strlen(S[%d]), S[%d]);' % (i, i))
    def step(self):
        rng = self.rng
        k = rng.randrange(20)
        if k < 5:
            f, a, n = self.fmt(230)
            self.call("printf" if rng.random() < 0.7 else "Log", [], f + b"\n", a); self.st("printf")
        elif k < 7:
            i = rng.randrange(NS)
            ol = self.len[i]
            f, a, n = self.fmt(SZ - 5)
            if any("S[%d]" % i in x for x in a): return
            self.call("sprintf" if rng.random() < 0.6 else "Format", ["S[%d]" % i], f, a); self.st("sprintf")
            self.len[i] = n
            self.shows(i)
        elif k < 9:
            i = rng.randrange(NS); t = self.text()
            if rng.random() < 0.6:
                self.emit("strcpy(S[%d], %s);" % (i, lit(t))); self.len[i] = len(t)
            else:
                j = rng.choice([x for x in range(NS) if x != i])
                self.emit("strcpy(S[%d], S[%d]);" % (i, j)); self.len[i] = self.len[j]
            self.st("strcpy"); self.shows(i)
        elif k < 11:
            i = rng.randrange(NS); y = rng.random()
            a = "S[%d]" % i
            if y < 0.4: b = "S[%d]" % rng.randrange(NS)
            else: b = lit(self.text())
            if rng.random() < 0.4:
                # nearly equal strings
                t = self.text(rng.randrange(1, 20)); u = bytearray(t)
                p = rng.randrange(len(u)); u[p] = rng.choice([1, 0x41, 0x7f, 0x80, 0x81, 0xff, rng.randrange(1, 256)])
                if rng.random() < 0.3: u = u[:p]
                if b"%" in u: u = u.replace(b"%", b"p")
                a, b = lit(t), lit(bytes(u))
            if rng.random() < 0.5: a, b = b, a
            self.emit('V[0] = strcmp(%s, %s); printf("cmp %%d %%d %%d\\n", V[0] < 0, V[0] == 0, V[0] > 0);' % (a, b)); self.st("strcmp")
        elif k < 13:
            x, n = rng.randrange(0, 40), rng.choice([0, 1, 2, 3, 7, 16, 33, 60])
            y = rng.random()
            if y < 0.5:
                self.emit("memset(B + %d, %s, %d);" % (x, rng.choice(["0", "'x'", "-1", "0x1234", "255", "V[1]"]), n)); self.st("memset")
            else:
                self.emit("memcpy(B + %d, %s, %d);" % (x, rng.choice(["B + 100", "C", "C + 7"]), n)); self.st("memcpy")
            self.emit("Sum(B, 200);")
            if rng.random() < 0.15:
                x, n = rng.randrange(0, 400), rng.choice([255, 256, 300, 512, 700])
                self.emit(("memset(L + %d, V[1], %d); Sum(L, 1900);" if rng.random() < 0.5 else "memcpy(L + 750 + %d, L, %d); Sum(L, 1900);") % (x, n))
        elif k == 13:
            c = rng.choice([10, 13, 9, 0, 26, 255, 128, 37, rng.randrange(256)])
            self.emit("putchar(%d);" % c); self.st("putchar")
        elif k == 14:
            self.emit("puts(%s);" % (lit(self.text()) if rng.random() < 0.6 else "S[%d]" % rng.randrange(NS))); self.st("puts")
        elif k == 15:
            self.emit("assert(%s);" % rng.choice(["1", "V[0] == V[0]", "-1", "2", "256", "!0"])); self.st("assert")
        elif k == 16:
            self.emit(rng.choice(["clock();", "V[2] = clock() & 0; printf(\"%d\\n\", V[2]);"])); self.st("clock")
        elif k < 19: self.file()
        else:
            e, v = self.num()
            # repeated calls keep the stack level
            self.emit("for (I = 0; I < %d; ++I) { sprintf(S[0], \"%%d\", I + %s); printf(\"%%s,\", S[0]); }" % (rng.randrange(1, 9), self.cnum(rng.randrange(-100, 100)))); self.len[0] = 6
    def file(self):
        rng = self.rng
        y = rng.random()
        wr = rng.choice(["O_WRONLY | O_CREAT | O_TRUNC | O_BINARY", "O_CREAT | O_BINARY | O_TRUNC | O_WRONLY"])
        rd = rng.choice(["O_RDONLY", "O_RDONLY | O_BINARY", "O_BINARY | O_RDONLY"])
        if y < 0.35 or not self.files:
            n = rng.choice(["A", "B.DAT", "out.txt", "f%d" % rng.randrange(3)])
            self.emit("H = open(%s, %s, 0600);" % (lit(n.encode()), wr))
            self.emit('printf("create %d\\n", H < 0);')
            tot = 0
            for _ in range(rng.randrange(0, 4)):
                if rng.random() < 0.25:
                    l = rng.choice([255, 256, 257, 300, 511, 512, 1000, 1500]); tot += l
                    self.emit("for (I = 0; I < 1500; I += %d) L[I] = (char)(I + %d);" % (rng.randrange(1, 90), rng.randrange(99)))
                    self.emit('printf("%%d\\n", write(H, L, %d));' % l)
                elif rng.random() < 0.5:
                    t = self.text(); self.emit('printf("%%d\\n", write(H, %s, %d));' % (lit(t), len(t))); tot += len(t)
                else:
                    l = rng.choice([1, 5, 64, 199, 200]); self.emit('printf("%%d\\n", write(H, B, %d));' % l); tot += l
            self.emit('printf("close %d\\n", close(H));')
            self.files[n] = tot; self.st("file written")
        elif y < 0.8:
            n = rng.choice(sorted(self.files))
            self.emit("H = open(%s, %s%s);" % (lit(n.encode()), rd, rng.choice(["", ", 0"])))
            self.emit('printf("open %d\\n", H < 0);')
            for _ in range(rng.randrange(1, 5)):
                if rng.random() < 0.25:
                    l = rng.choice([255, 256, 257, 300, 512, 1000, 1500])
                    self.emit('memset(L, 0, 1500); V[3] = read(H, L, %d); printf("%%d\\n", V[3]); Sum(L, 1900);' % l)
                    continue
                l = rng.choice([0, 1, 3, 10, 64, 150, 200])
                self.emit('memset(B, 0, 200); V[3] = read(H, B, %d); printf("%%d\\n", V[3]); Sum(B, 200);' % l)
            if rng.random() < 0.3: self.emit('printf("w %d\\n", write(H, B, 3));')   # not open for writing
            self.emit('printf("close %d\\n", close(H));'); self.st("file read")
            if rng.random() < 0.3: self.emit('printf("again %d %d %d\\n", close(H) != 0, read(H, B, 5), write(H, B, 5));'); self.st("closed handle")
        elif y < 0.9:
            self.emit('printf("none %%d\\n", open(%s, %s));' % (lit(rng.choice([b"none", b"no.such", b"x" * 60])), rd)); self.st("open fails")
        else:
            self.emit('printf("bad %%d %%d %%d\\n", read(%d, B, 5), write(%d, B, 5), close(%d) != 0);' % ((rng.choice([20, 30, 77]),) * 3)); self.st("bad handle")
    def program(self, n):
        rng = self.rng
        for i in range(NS): self.emit("S[%d][0] = 0;" % i)
        if rng.random() < 0.5: self.emit("Sum(Z, 300); printf(\"%d %d\\n\", ZI, ZP == 0);")
        self.emit("Args(argc, argv);")
        fns = []
        for _ in range(n):
            self.emit("{")           # scc keeps the types of at most 32 string literals per block
            self.step()
            self.emit("}")
            if rng.random() < 0.08 and len(self.out) > 10:
                fns.append(self.out); self.out = []
        end = rng.random()
        code = rng.choice([0, 1, 2, 3, 42, 127, 128, 255, 256, 511, -1, rng.randrange(256)])
        if end < 0.35: last = "    return %s;\n" % code
        elif end < 0.6: last = "    exit(%s);\n    return 0;\n" % code
        else: last = "    Deep(%d, %s);\n    return 7;\n" % (rng.randrange(1, 20), code)
        src = PRE
        parts = fns + [self.out]
        for i, p in enumerate(parts[:-1] if len(parts) > 1 else []):
            src += "void F%d(int argc, char** argv)\n{\n%s\n}\n\n" % (i, "\n".join(p))
        src += "int main(int argc, char** argv)\n{\n"
        for i in range(len(parts) - 1): src += "    F%d(argc, argv);\n" % i
        src += "\n".join(parts[-1]) + "\n" + last + "}\n"
        return src

PRE = """#include "lib.h"

char S[4][120];
char B[300];
char L[1900];
const char* C = "The quick brown fox jumps over the lazy dog, and then again over everything else there is to jump over.";
char Z[300];
int ZI;
char* ZP;
int V[8];
int H;
int I;

void Sum(char* p, int n)
{
    int a = 1;
    int b = 0;
    while (n--) {
        a = (a + (*p++ & 0xff)) % 251;
        b = (b + a) % 251;
    }
    printf("sum %d %d\\n", a, b);
}

void Log(const char* f, ...)
{
    va_list vl;
    char buf[256];
    va_start(vl, f);
    vsprintf(buf, f, vl);
    va_end(vl);
    printf("%s", buf);
}

void Format(char* d, const char* f, ...)
{
    va_list vl;
    va_start(vl, f);
    vsprintf(d, f, vl);
    va_end(vl);
}

void Args(int argc, char** argv)
{
    int i;
    printf("%d\\n", argc);
    for (i = 1; i < argc; ++i) printf("[%s]\\n", argv[i]);
    printf("%d\\n", argv[argc] == 0);
}

void Deep(int n, int code)
{
    char pad[20];
    pad[0] = (char)n;
    if (n) Deep(n - 1, code);
    printf("%d.", pad[0]);
    exit(code);
}

"""
PRE = PRE.replace('const char* C = "', 'const char C[] = "')

def build_dos(ctx, d, src, what, fs):
    with open(os.path.join(d, "p.c"), "wb") as f: f.write(src.encode("latin1"))
    for argv in ([ctx.scpp, "p.c", "p.i"], [ctx.scc, "p.i", "p.com"]):
        r = run(argv, cwd=d)
        if r.rc: raise Violation("%s: %s fails: %s" % (what, os.path.basename(argv[0]), r.brief(400)), fs)

def args(rng):
    out = []
    k = rng.random()
    if k < 0.3: return out
    big = k > 0.85
    while len(out) < (60 if big else rng.randrange(1, 6)):
        w = "".join(rng.choice("abcXYZ0189./-+*?=:%_\\\"',;<>|&") for _ in range(1 if big else rng.choice([1, 2, 3, 8, 12, 20])))
        if rng.random() < 0.1: w = w[:-1] + "\xe9"
        if sum(map(len, out)) + len(out) + len(w) + 1 > 125: break
        out.append(w)
    return out

def case(ctx, rng, d, i):
    g = G(rng)
    src = g.program(rng.choice([5, 15, 30, 45]))
    fs = {"p.c": src.encode("latin1")}
    for x in ("host", "dos"):
        shutil.rmtree(os.path.join(d, x), ignore_errors=True); os.mkdir(os.path.join(d, x))
    shutil.copy(os.path.join(vlib.REPO, "lib.h"), d)
    build_dos(ctx, d, src, "program", fs)
    r = run(["gcc", "-w", "-O0", "-fno-builtin", "-I", vlib.REPO, "-o", "p", "p.c"], cwd=d, timeout=60)
    if r.rc: raise CheckError("gcc: " + r.brief(800))
    cmd = args(rng)
    raw = [w.encode("latin1") for w in cmd]
    draw = raw
    if raw and rng.random() < 0.5:      # the command line as typed: blanks and tabs
        gap = lambda: rng.choice(["", " ", "\t", "  ", " \t", "\t "]).encode()
        line = gap()
        for w in raw: line += w + (gap() or b" ")
        if rng.random() < 0.5: line = line.rstrip()
        if len(line) <= 125: draw = [line]
    fs["args.txt"] = repr((cmd, draw))
    a = run([os.path.join(d, "p")] + raw, cwd=os.path.join(d, "host"))
    b, j = em86(ctx, os.path.join(d, "p.com"), os.path.join(d, "dos"), draw, map=os.path.join(d, "p.map"), seed=rng.randrange(1000))
    if j["violations"]: raise Violation("monitor: %s" % j["violations"][:3], fs)
    if j["ended"] != "exit": raise Violation("the DOS program ended with %s" % j["ended"], fs)
    out = b.out.replace(b"\r\n", b"\n")
    if a.out != out:
        k = next((i for i in range(min(len(a.out), len(out))) if a.out[i] != out[i]), min(len(a.out), len(out)))
        raise Violation("output under DOS %r, on the host %r (at %d)" % (out[max(0, k - 40):k + 40], a.out[max(0, k - 40):k + 40], k), fs)
    if a.rc != j["exit"]: raise Violation("status %d under DOS, %d on the host" % (j["exit"], a.rc), fs)
    t = []
    for x in ("host", "dos"):
        p = os.path.join(d, x)
        t.append({n: open(os.path.join(p, n), "rb").read() for n in os.listdir(p)})
    if t[0] != t[1]: raise Violation("files differ: %s, host %s" % ({n: len(v) for n, v in t[1].items()}, {n: len(v) for n, v in t[0].items()}), fs)
    return dict(evals=sum(g.stats.values()), keys=[h(src)], add=dict({k + " uses": v for k, v in g.stats.items()}, arguments=len(cmd), files=len(t[0]), programs=1))

ONLY = """
int main(int argc, char** argv)
{
    int x;
    char c;
    int ds;
    ds = GetDS();
"""
def dosonly(ctx, rng, d, i):
    """functions without a counterpart on the host: FarPeek, FarPoke, GetDS; failing assertions; text of nested calls"""
    src = '#include "lib.h"\nchar M[200];\nint K;\n' + ONLY
    exp, mem = "", bytearray(200)
    clk = rng.choice([0, 1, 255, 256, 0x1234, 32767, rng.randrange(32768)])
    for _ in range(rng.randrange(5, 40)):
        o, v = rng.randrange(200), rng.randrange(256)
        k = rng.randrange(5)
        if k == 0:
            src += "    FarPoke(ds, &M[%d], %d);\n" % (o, v if rng.random() < 0.7 else v + 256 * rng.randrange(100)); mem[o] = v
        elif k == 1: src += "    M[%d] = (char)%d;\n" % (o, v); mem[o] = v
        elif k == 2: src += '    { printf("%%d\\n", FarPeek(ds, &M[%d])); }\n' % o; exp += "%d\n" % mem[o]
        elif k == 3: src += '    { printf("%%d\\n", M[%d] & 255); }\n' % o; exp += "%d\n" % mem[o]
        else:
            # the same byte through another segment
            s = rng.randrange(1, 12)
            src += "    FarPoke(ds - %d, &M[%d] + %d, %d);\n" % (s, o, s * 16, v); mem[o] = v
            src += '    { printf("%%d\\n", FarPeek(ds + %d, &M[%d] - %d)); }\n' % (s, o, s * 16); exp += "%d\n" % v
        if rng.random() < 0.2:
            src += '    printf("%d %d\\n", x = clock(), GetDS() == ds);\n'; exp += "%d 1\n" % clk
        if rng.random() < 0.2: src += '    { printf("%d\\n", GetDS() == ds); }\n'; exp += "1\n"
    fail = rng.random() < 0.5
    code = rng.randrange(256)
    if fail: src += "    assert(%s);\n" % rng.choice(["0", "ds == 0", "1 > 2"])
    src += "    return %d;\n}\n" % code
    fs = {"p.c": src}
    shutil.copy(os.path.join(vlib.REPO, "lib.h"), d)
    build_dos(ctx, d, src, "program", fs)
    w = os.path.join(d, "w"); shutil.rmtree(w, ignore_errors=True); os.mkdir(w)
    b, j = em86(ctx, os.path.join(d, "p.com"), w, [], map=os.path.join(d, "p.map"), seed=rng.randrange(1000), win="10000-30000", extra=["-c", str(clk)])
    if j["violations"] or j["ended"] != "exit": raise Violation("%s %s" % (j["ended"], j["violations"][:3]), fs)
    out = b.out.replace(b"\r\n", b"\n").decode("latin1")
    if not out.startswith(exp): raise Violation("output %r, expected %r" % (out[:300], exp[:300]), fs)
    if fail and (j["exit"] != 1 or "Assertion failed" not in out[len(exp):]): raise Violation("failing assertion: status %d, output %r" % (j["exit"], out[len(exp):]), fs)
    if not fail and (j["exit"] != code or out != exp): raise Violation("status %d, expected %d; %r after the expected output" % (j["exit"], code, out[len(exp):]), fs)
    return dict(evals=1, keys=[h(src)], add={"far accesses": src.count("Far"), "failed assertions": int(fail)})

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scpp"])
    c.pool(case, c.n(700, 10000), t, "programs")
    c.pool(dosonly, c.n(200, 3000), t, "dos")

if __name__ == "__main__":
    vlib.main("L01", "Each evaluation is one use of a lib.h function in a generated program, compiled by gcc with the host's C library and by scpp and scc with lib.h's own functions, the latter run on the reference 8086 with random memory and registers under all monitors: "
      "output (new lines translated), files written and exit status must agree. Far memory access, clock and failing assertions are judged against computed values. Distinct = generated program.", body,
      assumptions=["glibc for the host side", "conversions %d %+d %Nd %0Nd %x %X (with width) %c %s %%; results below 256 characters; values in 16 bits", "handle numbers are not judged"])
