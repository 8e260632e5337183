import sys, os, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sasgen, s01, s02, s03, fuzz
from vlib import run, Violation, h

WORDS = [w.encode() for w in (" ".join(sasgen.KEYWORDS).split() + "MOV Ax .l .loop T0 T1 Start nowhere [ ] [bx] [bx+si] [si+bx] [es:bx] [bp] [bp-1] [T1+bx] byte[T1] , : + - | ~ << 'a' 'ab' 'abc' '' ' ; ;\n 0 1 -1 0x 0xffff 65536 99999 08 5h 0x8000 \n $ . _ ! @ # % * / ( ) { } = < \" \\ `".split(" "))]

def outcome(r, what, files):
    if r.sanitizer(): raise Violation("%s: memory error or undefined behaviour: %s" % (what, r.brief()), files)
    if r.timeout: raise Violation("%s: TIMEOUT: sas does not end" % what, files)
    if r.rc == 0:
        if (r.out + r.err).strip(): raise Violation("%s: exit status 0 but a diagnostic: %s" % (what, r.brief(300)), files)
        return 0
    if r.rc == -6 and b"Assertion" in r.err: return 1     # assert() is how sas reports most limits
    if r.rc != 1: raise Violation("%s: sas ended abnormally: %s" % (what, r.brief()), files)
    if not (r.out + r.err).strip(): raise Violation("%s: exit status 1 without a diagnostic" % what, files)
    return 1

def three(ctx, d, data, what):
    files = {"t.asm": data}
    with open(os.path.join(d, "t.asm"), "wb") as f: f.write(data)
    res = []
    for exe in (ctx.sas_san, ctx.sas, ctx.sas_pat):
        p = os.path.join(d, "t.com")
        if os.path.exists(p): os.unlink(p)
        r = run([exe, "t.asm", "t.com"], cwd=d, timeout=20)
        rc = outcome(r, what, files)
        res.append((rc, open(p, "rb").read() if rc == 0 else None))
    if not res[0] == res[1] == res[2]:
        raise Violation("%s: the outcome depends on how sas was built (undefined behaviour): %s" % (what, [(a, h(b)) for a, b in res]), files)
    return res[0]

def mutant(ctx, rng, d, i):
    keys, ok = [], 0
    base = rng.choice(ctx.corpus)
    for _ in range(10):
        data = fuzz.mutate(rng, base, WORDS, ctx.corpus)[:30000]
        rc, img = three(ctx, d, data, "mutated input")
        ok += rc == 0
        keys.append(h("mut", data))
    return dict(evals=10, keys=keys, add=dict(mutants=10, mutants_accepted=ok))

def prefix(ctx, rng, d, i):
    base = rng.choice(ctx.corpus)
    t = fuzz.toks(base)
    for _ in range(10):
        data = b"".join(t[:rng.randrange(len(t) + 1)])
        if rng.random() < 0.4: data = data[:-1]
        if rng.random() < 0.3: data = data[:len(data) // 512 * 512 + rng.choice([-1, 0, 1])]
        three(ctx, d, data, "input cut off after %d bytes" % len(data))
    return dict(evals=10, keys=[h("pre", base, i)], add=dict(prefixes=10))

w16 = lambda *v: b"".join((x & 0xffff).to_bytes(2, "little") for x in v)
def _fix(n):          # n references before the definition
    return "org 0\n" + "".join("dw L\n" for _ in range(n)) + "L:\n", w16(*[2 * n] * n)
def _fixlocal(n):     # again and again
    return "org 0\n" + "".join("G%d: dw .l\n.l:\n" % k for k in range(n)), w16(*[2 * k + 2 for k in range(n)])
def _labels(n): return "org 0\n" + "".join("L%d: cbw\n" % k for k in range(n)) + "dw " + ",".join("L%d" % k for k in range(n)) + "\n", b"\x98" * n + w16(*range(n))
def _equs(n): return "".join("E%d equ %d\n" % (k, k) for k in range(n)) + "".join("dw E%d\n" % k for k in range(n)), w16(*range(n))
def _locals(n): return "org 0\n" + "".join(".L%d: cbw\n" % k for k in range(n)) + "dw " + ",".join(".L%d" % k for k in range(n)) + "\n", b"\x98" * n + w16(*range(n))
def _names(n):        # names of 60 characters
    nm = lambda k: ("N%03d_" % k).ljust(60, "q")
    return "org 0\n" + "".join("%s:" % nm(k) + (" sti\n" if k % 2 else "\n") for k in range(n)) + "dw " + ",".join(nm(k) for k in range(n)), b"\xfb" * (n // 2) + w16(*[k // 2 for k in range(n)])
LIMITS = {   # name: (program of size n and its image, size that must work, sizes tried)
    "pending references": (_fix, 600, [1, 598, 599, 600, 601, 602, 700]),
    "references resolved": (_fixlocal, 400, [100, 300, 400]),
    "labels": (_labels, 450, list(range(450, 500, 3)) + [600, 1000]),
    "numbers": (_equs, 450, list(range(450, 500, 3)) + [600]),
    "local labels": (_locals, 450, [450, 470, 500, 600]),
    "name text": (_names, 70, range(70, 84)),
    "output": (lambda n: ("db " + ",".join(["1"] * 100) + "\n") * (n // 100) + "db 7\n" * (n % 100), 20000, None),
    "output words": (lambda n: ("dw 0x201\n" * n, b"\1\2" * n), 10000, [9999, 10000, 10001, 12000]),
    "output by code": (lambda n: ("mov [0x1234],bx\n" * n, b"\x89\x1e\x34\x12" * n), 5000, [4999, 5000, 5001]),
    "output by strings": (lambda n: (("db '%s'\n" % ("s" * 100)) * (n // 100) + "db '%s'\n" % ("t" * (n % 100)), b"s" * (n // 100 * 100) + b"t" * (n % 100)), 20000, [19900, 19999, 20000, 20001, 20050, 21000]),
    "identifier": (lambda n: ("%s: dw %s\n" % ("a" * n, "a" * n), w16(0)), 63, [1, 31, 32, 62, 63, 64, 65, 127, 128, 511, 512, 513, 1000]),
    "local identifier": (lambda n: ("A: .%s: dw .%s\n" % ("a" * n, "a" * n), w16(0)), 62, [1, 61, 62, 63, 64]),
    "string": (lambda n: ("db '%s',5\n" % ("s" * n), b"s" * n + b"\5"), 127, [0, 1, 2, 126, 127, 128, 129, 500, 512, 1000]),
    "word string": (lambda n: ("dw '%s',5\n" % ("s" * n), b"s" * n + b"\0" * (n & 1) + b"\5\0"), 127, [0, 1, 2, 126, 127, 128, 129]),
    "number": (lambda n: ("dw %s5\n" % ("0" * n), b"\5\0"), 600, [1, 4, 10, 500, 600, 2000]),
    "hex number": (lambda n: ("dw 0x%s5\n" % ("0" * n), b"\5\0"), 600, [0, 1, 4, 10, 500, 600, 2000]),
    "items": (lambda n: ("db " + ",".join(["9"] * n) + "\n", b"\x09" * n), 5000, [1, 100, 5000]),
    "comment": (lambda n: (";" + "x" * n + "\ndb 5\n", b"\5"), 10000, list(range(505, 520)) + [10000]),
    "blanks": (lambda n: (" " * n + "db" + "\n" * n + "5" + "\t" * n, b"\5"), 10000, list(range(505, 520)) + [10000]),
    "unary operators": (lambda n: ("dw " + "-" * n + "5\n", w16(5 if n % 2 == 0 else -5)) if n else ("dw 5\n", w16(5)), 0, [0]),
    "unary operators in an expression": (lambda n: ("mov ax," + "-" * n + "5\n", b"\xb8" + w16(5 if n % 2 == 0 else -5)), 200, [1, 10, 200, 1000]),
    "terms": (lambda n: ("mov ax,0" + "+1" * n + "\n", b"\xb8" + w16(n)), 2000, [1, 10, 2000, 20000]),
    "shifts": (lambda n: ("mov ax,1<<%d\n" % n, b"\xb8" + w16(1 << n)), 15, [0, 1, 14, 15, 16, 17, 31, 32, 33, 64, 65535]),
    "interrupts": (lambda n: ("int %d\n" % n, bytes([0xcd, n & 255])), 255, [0, 255, 256, 257, 65535]),
    "bytes": (lambda n: ("db %d\n" % n, bytes([n & 255])), 255, [0, 127, 128, 255, 256, 257, 300, 32767, 65407]),
    "byte values": (lambda n: ("mov bl,%d\n" % n, bytes([0xb3, n & 255])), 255, [0, 127, 128, 255, 256, 257, 300, 32767, 65407]),
    "reserved": (lambda n: ("org 0\nresb 1\n" + "".join("resb 100\n" * n)[:-1] + "\n" if n else "", b""), 600, [0, 1, 100, 600]),
}
LIMITS["output"] = (lambda n: (("db " + ",".join(["1"] * 100) + "\n") * (n // 100) + "db 7\n" * (n % 100), b"\1" * (n // 100 * 100) + b"\7" * (n % 100)), 20000, [19998, 19999, 20000, 20001, 20002, 25000, 60000])
del LIMITS["unary operators"]

def limit(ctx, rng, d, i):
    name, n = ctx.lims[i]
    make, floor, _ = LIMITS[name]
    text, want = make(n)
    what = "limit '%s' at %d" % (name, n)
    rc, img = three(ctx, d, text.encode(), what)
    if rc:
        if n <= floor: raise Violation(what + ": rejected although within the limits", {"t.asm": text})
        return dict(evals=1, keys=[what], add=dict(limit_rejected=1))
    if img != want: raise Violation(what + ": accepted, but the image is wrong", {"t.asm": text, "t.com": img})
    return dict(evals=1, keys=[what], add=dict(limit_accepted=1), max={"max_" + name: n})

# malformed: a diagnostic and failure whatever surrounds it
BAD = ["db", "db ,", "db 1,", "db 1,,2", "dw", "dw 1,", "db 1 2", "dw 'a' 'b'", "db [bx]", "db ax", "dw mov", "db 'abc", "x", "x y", "x: y", "x equ", "x equ ,", "x equ nowhere", "x equ 'abc'", "x equ ''", "x equ [1]", "equ 5", ": sti", "5", "'a'", "+", "[bx]", ",",
       "org", "org x", "org 'abc'", "resb", "resb x", "resw [1]", "cpu", "cpu 386", "cpu 80386", "cpu x", "mov", "mov ax", "mov ax,", "mov ax 5", "mov ,5", "mov ax,,5", "mov 5,ax", "mov 5,5", "mov ax,5,6", "mov ax,5 6", "mov es,5", "mov es,ds", "mov al,bx", "mov ax,bl", "mov [bx],5", "mov [bx],[si]", "mov byte 5,5", "mov byte ax,5", "mov byte [bx],bx", "mov word [bx],bl", "mov ax,byte [bx]", "mov ax,[bx", "mov ax,bx]", "mov ax,[]",
       "mov ax,[ax]", "mov ax,[cx]", "mov ax,[bl]", "mov ax,[sp]", "mov ax,[bx+bx]", "mov ax,[bx+bp]", "mov ax,[si+di]", "mov ax,[bx-si]", "mov ax,[bx*2]", "mov ax,[es]", "mov ax,[es:]", "mov ax,[es bx]", "mov ax,[ax:bx]", "mov ax,[bx+]", "mov ax,[+bx]", "mov ax,['a']", "mov ax,[bx,si]", "mov ax,(5)", "mov ax,5*2", "mov ax,5/2", "mov ax,5&2", "mov ax,5+", "mov ax,+", "mov ax,~", "mov ax,5|", "mov ax,5<<", "mov ax,5<2", "mov ax,5>>1", "mov ax,1<<16", "mov ax,1<<-1", "mov ax,'abc'", "mov ax,''",
       "add", "add ax", "add 5,ax", "add es,ax", "add ax,es", "add al,bx", "add ax,al", "add [bx],5", "add byte [bx],ax", "cmp [bx],[si]", "xor ax", "shl", "shl ax", "shl ax,2", "shl ax,0", "shl ax,257", "shl ax,bl", "shl ax,cx", "shl es,1", "shl [bx],1", "shl byte [bx],1", "sar ax,[bx]", "call", "call al", "call es", "call [bx]", "call byte [bx]", "jmp", "jmp ax", "jmp [bx]", "jmp short", "jmp short ax", "jz", "jz ax", "jz [bx]", "jz short", "call short 5", "inc", "inc 5", "inc [bx]", "inc es", "dec [5]", "dec word", "push", "push al", "push 5", "push [bx]", "push byte [bx]", "pop", "pop al", "pop 5", "pop [bx]", "pop word [bx]",
       "int", "int 256", "int -1", "int ax", "int [5]", "test", "test ax", "test ax,bx", "test [bx],5", "test es,5", "test 5,ax", "xchg", "xchg bx,cx", "xchg [bx],ax", "xchg ax,5", "xchg al,bl", "xchg es,ax", "xchg al,word [bx]", "mul", "mul 5", "mul [bx]", "mul es", "div word [bx]", "not [bx]", "neg byte [bx]", "lea", "lea ax", "lea ax,bx", "lea al,[bx]", "lea es,[bx]", "lea ax,5", "lea [bx],ax", "cbw ax", "ret 4", "rep 5", "lodsw", "movsw", "cld", "std", "loop 5", "nop", "hlt", "xlat", "in al,5", "pushf", "bits 16", "section .text", "times 5 db 0", "dd 5", "%define x", "align 2", "jcxz 5", "rol ax,1", "mov ax,0x", "mov eax,5"]
BAD = [b for b in BAD if b not in ("mov ax,0x", "shl ax,257x")]

def malformed(ctx, rng, d, i):
    b = BAD[i]
    n = 0
    for pre, post in (("", "\n"), ("org 0x100\nsti\n", "\ncli\n"), ("a: mov ax,[bx]\n", ""), (" ; c\n", " ; c\n"), ("x1 equ 5\n", "\r\n\r\n")):
        data = (pre + b + post).encode()
        rc, img = three(ctx, d, data, "malformed '%s'" % b)
        n += 1
        if rc == 0: raise Violation("malformed '%s' is accepted" % b, {"t.asm": data, "t.com": img})
    return dict(evals=n, keys=[h(b)], add=dict(malformed=n))

# a diagnostic names the line: that of the statement or of the token after it
SAID = re.compile(rb"^Line (-?\d+): ", re.M)
def lines(ctx, rng, d, i):
    keys, named = [], 0
    for _ in range(8):
        b = rng.choice(BAD)
        eol = rng.choice(["\n", "\n", "\n", "\r\n"])
        blank = lambda: "".join(rng.choice(["", "", "  ", "\t", "; a comment", ";" * rng.randrange(400, 700), "  ; 'one ; more"]) + eol for _ in range(rng.choice([0, 0, 0, 1, 2, 5])))
        good = lambda k: rng.choice(["cli", "sti ; c", "mov ax,bx", "  db 'text',5", "Q%d: cbw" % k, "Q%d:" % k, "cli sti cbw", "dw Q0,2" + eol + ",3", "mov ax," + eol + eol + "[bx]", "R%d equ %d" % (k, k), "db '; no comment'"]) + eol
        pre = "Q0:" + eol + "".join(good(k + 1) + blank() for k in range(rng.choice([0, 1, 2, 10, 40, 200, 600])))
        first = pre.count("\n") + 1
        mid = eol + blank()
        data = (pre + rng.choice(["", "  ", "S: "]) + b + rng.choice(["", " ", " ; c"]) + mid + "cli" + eol + good(999) * rng.choice([0, 3])).encode()
        last = first + mid.count("\n")
        if b.startswith("db 'abc"): last = 99999        # a later quote may end it
        files = {"t.asm": data}
        with open(os.path.join(d, "t.asm"), "wb") as f: f.write(data)
        r = run([ctx.sas_san, "t.asm", "t.com"], cwd=d, timeout=20)
        if outcome(r, "malformed '%s'" % b, files) == 0: raise Violation("malformed '%s' is accepted" % b, files)
        keys.append(h("line", data))
        if r.rc == -6: continue            # assert() names no line
        m = SAID.findall(r.out + r.err)
        if len(m) != 1: raise Violation("malformed '%s' in line %d: the diagnostic names no line: %s" % (b, first, r.brief(300)), files)
        if not first <= int(m[0]) <= last: raise Violation("malformed '%s' is in line %d, the next statement in line %d: sas says line %s" % (b, first, last, m[0].decode()), files)
        named += 1
    return dict(evals=8, keys=keys, add=dict(lines=8, lines_named=named))

HOSTILE = [b"", b"\n", b" ", b";", b"; x", b"\0", b"\r", b"\xff" * 600, b"\x80", b"a:", b"a", b".a:", b".:", b"$:", b"$", b"_", b".", b"a:a:", b"'", b"'a", b"db '\n'", b"db '\x80\xff'", b"db '\0'", b"db 'a\0", b"\0db 5", b"db 5\0", b"db 5\x1a", b"<", b"<<", b"dw 0x", b"dw 0xg", b"dw 00x5", b"dw 99999999999999999999", b"dw 0xfffffffffffffffff",
    b"mov ax,0x7fffffff+1", b"mov ax,32767+32767+32767+32767", b"mov ax,-32768-32768-32768", b"mov ax,~~~~5", b"mov ax,-------5", b"mov ax,1<<15<<15", b"mov ax,-1<<15", b"mov ax,0x8000<<1", b"x equ -32768\nmov ax,-x\nint -x", b"x equ 0xffff\ndw x\nmov ax,[x]", b"mov ax,[65535+65535+65535]", b"mov ax,[-65535]", b"mov ax,[0-65535-65535]", b"mov ax,[bx-32768-32768]", b"mov ax,[bp+0]", b"mov ax,[bp+1-1]",
    b"org 0xffff\na: jmp a", b"org 0xffff\ndw a\na:", b"org 0xfffe\nsti\na: jmp a", b"org 0x7fff\nsti\na: jmp a\ncall a", b"org 0xfff0\n" + b"sti\n" * 40 + b"a: jmp a", b"org -5\na: dw a,b\nb:", b"org 5\norg 6\na: dw a", b"sti\norg 0x100\na: jmp a", b"resb -5\na:", b"resw 40000", b"resb 65535\nresb 65535\nresb 65535", b"resb 0\nsti", b"resb 5\nresb 5\na: b: resw 5", b"cpu 8086", b"cpu 8086 cpu 8086",
    b"mov ax,[es:es:bx]", b"mov ax,[es:ds:bx]", b"mov ax,[bx+es:5]", b"mov ax,[a+b]", b"mov ax,[a-b]", b"mov ax,[a-5]\na:", b"mov ax,[5-a]\na:", b"a equ 5\nmov ax,[a-a]\nmov ax,[a+a+bx]", b"a equ a", b"a equ 5\na: sti", b"a: a equ 5", b"a: sti\na: cli", b"mov: sti", b"equ equ equ", b"short: sti", b"jmp short short a\na:", b"byte byte [bx]", b"inc byte byte [bx]", b"inc word [byte bx]", b"rep rep rep movsb", b"rep", b"mov\nax\n,\n[\nbx\n]\n", b"a\n:\n", b".a: jmp .a\nb: .a: jmp .a\nb:", b"jmp .a\nb: .a:", b".a equ 5\nb: mov ax,.a", b"b: .a equ 5\nc: .a equ 6\ndw .a", b".a: b: .a equ 5\nc: .a: d: .a:",
    b"dw a,a,a\na: dw a", b"jz a\n" + b"sti\n" * 300 + b"a:", b"call -1\njmp -1\njz -1", b"jmp 0\njmp 0xffff\njmp short 0", b"int 0x21int 5", b"5a: sti", b"db 5db 6", b"mov ax,5mov bx,6", b"db 0x5g", b"db'a''b'", b"db '''", b"mov ax,''''", b"dw ab'c'", b"AX equ 5", b"Mov aX,bX", b"sti;cli", b"sti ; 'unterminated", b"db 1 ;, 2\n,3", b"\xef\xbb\xbfsti", b"st\x80i", b"a\xe9: sti"]

def hostile(ctx, rng, d, i):
    x = HOSTILE[i]
    acc = 0
    w = [x, x + b"\n", b"org 0x100\nQ: jmp Q\n" + x + b"\nsti\n", b" " * (511 - len(x) % 511) + x, b";" + b"y" * rng.randrange(480, 515) + b"\n" + x + b"\ncli", x.replace(b"\n", b"\r\n"), x + b"\0", x[:-1], x + b"\n" + x, x * 30, x.upper(), x.replace(b" ", b"\n")]
    for y in w: acc += three(ctx, d, y, "hostile input %r" % x[:60])[0] == 0
    return dict(evals=len(w), keys=[h("hostile", x)], add=dict(hostile=len(w), hostile_accepted=acc))

def invocation(ctx, d):
    for n in ("a.asm", "noext"):
        with open(os.path.join(d, n), "w") as f: f.write("sti\n")
    long = "n" * 70 + ".asm"
    longer = "n" * 200 + ".asm"
    for n in (long, longer):
        with open(os.path.join(d, n), "w") as f: f.write("sti\n")
    os.mkdir(os.path.join(d, "dir")); os.mkdir(os.path.join(d, "sub"))
    n = 0
    for exe in (ctx.sas_san, ctx.sas):
        for args, want, made in (([], 1, None), (["nosuch.asm"], 1, None), (["nosuch.asm", "o.com"], 1, None), (["a.asm", "sub/none/o.com"], 1, None), (["a.asm", "dir"], 1, None), (["", ""], 1, None), (["a.asm", ""], 1, None),
                           (["a.asm", "o.com"], 0, "o.com"), (["a.asm"], 0, "a.com"), (["noext"], 0, "noext.com"), (["./a.asm", "./sub/o.com"], 0, "sub/o.com"), ([long], 0, long[:-4] + ".com"), ([longer], None, None), ([longer, "l.com"], 0, "l.com"), (["a.asm", "m" * 240], 0, "m" * 240)):
            r = run([exe] + args, cwd=d)
            n += 1
            rc = outcome(r, "sas %s" % args, {})
            if want is not None and rc != want: raise Violation("sas %s: %s instead of %d: %s" % (args, r.rc, want, r.brief(300)))
            if made:
                p = os.path.join(d, made)
                if not os.path.exists(p) or open(p, "rb").read() != b"\xfb": raise Violation("sas %s: does not write %s" % (args, made))
                os.unlink(p)
    return n

def body(c):
    t = vlib.Tools(c.dir, ["sas", "sas:san"])
    t.sas_pat = os.path.join(c.dir, "sas_pat")
    r = run(["gcc", "-O0", "-w", "-std=c99", "-D_DEFAULT_SOURCE", "-ftrivial-auto-var-init=pattern", "-o", t.sas_pat, os.path.join(vlib.REPO, "sas.c")], timeout=120)
    if r.rc: raise vlib.CheckError("cannot build sas: " + r.brief())
    rr = random.Random("corpusS:%d" % vlib.SEED)
    t.corpus = []
    for _ in range(40): t.corpus.append(s02.Prog(rr, rr.randrange(1, 6), rr.choice([3, 8, 12])).text().encode("latin1"))
    for _ in range(40): t.corpus.append(s03.program(rr, False)[0].encode("latin1"))
    for _ in range(30):
        tx = sasgen.Text(rr)
        t.corpus.append("".join(tx.inst(x) + "\n" for x in (sasgen.inst(rr) for _ in range(25)) if x[0] != "rep" and not (x[1] and isinstance(x[1][0][1], tuple))).encode("latin1"))
    for b in ("test/sas", "test/sim86"):
        td = os.path.join(vlib.REPO, b)
        for f in sorted(os.listdir(td)):
            s = open(os.path.join(td, f), "rb").read()
            if f.endswith(".asm"): t.corpus.append(s[:8000])
    t.lims = [(n, v) for n in sorted(LIMITS) for v in LIMITS[n][2]]
    dd = os.path.join(c.dir, "inv"); os.mkdir(dd)
    c.note(dict(evals=0, keys=["inv"], add=dict(invocations=invocation(t, dd))))
    c.pool(limit, len(t.lims), t, tag="lim")
    c.pool(malformed, len(BAD), t, tag="malformed")
    c.pool(hostile, len(HOSTILE), t, tag="hostile")
    c.pool(lines, c.n(150, 6000), t, tag="lines")
    c.pool(prefix, c.n(80, 4000), t, tag="prefix")
    c.pool(mutant, c.n(1000, 60000), t, tag="mut")

if __name__ == "__main__":
    vlib.main("S04", "An evaluation is an input (mutated, cut off, hostile, malformed, or at a limit) that an ASan/UBSan build, a plain build and a build with scrambled locals all end with the same outcome, 0 and the same image or a diagnostic and failure. "
      "Inputs within the limits must be assembled to the bytes they denote, malformed ones must be refused, with a diagnostic that names the line of the statement or of the token after it.", body)
