import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sasgen, s01
from vlib import run, Violation, h
from sasgen import L, Text, inst, walk, CC, ALU, R8, R16, SREG

GLOBALS = ["Start", "start", "START", "Loop", "loop", "x", "X", "y$", "_end", "a.b", "data", "buf", "Msg", "$t", "ax_", "Jmp1", "db1", "es2", "q", "Q"]
LOCALS = [".a", ".A", ".l", ".loop", ".x1", ".done", ".$"]

class Prog:
    """a program of global scopes; labels everywhere, references in both directions"""
    def __init__(s, r, scopes, per, data=True, reserve=True):
        s.r, s.tx = r, Text(r)
        s.items = []              # ("i", inst, scope) ("d", spec, scope) ("l", key, name) ("r", n)
        s.org = r.choice([0, 0x100, 0x100, 0x100, 0x7f80, 0x1234, 0xc000])
        g = list(GLOBALS) + ["G%d" % k for k in range(scopes)]
        r.shuffle(g)
        s.globals = g[:scopes]
        s.bss = ["b%d" % k for k in range(r.randrange(0, 5))] if reserve else []
        s.all = s.globals + s.bss
        plan = []
        if r.random() < 0.3: plan.append((None, s.locals(), per))       # before the first global label
        for n in s.globals: plan.append((n, s.locals(), r.randrange(per + 1)))
        for k, (n, locs, count) in enumerate(plan):
            if n: s.items.append(("l", n, n))
            slots = [("item",)] * max(count, 1)
            for l in locs: slots.insert(r.randrange(len(slots) + 1), ("l", (k, l), l))
            for x in slots:
                if x[0] == "l": s.items.append(x)
                else: s.items.append(s.item(k, locs, data))
        if reserve and s.bss:
            for b in s.bss:
                if r.random() < 0.9: s.items.append(("l", b, b))
                else: s.items.insert(len(s.items) - (1 if s.items[-1][0] == "r" else 0), ("l", b, b))
                q = r.randrange(1, 300)
                s.items.append(("r", q, r.choice(["resb", "resw"])))
        s.near()

    def locals(s): return s.r.sample(LOCALS, s.r.choice([0, 0, 1, 2, 3]))

    def ref(s, k, locs, add=False):
        r = s.r
        if locs and r.random() < 0.4:
            l = r.choice(locs)
            x = L(l, 0, (k, l))
        else:
            n = r.choice(s.all)
            x = L(n)
        if add and r.random() < 0.4: x.add = r.choice([1, -1, 2, 0x80, -0x80, r.randrange(-500, 500), 0x7fff, 0x8000])
        return x

    def item(s, k, locs, data):
        r = s.r
        q = r.random()
        ref = lambda add=False: s.ref(k, locs, add)
        m = lambda size: ("m", r.choice([None, None, None] + SREG), frozenset(r.choice([(), (), ("bx",), ("si",), ("di",), ("bp",), ("bx", "si")])), ref(True), size)
        if data and q < 0.12:
            spec = []
            for _ in range(r.randrange(1, 5)):
                spec.append((2, ref() if r.random() < 0.6 else r.randrange(65536)))
            return ("d", spec, k)
        if data and q < 0.18: return ("d", [(1, r.randrange(256)) for _ in range(r.randrange(1, 9))], k)
        if q < 0.3: return ("i", (r.choice(list(CC)), [("i", ("near", k, locs))], r.choice([None, None, "short"])), k)
        if q < 0.36: return ("i", ("jmp", [("i", ("near", k, locs))], "short"), k)
        if q < 0.45: return ("i", ("jmp", [("i", ref())], None), k)
        if q < 0.52: return ("i", ("call", [("i", ref())], None), k)
        z = r.choice([1, 2])
        R = ("r", r.choice(R8 if z == 1 else R16))
        if q < 0.58: return ("i", ("mov", [("r", r.choice(R16)), ("i", ref())], None), k)
        if q < 0.62: return ("i", (r.choice(ALU), [("r", r.choice(R16)), ("i", ref())], None), k)
        if q < 0.67: return ("i", ("mov", r.choice([[R, m(0)], [m(0), R]]), None), k)
        if q < 0.70: return ("i", ("mov", [m(2), ("i", ref())], None), k)
        if q < 0.73: return ("i", (r.choice(ALU + ["mov"]), [m(z), ("i", sasgen.value(r, z))], None), k)
        if q < 0.75: return ("i", (r.choice(ALU), [m(2), ("i", ref())], None), k)
        if q < 0.78: return ("i", (r.choice(ALU), r.choice([[R, m(0)], [m(0), R]]), None), k)
        if q < 0.80: return ("i", ("lea", [("r", r.choice(R16)), m(0)], None), k)
        if q < 0.82: return ("i", r.choice([("push", [m(2)], None), ("inc", [m(z)], None), ("test", [m(2), ("i", ref())], None), ("xchg", [R, m(0)], None), ("test", [("r", r.choice(R16)), ("i", ref())], None)]), k)
        while True:
            x = inst(r)
            if not (x[1] and x[1][0][0] == "i" and isinstance(x[1][0][1], tuple)): break
        return ("i", x if len(x) > 2 else x + (None,), k)

    def near(s):
        """targets for the short jumps: labels at most 100 bytes away"""
        r = s.r
        for i, it in enumerate(s.items):
            if it[0] == "d" or it[0] != "i" or not it[1][1] or not isinstance(it[1][1][0][1], tuple): continue
            tag = it[1][1][0][1]
            if tag[0] != "near": continue
            _, k, locs = tag
            ok = []
            for step in (-1, 1):
                n, j = 0, i
                while 0 <= j + step < len(s.items) and n < 100:
                    j += step
                    x = s.items[j]
                    if x[0] == "l":
                        if isinstance(x[1], str) or x[1][0] == k: ok.append(x)
                    elif x[0] == "i": n += 8
                    elif x[0] == "d": n += sum(z for z, v in x[1])
                    else: break
            mn, ops, short = it[1][:3]
            if not ok: s.items[i] = ("i", ("clc", [], None), it[2]); continue
            x = r.choice(ok)
            s.items[i] = ("i", (mn, [("i", L(x[2], 0, x[1]))], short), it[2])

    def text(s):
        r, tx = s.r, s.tx
        out = "%s %s\n" % (tx.kw("org"), tx.num(s.org)) if s.org or r.random() < 0.5 else ""
        for n, it in enumerate(s.items):
            if it[0] == "l": out += it[2] + tx.sp() + ":" + r.choice(["\n", " ", "\n"]); continue
            if it[0] == "i": t = tx.inst(it[1]) if it[1][0] != "rep" else tx.kw("rep") + " " + tx.kw(it[1][3])
            elif it[0] == "d":
                t = tx.kw("db" if it[1][0][0] == 1 else "dw") + tx.sp(True) + (tx.sp() + "," + tx.sp()).join(v.name if isinstance(v, L) else tx.num(v) for z, v in it[1])
            else:
                n2 = it[1]
                t = tx.kw(it[2]) + tx.sp(True) + tx.expr(n2)
            s.items[n] = it[:3] + (t,) if it[0] != "r" else ("r", n2 * (2 if it[2] == "resw" else 1), it[2], t)
            out += r.choice(["", "\t", "    "]) + t + r.choice(["\n", "\n", " ; c\n", "\r\n"])
        return out

def verify(d, data, p, what, files):
    labels = {}
    seen = []
    end = None
    for it, pos, dec in walk(d, data, p.org, p.items, labels):
        if it[0] == "end": end = pos; break
        seen.append((it, pos, dec))
        if it[0] == "i" and dec is None: break
    refs = 0
    kinds = set()
    def addr(key): return labels[key]
    res = sum(i[1] for i in p.items if i[0] == "r")
    bad = end is None
    for it, pos, dec in seen:
        if it[0] == "i":
            try: s01.check_inst(it[1], dec, pos, p.org, what, files, addr=addr, source=it[3])
            except KeyError: bad = True      # the walk stopped before this label
            for o in it[1][1]:
                v = o[1] if o[0] == "i" else o[3] if o[0] == "m" else None
                if isinstance(v, L):
                    refs += 1
                    dist = labels.get(v.key, 0) - (p.org + pos & 0xffff)
                    kinds.add((it[1][0], o[0], (dist > 0) - (dist < 0), min(abs(dist).bit_length(), 12), isinstance(v.key, str), dec[0]))
        else:
            q = pos
            for z, v in it[1]:
                w = labels[v.key] + v.add if isinstance(v, L) else v
                if int.from_bytes(data[q:q + z], "little") != w & (0xff if z == 1 else 0xffff):
                    raise Violation("%s: '%s' at %04X has %s where %s is meant (%04X)" % (what, it[3], p.org + pos, data[q:q + z].hex(), v, w & 0xffff), files)
                q += z
                if isinstance(v, L): refs += 1; kinds.add(("dw", isinstance(v.key, str), labels[v.key] > p.org + pos))
    if bad: raise Violation("%s: the bytes do not line up with the program" % what, files)
    if end != len(data) + res: raise Violation("%s: %d bytes emitted where the program has %d" % (what, len(data), end - res), files)
    return refs, kinds, labels

def programs(ctx, rng, d, i):
    big = i % 12 == 0
    p = Prog(rng, rng.choice([60, 120, 200]), 25) if big else Prog(rng, rng.randrange(1, 12), rng.choice([3, 8, 20, 40]))
    text = p.text()
    data, r = s01.assemble(ctx, d, ctx.sas_san if i % 8 == 1 else ctx.sas, text, "labels")
    if data is None:
        if big and b"NextFixup" in r.err + r.out or b"sizeof(OutputBuf)" in r.err + r.out: return dict(evals=0, add=dict(over_limit=1))
        raise Violation("labels: sas rejects the program: %s" % r.brief(300), {"t.asm": text})
    refs, kinds, labels = verify(d, data, p, "labels", {"t.asm": text, "t.com": data})
    return dict(evals=refs, keys=[h(k) for k in kinds], add=dict(references=refs, labels=len(labels), programs=1, bytes=len(data)), sample=text if i == 1 else None, max=dict(max_references=refs, max_labels=len(labels)))

def many(ctx, rng, d, i):
    """thousands of forward references: fix-ups are used again; the image gets near its limit"""
    out, words = "org 0x100\n", []
    pos = 0x100
    want = []
    defs = {}
    total = 0
    while len(want) < 4000:
        n = rng.randrange(1, 250)
        names = ["L%d_%d" % (total, k) for k in range(rng.randrange(1, 4))] if total < 60 else []
        g = names + [".l%d" % k for k in range(rng.randrange(1, 4))]
        total += len(names)
        top = "T" if not defs else None
        if total < 80:
            top = "T%d" % total
            out += top + ":\n"; total += 1
        refs = [rng.choice(g) for _ in range(n)]
        g = [x for x in g if x in refs]
        for k in range(0, n, 8): out += "dw " + ",".join(refs[k:k + 8]) + "\n"
        base = pos
        pos += 2 * n
        loc = {}
        for x in sorted(g, key=lambda x: x[0] != "."):
            if rng.random() < 0.5: out += "db 1\n"; words.append((pos, 1)); pos += 1
            out += x + ": "
            loc[x] = pos
        out += "\n"
        for k, x in enumerate(refs): want.append((base + 2 * k, loc[x]))
        if total >= 80:
            # locals can be used once per scope only: end of the program
            break
    files = {"t.asm": out}
    data, r = s01.assemble(ctx, d, ctx.sas_san if i % 3 == 0 else ctx.sas, out, "many references")
    if data is None: raise Violation("many references: sas rejects the program: %s" % r.brief(300), files)
    for a, v in want:
        w = int.from_bytes(data[a - 0x100:a - 0xfe], "little")
        if w != v: raise Violation("many references: word at %04X is %04X, the label is at %04X" % (a, w, v), files)
    return dict(evals=len(want), keys=[h("many", i)], add=dict(many_references=len(want)), max=dict(max_references=len(want)))

def sweep(ctx, rng, d, i):
    """jumps over every distance around the limits of a byte"""
    kind, back = [(k, b) for k in ("jz", "jmp short", "jmp", "call", "jle short") for b in (0, 1)][i]
    n = 0
    keys = []
    bad = None
    for org in (0x100, 0x7fc0, 0xff00 - 0x200):
        for fill in list(range(0, 4)) + list(range(118, 136)) + [250, 255, 256, 257, 300, 1000, 10000]:
            local = rng.random() < 0.5
            name = ".t" if local else "T"
            pad = "".join("db %s\n" % ",".join(["0x90"] * min(16, fill - k)) for k in range(0, fill, 16))
            if back: text = "org %d\nA:\n%s:\n%s%s %s\nsti\n" % (org, name, pad, kind, name)
            else: text = "org %d\nA:\n%s %s\n%s%s:\nsti\n" % (org, kind, name, pad, name)
            files = {"t.asm": text}
            data, r = s01.assemble(ctx, d, ctx.sas, text, "jump over %d bytes" % fill)
            n += 1
            keys.append(h(kind, back, fill))
            short = kind not in ("jmp", "call")
            disp = -fill - 2 if back else fill
            fits = -128 <= disp <= 127
            if data is None:
                if short and not fits: continue
                raise Violation("%s over %d bytes: sas rejects it: %s" % (kind, disp, r.brief(300)), files)
            if short and not fits and not back: bad = Violation("forward %s over %d bytes is accepted although it cannot be encoded" % (kind, disp), files, key="forward-short-jump-out-of-range")
            p = type("P", (), {})()
            p.org = org
            mn = kind.split()[0]
            x = ("i", (mn, [("i", L("T"))], "short" if "short" in kind else None), 0, kind)
            f = [("d", [(1, 0x90)] * fill, 0, "pad")] if fill else []
            st = ("i", ("sti", [], None), 0, "sti")
            p.items = [("l", "T")] + f + [x, st] if back else [x] + f + [("l", "T"), st]
            try: verify(d, data, p, "jump over %d bytes" % fill, files)
            except Violation:
                if bad and bad.files is files: continue
                raise
            if short and not fits and back: raise Violation("backward %s over %d bytes is accepted although it cannot be encoded" % (kind, disp), files)
    if bad: raise bad
    return dict(evals=n, keys=keys, add=dict(distances=n))

def refuse(ctx, rng, d, i):
    """one reference or definition that cannot be right: diagnosed"""
    n = 0
    keys = []
    for k in range(20):
        p = Prog(rng, rng.randrange(1, 5), rng.choice([2, 6, 12]), reserve=False)
        text = p.text()
        lines = text.split("\n")
        data, r = s01.assemble(ctx, d, ctx.sas, text, "labels")
        if data is None: raise Violation("labels: sas rejects the program: %s" % r.brief(300), {"t.asm": text})
        x = ERRORS[(i * 20 + k) % len(ERRORS)]
        name, t = x[0], x[1]
        g = rng.choice(p.globals)
        t = t.replace("%G", g)
        where = x[2] if len(x) > 2 else "end"
        if where == "start":       # behind ORG
            at = 1 if lines[0].lower().startswith("org") else 0
        else: at = len(lines)
        new = "\n".join(lines[:at] + [t] + lines[at:]) + "\n"
        data, r = s01.assemble(ctx, d, ctx.sas_san if k == 0 else ctx.sas, new, name)
        n += 1
        keys.append(h(name))
        if data is not None: raise Violation("%s: accepted" % name, {"t.asm": new, "t.com": data})
        if not (r.out + r.err).strip(): raise Violation("%s: refused without a diagnostic" % name, {"t.asm": new})
    return dict(evals=n, keys=keys, add=dict(refused=n))

PAD = "db " + ",".join(["0x40"] * 130) + "\n"
ERRORS = [
    ("undefined label in a call", "call nowhere"), ("undefined label in a jump", "jmp nowhere"), ("undefined label in a short jump", "jz nowhere"), ("undefined label in DW", "dw 1,nowhere"),
    ("undefined label in a displacement", "mov ax,[bx+nowhere]"), ("undefined label in an address", "mov al,[nowhere]"), ("undefined label as a value", "mov ax,nowhere"),
    ("undefined label at the start", "mov dx,nowhere", "start"),
    ("undefined local label", "Zed: jz .nowhere"), ("local label of the scope before", "Zed: .q: sti\nZod: jmp .q"), ("local label of the next scope", "Zed: jmp .q\nZod: .q: sti"),
    ("local label defined under two scopes, used in a third", "Zed: .q: sti\nZod: .q: sti\nZid: call .q"), ("local label as data of another scope", "Zed: dw .q\nZod: .q: sti"),
    ("label defined twice", "%G: sti"), ("local label defined twice", "Zed: .q: sti\n.q: cli"), ("label used and defined twice", "jmp Zed\nZed: sti\nZed: cli"), ("label defined as number and label", "Zed equ 5\nZed: sti"),
    ("label defined as label and number", "%G equ 5"), ("used label defined as number", "mov ax,Zed\nZed equ 5"), ("number defined twice", "Zed equ 5\nZed equ 6"),
    ("short jump back out of range", "Zed: " + PAD + "jz Zed"), ("short jump back out of range (jmp short)", "Zed: " + PAD + "jmp short Zed"), ("short jump back to a local label out of range", "Zed: .q:\n" + PAD + "ja .q"),
    ("short jump to a number out of range", "jz 0x6666"), ("jmp short to a number out of range", "jmp short 0x6666"),
    ("label in DB", "Zed: db Zed"), ("undefined label in DB", "db nowhere"), ("forward label as byte", "mov al,Zed\nZed:"), ("forward label as byte in an addition", "add bl,Zed\nZed:"), ("label too large for a byte", PAD + PAD + "Zed: mov al,Zed"),
    ("label too large for a byte in memory", PAD + PAD + "Zed: cmp byte [bx],Zed"), ("label too large for a byte in test", PAD + PAD + "Zed: test cl,Zed"),
    ("label in INT", "Zed: int Zed"), ("label in RESB", "Zed: resb Zed"), ("label in ORG", "Zed: org Zed"), ("label in EQU", "Zed: Zod equ Zed"),
    ("two labels in an address", "mov ax,[Zed+Zod]\nZed: Zod:"), ("label subtracted", "mov ax,[bx-Zed]\nZed:"), ("code after RESB", "resb 5\nsti"), ("data after RESW", "resw 5\ndb 1"), ("data after RESB and a label", "resb 1\nZed: dw Zed"),
    ("keyword as a label", "mov: sti"), ("register as a label", "AX: sti"), ("keyword as a number", "byte equ 1"), ("number as a label", "5: sti"),
]

def body(c):
    t = vlib.Tools(c.dir, ["sas", "sas:san"])
    c.pool(programs, c.n(900, 40000), t, "programs")
    c.pool(many, c.n(20, 400), t, "many")
    c.pool(sweep, 10, t, "sweep")
    c.pool(refuse, c.n(15, 500), t, "refuse")

if __name__ == "__main__":
    vlib.main("S02", "Each evaluation is one reference to a label in an assembled program. The addresses of the labels are taken from where ndisasm and the data sizes put the items around them; every jump, call, value, displacement and data word "
      "must have the address of the label meant (global, or local of the same scope; before or after). Jumps are swept over all distances around the limits; programs with one reference or definition that cannot be right must be refused. "
      "Distinct = kind of reference, direction, magnitude of the distance, encoding length.", body)
