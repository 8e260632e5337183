import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sasgen
from vlib import run, Violation, h
from sasgen import L, Text, inst, wild, norm, tree, walk

def assemble(ctx, d, exe, text, what, files=None):
    files = files or {"t.asm": text}
    with open(os.path.join(d, "t.asm"), "wb") as f: f.write(text if isinstance(text, bytes) else text.encode("latin1"))
    p = os.path.join(d, "t.com")
    if os.path.exists(p): os.unlink(p)
    r = run([exe, "t.asm", "t.com"], cwd=d, timeout=20)
    if r.sanitizer(): raise Violation("%s: memory error in sas: %s" % (what, r.brief()), files)
    if r.timeout: raise Violation("%s: TIMEOUT: sas does not end" % what, files)
    if r.rc == 0: return open(p, "rb").read(), r
    if r.rc not in (1, -6): raise Violation("%s: sas ended abnormally: %s" % (what, r.brief()), files)
    return None, r

def check_inst(src, dec, pos, org, what, files, addr=None, source=None):
    """src: instruction tree; dec: (length, ndisasm text)"""
    if dec is None: raise Violation("%s: no instruction at %04X for: %s" % (what, org + pos, source), files)
    n, t = dec
    mn, ops, short, string = tree(t)
    want = norm(src[0], src[1], addr, True)
    got = norm(mn, ops)
    if src[0] == "rep": ok = mn == "rep" and string == src[3]
    else:
        ok = string is None and want == got
        if src[0][0] == "j" and len(src) > 2 and src[2] == "short" and n != 2: ok = False
    if mn == "lea" and ops[-1][0] != "m": ok = False           # no such instruction, though ndisasm shows it
    if not ok: raise Violation("%s: '%s' was encoded as '%s' (at %04X)" % (what, source.strip(), t, (org + pos) & 0xffff), files)

def forms(ctx, rng, d, i):
    """supported instructions in every spelling: accepted, and right"""
    org = rng.choice([0, 0x100, 0x100, 0x1234, 0x7ff0, 0x9000, 0xc000])
    equs = {}
    names = ["N%d" % k for k in range(6)] + ["Foo", "foo", "FOO", "x.y", "$a", "_", "a_b$", "movx", "axe", "Al1"]
    for n in rng.sample(names, rng.randrange(0, 9)): equs[n] = sasgen.value(rng, 2)
    tx = Text(rng)
    out = "".join("%s%s%s%s%s\n" % (n, tx.sp(True), tx.kw("equ"), tx.sp(True), tx.expr(v)) for n, v in equs.items())
    out += "%s%s8086\n" % (tx.kw("cpu"), tx.sp(True)) if rng.random() < 0.3 else ""
    if org or rng.random() < 0.5: out += "%s %s\n" % (tx.kw("org"), tx.expr(org))
    tx.equs = equs
    items = []
    pos = 0
    def add(x):
        nonlocal out
        t = tx.inst(x) if x[0] != "rep" else tx.kw("rep") + " " + tx.kw(x[3])
        items.append(("i", x, t))
        out += rng.choice(["", "\t", "    "]) + t + rng.choice(["\n", "\n", "\n", " ; c\n", " \r\n", ";'\n"])
    rel = []
    while len(items) < 6:                              # jumps to numbers come first: their addresses are known
        x = inst(rng)
        if not (x[1] and x[1][0][0] == "i" and isinstance(x[1][0][1], tuple)): continue
        n = 3 if x[0] == "call" else 2
        last = x[0] == "jmp" and x[2] != "short"
        add((x[0], [("i", org + pos + n + x[1][0][1][1])], x[2] if len(x) > 2 else None))
        pos += n
        if last: break
    for _ in range(rng.randrange(20, 120)):
        x = inst(rng)
        if x[1] and x[1][0][0] == "i" and isinstance(x[1][0][1], tuple): continue
        if len(x) < 3: x = x + (None,)
        add(x)
    files = {"t.asm": out}
    data, r = assemble(ctx, d, ctx.sas_san if i % 8 == 0 else ctx.sas, out, "instructions")
    if data is None: raise Violation("instructions: sas rejects them: %s" % r.brief(300), files)
    kinds = set()
    end = None
    for it, p, dec in walk(d, data, org, items, {}):
        if it[0] == "end": end = p; break
        check_inst(it[1], dec, p, org, "instructions", dict(files, **{"t.com": data}), source=it[2])
        kinds.add(sig(it[1], dec))
    if end != len(data): raise Violation("instructions: %d bytes more than the instructions" % (len(data) - (end or 0)), dict(files, **{"t.com": data}))
    return dict(evals=len(items), keys=[h(k) for k in kinds], add=dict(instructions=len(items), bytes=len(data)), sample=out if i < 1 else None)

def sig(x, dec):
    """what was seen: mnemonic, operand shapes, encoding length"""
    def s(o):
        if o[0] == "r": return o[1]
        if o[0] == "i": return "i"
        return "m%s%s%d" % (o[1] or "", "".join(sorted(o[2])), o[4])
    return (x[0], tuple(s(o) for o in x[1]), dec[0], x[3] if len(x) > 3 else "")

def wilds(ctx, rng, d, i):
    """one instruction of any shape per file: refused, or right"""
    n = acc = 0
    keys = []
    for _ in range(25):
        x = wild(rng)
        tx = Text(rng)
        t = tx.inst(x)
        out = "org 0x100\n%s\n" % t
        data, r = assemble(ctx, d, ctx.sas, out, "any operands")
        n += 1
        if data is None:
            if not (r.out + r.err).strip(): raise Violation("any operands: refused without a diagnostic", {"t.asm": out})
            continue
        acc += 1
        for o in x[1]:
            if o[0] == "i" and x[0] in ("shl", "shr", "sar"): break
        files = {"t.asm": out, "t.com": data}
        end = None
        for it, p, dec in walk(d, data, 0x100, [("i", x, t)], {}):
            if it[0] == "end": end = p; break
            check_inst(x, dec, p, 0x100, "any operands", files, source=t)
            keys.append(h(sig(x, dec)))
        if end != len(data): raise Violation("any operands: '%s' gives more than one instruction" % t, files)
    return dict(evals=n, keys=keys, add=dict(wild=n, wild_accepted=acc))

def body(c):
    t = vlib.Tools(c.dir, ["sas", "sas:san"])
    c.pool(forms, c.n(900, 60000), t, "forms")
    c.pool(wilds, c.n(300, 20000), t, "wild")

if __name__ == "__main__":
    vlib.main("S01", "Each evaluation is one instruction assembled by sas (every eighth program by its ASan/UBSan build) and compared, operand by operand, with what ndisasm reads back from the bytes: "
      "mnemonic, registers, base and index, displacement, segment, immediate (modulo the operand size), operand size, jump target. Supported forms must be accepted; instructions of any shape must be refused or mean what they say. "
      "Distinct = mnemonic with operand shapes and encoding length.", body)
