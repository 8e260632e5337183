import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cprog import *
import layout, progs

BUILTIN = set("auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while va_list va_start va_end va_arg _emit _start _SBSS _EBSS".split())

def image(ctx, d, src, name, exe=None):
    with open(os.path.join(d, name + ".c"), "wb") as f: f.write(src.encode("latin1"))
    r = run([exe or ctx.scc, name + ".c", name + ".com"], cwd=d, timeout=20)
    if r.sanitizer() or r.timeout or r.rc not in (0, 1): raise Violation("scc ended abnormally: " + r.brief(), {"a.c": src})
    if r.rc: return None, r.brief(300)
    return open(os.path.join(d, name + ".com"), "rb").read(), open(os.path.join(d, name + ".map"), "rb").read()

def respell(r, toks):
    out = []
    for k, t in toks:
        if k == "str" and r.random() < 0.5: out += layout.respell_string(r, t)
        elif k == "num" and r.random() < 0.5: out.append(("num", layout.respell_num(r, layout.num_value(t))))
        elif k == "chr" and r.random() < 0.7:
            v = layout.chars(t[1:-1])[0]
            out.append(("num", layout.respell_num(r, v)) if v < 128 else (k, t))
        else: out.append((k, t))
    return out

def rename(r, toks):
    """every identifier gets another name; names differ late, early, by case or by length only"""
    m = {}
    ids = []
    for k, t in toks:
        if k == "id" and t not in BUILTIN and t not in m:
            m[t] = None
            ids.append(t)
    style = r.randrange(5)
    L = max(1, min(30, 4500 // max(1, len(ids)) - 6))
    for i, t in enumerate(ids):
        if style == 0: n = "a" * max(1, L - 4) + "%03d" % i
        elif style == 1: n = "v" + "%03d" % i + "z" * max(0, L - 6)
        elif style == 2: n = "q" + format(i, "010b").replace("0", "o").replace("1", "O")
        elif style == 3: n = "_" + "_" * (i % 7) + "x%d" % (i // 7)
        else:
            n = "".join(r.choice("abcdefgXYZ_01") for _ in range(r.choice([1, 2, 4, 9])))
            n = r.choice("ghijkGHIJK_") + n
            while n in m.values() or n in BUILTIN: n += r.choice("abcxyz_0")
        m[t] = n
    return [(k, m.get(t, t) if k == "id" else t) for k, t in toks], m, style

def case(ctx, rng, d, i):
    src, exp = progs.program(rng)
    base = image(ctx, d, src, "a")
    if base[0] is None: return None        # the program checks decide acceptance
    toks = layout.tokens(src)
    keys, n = [], 0
    for k in range(4):
        what = rng.choice(["layout", "layout", "spelling", "rename"])
        t2, m = toks, None
        if what == "spelling": t2 = respell(rng, toks)
        if what == "rename":
            t2, m, style = rename(rng, toks)
            if sum(len(v) + 1 for v in m.values()) > 4700: continue
        mode = rng.choice(layout.MODES)
        text = layout.relayout(rng, t2, mode)
        v = image(ctx, d, text, "b", ctx.scc_san if (i + k) % 4 == 0 else None)
        f = {"a.c": src, "b.c": text.encode("latin1")}
        if v[0] is None: raise Violation("the same tokens are rejected in another %s (%s): %s" % (what, mode, v[1]), f)
        wm = base[1]
        if m is not None:
            ls = [l.split(b" ", 1) for l in wm.split(b"\r\n") if l]
            wm = b"".join(a + b" " + m.get(nm.decode(), nm.decode()).encode() + b"\r\n" for a, nm in ls)
        if v[0] != base[0]: raise Violation("another %s (%s) of the same tokens gives another image (%d/%d bytes, first difference at %s)" % (
            what, mode, len(base[0]), len(v[0]), next((hex(j) for j, (x, y) in enumerate(zip(base[0], v[0])) if x != y), "end")), f)
        if v[1] != wm: raise Violation("another %s (%s) of the same tokens gives another map" % (what, mode), f)
        n += 1
        keys.append((what, mode, m and style, len(src) // 256))
    return dict(evals=n, keys=[h(k) for k in keys], sample=text[:600] if i < 3 else None, add=dict(programs=1, tokens=len(toks)))

# ---- literals: every byte value in every spelling, against the bytes the program holds
def literals(ctx, rng, d, i):
    vals = [rng.choice([rng.randrange(256), rng.randrange(16), rng.choice(b"09afAFx\\'\"/*n"), rng.choice(b"@`/:GgZz?8^_")]) for _ in range(rng.randrange(1, 60))]
    text = []
    for k, v in enumerate(vals):
        if rng.random() < 0.12 and k: text.append(rng.choice(['""', '" "', '"\n"', '"/*"*/"', '" //x\n"'][0:4]).replace('"/*"*/"', '"/* " */"'))
        opts = layout.spell_char(rng, v, vals[k + 1] if k + 1 < len(vals) else None, '"')
        text.append(rng.choice(opts))
    # what follows an escape decides which spellings are unambiguous, so check against our own reading of the final text
    body = "".join(text)
    lits = layout.tokens('"%s"' % body)
    if any(k != "str" for k, _ in lits): return None
    want = [b for _, t in lits for b in layout.chars(t[1:-1])]
    src = PRELUDE + 'const char s[] = "%s";\nvoid Main(void)\n{\n    P(sizeof s);\n    const unsigned char *q = s;\n    unsigned n;\n    for (n = 0; n < sizeof s; n++) P(q[n]);\n    q = "%s";\n    for (n = 0; n < %d; n++) P(q[n]);\n' % (body, body, len(want) + 1)
    exp = [len(want) + 1] + want + [0] + want + [0]
    for _ in range(12):
        v = rng.randrange(256)
        s = rng.choice(layout.spell_char(rng, v, ord("'"), "'"))
        src += "    P('%s');\n" % s
        exp.append(v - 256 if v > 127 else v)
        v = rng.choice([rng.randrange(65536), rng.randrange(300), 32767, 32768, 65535])
        s = rng.choice(["%d" % v, "0x%x" % v, "0X%04X" % v, "0%o" % v, "0x0000%x" % v])
        src += "    P(%s%s);\n" % (s, rng.choice(["", "+0", ",0"[:0]]))
        exp.append(v)
    src += "}\n"
    run_and_compare(ctx, d, src, "".join("%04X\n" % (x & 0xffff) for x in exp), seed=1, exe=ctx.scc_san if i % 4 == 0 else ctx.scc, what="literals: ")
    return dict(evals=len(exp), keys=[h(src[-200:])], add=dict(literal_values=len(exp)))

def repo(ctx, rng, d, i):
    """the repository's own compiler tools, re-laid out"""
    name = ["scc", "scpp", "sas", "sim86", "swar"][i % 5]
    src = open(os.path.join(os.path.dirname(getattr(ctx, name + "_com")), name + (".i" if name in ("sim86", "swar") else ".c")), encoding="latin1").read().replace("\r\n", "\n")
    if name in ("scc", "scpp", "sas"):
        # these compile without preprocessing: '#' lines are comments
        pass
    base = image(ctx, d, src, "a")
    if base[0] is None: raise Violation("scc rejects %s: %s" % (name, base[1]))
    toks = layout.tokens(src)
    mode = layout.MODES[(i // 5) % len(layout.MODES)]
    if mode == "comments": mode = "mixed"
    text = layout.relayout(rng, toks if i % 2 else respell(rng, toks), mode)
    v = image(ctx, d, text, "b")
    f = {"a.c": src.encode("latin1"), "b.c": text.encode("latin1")}
    if v[0] is None: raise Violation("%s.c is rejected in another layout (%s): %s" % (name, mode, v[1]), f)
    if v[0] != base[0] or v[1] != base[1]: raise Violation("%s.c in another layout (%s) gives another image" % (name, mode), f)
    return dict(evals=1, keys=[h(name, mode)], add=dict(repo_layouts=1, tokens=len(toks)))

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scc:san", "scpp", "scc.com", "scpp.com", "sas.com", "sim86.com", "swar.com"])
    c.pool(literals, c.n(600, 20000), t, tag="lit")
    c.pool(repo, c.n(35, 350), t, tag="repo")
    c.pool(case, c.n(3000, 100000), t)

if __name__ == "__main__":
    vlib.main("C07", "each evaluation is one re-layout, re-spelling or renaming of a program's tokens compiled to a byte-identical image and map, or one literal whose bytes the running program printed; distinct counts (transformation, layout, size class)", body)
