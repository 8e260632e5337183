import sys, re, os, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, progs, ppgen, ppcond, ppinc, pplex, sasgen, s02, s03, fuzz, p05, s04, c08, c10
from vlib import run, Violation, h, em86

TOOLS = {"scc": (".c", ".com", [".com", ".map"]), "scpp": (".c", ".i", [".i"]), "sas": (".asm", ".com", [".com"])}

def message(r):
    """what a tool says, without the places in its own source and the DOS builds' list of return addresses"""
    t = (r.out + r.err).decode("latin1").replace("\r", "")
    t = re.sub(r"(\n?BP   Return address\n)?(\n?[0-9A-F]{4} [0-9A-F]{4}\n)+", "", t)
    t = re.sub(r"(In )?\S*\b\w+\.[ch]:\d+: ", "", t)
    t = re.sub(r"-?\d+", lambda m: str(int(m.group()) & 0xffff), t)      # int has 16 bits there
    return "assertion" if "Assertion" in t else " ".join(t.split())

class Differs(Violation): pass

def wide(data):
    """may #if compute a value that does not fit 16 bits? (that is where int of the host and of DOS differ)"""
    t = re.sub(rb"/\*.*?\*/|\\\r?\n", b"", data, flags=re.S)
    n = [int(x, 16) if x[:2].lower() == b"0x" else int(x) for x in re.findall(rb"0[xX][0-9a-fA-F]+|[0-9]+", t)]
    return bool(re.search(rb"#[ \t]*(el)?if", t)) and (any(x > 32767 for x in n) or b"*" in t or any(x > 1000 for x in n) and (b"+" in t or b"-" in t))

def agree(ctx, d, tool, files, name, what, steps=120000000, must=None, budget=60, style=None):
    """run the host build and the DOS build on the same files; returns (accepted, report) or None when it does not fit DOS"""
    ext, oext, outs = TOOLS[tool]
    res = []
    # how the tool is called: with or without the name of the output, blanks and tabs in the command line
    style = style or random.Random(h(files))
    argv = [name + ext, "o" + oext]
    out = "o"
    if style.random() < 0.25: argv, out = argv[:1], name
    line = argv
    if style.random() < 0.4:
        gap = lambda: style.choice(["", " ", "\t", "   ", " \t "])
        line = [gap() + (gap() or " ").join(argv) + gap()]
    for side in ("host", "dos"):
        w = os.path.join(d, side)
        shutil.rmtree(w, ignore_errors=True)
        os.mkdir(w)
        for n, t in files.items():
            with open(os.path.join(w, n), "wb") as f: f.write(t)
        if side == "host":
            r = run([getattr(ctx, tool)] + argv, cwd=w, timeout=30)
            if r.timeout or r.rc not in (0, 1, -6): raise Violation("%s: host %s ended abnormally: %s" % (what, tool, r.brief()), files)
            rc = 0 if r.rc == 0 else 1
        else:
            extra = []
            if must and tool == "scc" and res[0][0] == 0:
                # scc.c puts its output last in memory to let the stack use what the image leaves of it
                m = re.search(r"^([0-9A-F]{4}) Output$", open(ctx.scc_map).read(), re.M)
                if m: extra = ["-L", "%x" % (int(m.group(1), 16) + len(res[0][1][".com"]) + 64)]
            r, j = em86(ctx, getattr(ctx, tool + "_com"), w, line, map=getattr(ctx, tool + "_map"), steps=steps, seed=7, timeout=budget, extra=extra)
            if any(v.startswith("stack pointer") for v in j["violations"]):
                if must: raise Violation("%s: %s.com runs out of stack: %s" % (what, tool, j["violations"][:2]), files)
                return None
            if j["ended"] == "steps": raise Violation("%s: %s.com: no end after %d instructions (host: %d)" % (what, tool, steps, res[0][0]), files)
            if j["violations"]: raise Violation("%s: monitor on %s.com: %s" % (what, tool, j["violations"][:3]), files)
            if j["ended"] != "exit" or j["exit"] not in (0, 1): raise Violation("%s: %s.com ended with %s/%s" % (what, tool, j["ended"], j["exit"]), files)
            rc = j["exit"]
        o = {}
        if rc == 0:
            for x in outs:
                p = os.path.join(w, out + x)
                if not os.path.exists(p): raise Violation("%s: %s (%s) writes no %s" % (what, tool, side, x), files)
                o[x] = open(p, "rb").read()
        elif not r.out.strip() and not r.err.strip(): raise Violation("%s: %s (%s) fails without a diagnostic" % (what, tool, side), files)
        res.append((rc, o, r))
    (a, ao, ar), (b, bo, br) = res
    if a != b: raise Differs("%s: host %s %s it, %s.com %s it\n host: %s\n DOS: %s" % (what, tool, "rejects" if a else "accepts", tool, "rejects" if b else "accepts", ar.brief(200), br.brief(200)), files)
    ma, mb = message(ar), message(br)
    if ma != mb: raise Differs("%s: host and DOS %s report different things: %r / %r" % (what, tool, ma[:200], mb[:200]), files)
    for x in ao:
        if ao[x] != bo[x]:
            k = next((k for k in range(min(len(ao[x]), len(bo[x]))) if ao[x][k] != bo[x][k]), -1)
            raise Differs("%s: %s of host and DOS differ at byte %d (%d and %d bytes): %s / %s" % (what, x, k, len(ao[x]), len(bo[x]), ao[x][k:k + 12], bo[x][k:k + 12]), dict(files, **{"host" + x: ao[x], "dos" + x: bo[x]}))
    return a == 0, j, ao

def own(ctx, rng, d, i):
    """the repository's own sources: DOS tools must build the DOS tools"""
    tool, src, fname = ctx.own[i]
    data = open(src, "rb").read()
    files = {"in" + TOOLS[tool][0]: data}
    for e in ("lib.h", "inc1.h"):
        p = os.path.join(vlib.REPO, e if e == "lib.h" else "test/scpp/inc1.h")
        if tool == "scpp" and os.path.exists(p): files[e] = open(p, "rb").read()
    what = "%s.com on %s" % (tool, fname)
    ok, j, outs = agree(ctx, d, tool, files, "in", what, steps=600000000, must=True, budget=120)
    if not ok: raise Violation(what + ": rejected", files)
    if tool == "scc" and fname in ("scc.c", "scpp.c", "sas.c", "sim86.i", "swar.i"):
        t = getattr(ctx, fname.split(".")[0] + "_com")
        if outs[".com"] != open(t, "rb").read(): raise Violation(what + ": does not reproduce the image", files)
    return dict(evals=1, keys=[what], add=dict(own_sources=1, instructions=j["steps"]), max={"max_instructions": j["steps"]}, sample="%s: %d instructions, lowest SP %04X, %d calls" % (what, j["steps"], j["min_sp"], j["calls"]))

def case(ctx, rng, d, i):
    tool = ("scc", "scpp", "sas")[i % 3]
    files = {}
    if tool == "scc":
        files["t.c"] = progs.program(rng)[0].encode("latin1")
    elif tool == "scpp":
        k = rng.randrange(5)
        if k < 2: files["t.c"] = ppgen.text_of(ppgen.program(rng))[0].encode("latin1")
        elif k == 2: files["t.c"] = ppcond.program(rng)[0].encode("latin1")[:6000]
        elif k == 3: files.update((n, t.encode("latin1")) for n, t in ppinc.program(rng)[0].items())
        else: files["t.c"] = pplex.program(rng)[0].encode("latin1")[:6000]
    else:
        k = rng.randrange(3)
        if k == 0: files["t.asm"] = s02.Prog(rng, rng.randrange(1, 10), rng.choice([3, 8, 20])).text().encode("latin1")
        elif k == 1: files["t.asm"] = s03.program(rng, False)[0].encode("latin1")
        else:
            tx = sasgen.Text(rng)
            files["t.asm"] = "".join(tx.inst(x) + "\n" for x in (sasgen.inst(rng) for _ in range(40)) if x[0] != "rep" and not (x[1] and isinstance(x[1][0][1], tuple))).encode("latin1")
    r = agree(ctx, d, tool, files, "t", "generated input of " + tool)
    if r is None: return dict(evals=1, keys=[], add={"over_memory_" + tool: 1})
    return dict(evals=1, keys=[h(files)], add={"inputs_" + tool: 1, "accepted_" + tool: r[0], "instructions": r[1]["steps"]})

def mutant(ctx, rng, d, i):
    tool = ("scc", "scpp", "sas")[i % 3]
    ext = TOOLS[tool][0]
    corpus = ctx.corpus[tool]
    base = rng.choice(corpus)
    keys = []
    add = {}
    for _ in range(4):
        data = fuzz.mutate(rng, base, ctx.words[tool], corpus, rng.choice(["tok", "tok", "tok", "line", "splice", "trunc"]))[:20000]
        try: r = agree(ctx, d, tool, {"t" + ext: data}, "t", "mutated input of " + tool)
        except Differs:
            if tool != "scpp" or not wide(data): raise
            add["mutants_scpp_wide"] = add.get("mutants_scpp_wide", 0) + 1
            continue
        k = "mutants_%s_%s" % (tool, "over_memory" if r is None else "accepted" if r[0] else "rejected")
        add[k] = add.get(k, 0) + 1
        keys.append(h(data))
    return dict(evals=4, keys=keys, add=add)

# diagnostics with numbers in them
PRINTED = ["cpu %s" % n for n in ("0", "1", "9", "10", "286", "8088", "32767", "0xffff")] + ["mov ax,[si+bx+si]", "mov ax,[di+di]", "mov ax,[bx+bp]", "mov ax,[bp+bx]", "jmp short a\nresw 64\na:", "jz a\nresw 9000\nresw 9000\na:"] + ["%s [ax+%s]" % (m, r) for m in ("inc", "push") for r in ("al", "cx", "di", "es", "ds")]

def wrong_inputs():
    """wrong and odd inputs, one after the other: their diagnostics are compared"""
    l = [("sas", ("sti\nQ: mov ax,[bx]\n" + b + "\ncli\n").encode()) for b in s04.BAD + PRINTED] + [("sas", b) for b in s04.HOSTILE]
    l += [("scpp", b) for b in p05.HOSTILE] + [("scc", b) for n, b in sorted(c08.HOSTILE.items())]
    body = lambda x: (c10.DECL + "void _start(void)\n{\n    %s\n}\n" % x).encode()
    l += [("scc", body(x)) for x in c10.STMT + c10.FLAT + c10.LATE] + [("scc", (c10.DECL + x + "\nvoid _start(void) { }\n").encode()) for x in c10.TOP + c10.TOPLATE]
    l += [("scc", body(x)) for n in sorted(c10.FAMILY) for x in c10.FAMILY[n][::9]]
    # not: values beyond 16 bits, a directory as a file
    return [(t, b) for t, b in l if b"-32768-32768" not in b and b"#include ." not in b and b'"."' not in b and b'".."' not in b]

def wrong(ctx, rng, d, i):
    add, keys = {}, []
    for tool, data in ctx.wrong[i * 10:i * 10 + 10]:
        try: r = agree(ctx, d, tool, {"t" + TOOLS[tool][0]: data}, "t", "wrong input %r of %s" % (data[-60:], tool), style=random.Random(1))
        except Differs:
            if tool != "scpp" or not wide(data): raise
            r = None
        k = "wrong_%s_%s" % (tool, "unjudged" if r is None else "accepted" if r[0] else "rejected")
        add[k] = add.get(k, 0) + 1
        keys.append(h(tool, data))
    return dict(evals=len(keys), keys=keys, add=add)

def corpora(t):
    rr = random.Random("corpusC9:%d" % vlib.SEED)
    t.corpus = {"scc": [], "scpp": [], "sas": []}
    while len(t.corpus["scc"]) < 40:
        s = progs.program(rr)[0]
        if len(s) < 5000: t.corpus["scc"].append(s.encode("latin1"))
    for _ in range(25): t.corpus["scpp"].append(ppgen.text_of(ppgen.program(rr))[0].encode("latin1"))
    for _ in range(15): t.corpus["scpp"].append(ppcond.program(rr)[0].encode("latin1")[:3000])
    for _ in range(20): t.corpus["sas"].append(s02.Prog(rr, rr.randrange(1, 6), rr.choice([3, 8, 12])).text().encode("latin1"))
    for _ in range(20): t.corpus["sas"].append(s03.program(rr, False)[0].encode("latin1"))
    t.words = {"scc": c08.WORDS, "scpp": p05.WORDS, "sas": s04.WORDS}

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scpp", "sas", "scc.com", "scpp.com", "sas.com", "sim86.com", "swar.com"])
    com = os.path.dirname(t.scc_com)
    t.own = [("scc", os.path.join(com, n), n) for n in ("scc.c", "scpp.c", "sas.c", "sim86.i", "swar.i")] + [("scpp", os.path.join(com, n), n) for n in ("sim86.c", "swar.c", "scc.c", "scpp.c", "sas.c")]
    for sub, tool, ext in (("scpp", "scpp", ".in"), ("sas", "sas", ".asm"), ("sim86", "sas", ".asm")):
        td = os.path.join(vlib.REPO, "test", sub)
        t.own += [(tool, os.path.join(td, f), f) for f in sorted(os.listdir(td)) if f.endswith(ext)]
    td = os.path.join(vlib.REPO, "test", "scc")
    lib = open(os.path.join(td, "testlib.c"), "rb").read()
    for f in sorted(os.listdir(td)):
        if f.endswith(".c") and f not in ("testlib.c", "scc10.c"):
            p = os.path.join(c.dir, "own_" + f)
            with open(p, "wb") as o: o.write(lib + open(os.path.join(td, f), "rb").read())
            t.own.append(("scc", p, "test/" + f))
    t.own.append(("scc", os.path.join(td, "scc10.c"), "scc10.c"))
    corpora(t)
    c.pool(own, len(t.own), t, tag="own")
    t.wrong = wrong_inputs()
    c.pool(wrong, (len(t.wrong) + 9) // 10, t, tag="wrong")
    c.pool(case, c.n(2400, 60000), t, tag="gen")
    c.pool(mutant, c.n(900, 40000), t, tag="mut")

if __name__ == "__main__":
    vlib.main("C09", "An evaluation is one input given to a host build of scc, scpp or sas and to its .com build (compiled by scc, run on an instrumented 8086 with random initial memory and registers): same decision, byte-identical outputs, "
      "no monitor fired (stack above the data, calls balanced, no write to code, no execution of data). The repository's own sources are among the inputs: scc.com must reproduce scc.com. Inputs that do not fit the stack of the DOS build are counted and left out.", body)
