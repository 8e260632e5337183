import sys, os, random, shutil, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, c09
from c09 import TOOLS
from vlib import run, Violation, h, em86

SRC = os.path.join(vlib.VERIF, "lib", "faults.c")
NAMES = {"e": "an I/O error", "d": "a full disk", "p": "a write that takes a part", "s": "reads that deliver a part"}

def fresh(d, files, unpriv=False):
    w = os.path.join(d, "w")
    if os.path.isdir(w):
        for x, _, _ in os.walk(w): os.chmod(x, 0o777)
        shutil.rmtree(w)
    os.mkdir(w)
    if unpriv: os.chmod(w, 0o777)
    for n, t in files.items():
        p = os.path.join(w, n)
        with open(p, "wb") as f: f.write(t)
        if unpriv: os.chmod(p, 0o666)
    return w

def outputs(w, outs):
    o = {}
    for x in outs:
        p = os.path.join(w, "o" + x)
        o[x] = open(p, "rb").read() if os.path.isfile(p) else None
    return o

def refused(r, what, files):
    if r.timeout or r.sanitizer() or not (r.rc == -6 or 0 < r.rc < 97):
        raise Violation("%s: %s" % (what, "reported as success" if r.rc == 0 else "the tool ends abnormally: " + r.brief(500)), files)
    if not (r.out + r.err).strip(): raise Violation(what + ": no diagnostic", files)

def source(ctx, rng, tool):
    data = rng.choice(ctx.corpus[tool])
    if tool == "scpp":
        data += b"int tail;\n" * rng.choice([0, 0, 40, 400])
        if rng.random() < 0.5:
            return {"t.c": b'#include "a.h"\n' + data + b'#include "a.h"\n', "a.h": rng.choice([b"", b"int a;\n", b"int b;\n" * 300])}
    elif rng.random() < 0.4:                       # several buffers
        pad = (b"// " if tool == "scc" else b"; ") + b"x" * 60 + b"\n"
        data = pad * rng.choice([8, 20, 100]) + data
    return {"t" + TOOLS[tool][0]: data}

def injected(ctx, rng, d, i):
    """every file operation of a run fails in turn"""
    tool = ("scc", "scpp", "sas")[i % 3]
    ext, oext, outs = TOOLS[tool]
    files = source(ctx, rng, tool)
    argv = ["t" + ext, "o" + oext]
    exe = getattr(ctx, tool + rng.choice(["_wrap", "_wrap", "_wrapsan"]))
    w = fresh(d, files)
    log = os.path.join(d, "ops")
    if os.path.exists(log): os.unlink(log)
    r = run([exe] + argv, cwd=w, env=dict(vlib.ENV, FAULTLOG=log))
    if r.rc: return dict(evals=1, keys=[])
    good = outputs(w, outs)
    if None in good.values(): raise Violation("%s succeeds without writing all its files" % tool, files)
    ops = open(log).read() if os.path.exists(log) else ""
    n, hard, keys = 0, 0, []
    at = list(range(1, len(ops) + 1))
    if len(at) > 14: at = sorted(set(at[:5] + rng.sample(at, 6) + at[-4:]))
    for k in at:
        for mode in "epd" if ops[k - 1] == "w" else "ed" if ops[k - 1] == "O" else "e" + "s" * (k <= 4):
            what = "%s, operation %d (%s): %s" % (tool, k, {"o": "opening for reading", "O": "opening for writing", "r": "reading", "w": "writing"}[ops[k - 1]], NAMES[mode])
            w = fresh(d, files)
            r = run([exe] + argv, cwd=w, env=dict(vlib.ENV, FAULT="%d:%s:%d" % (k, mode, rng.randrange(1, 1 << 30))))
            n += 1
            keys.append(h(tool, ops[:k], mode, len(ops)))
            f = dict(files, ops=ops)
            if mode == "s":
                if r.rc or outputs(w, outs) != good: raise Violation(what + ": changes the result: " + r.brief(300), f)
            elif mode == "p":                      # (going on with the rest is as good as giving up)
                if r.rc == 0:
                    if outputs(w, outs) != good: raise Violation(what + ": reported as success", f)
                else: refused(r, what, f)
            else: refused(r, what, f); hard += 1
    return dict(evals=n, keys=keys, add={"failing_operations_" + tool: hard}, max={"operations_" + tool: len(ops)})

def kernel(ctx, rng, d, i):
    """what the operating system refuses"""
    tool = ("scc", "scpp", "sas")[i % 3]
    ext, oext, outs = TOOLS[tool]
    files = source(ctx, rng, tool)
    exe = getattr(ctx, tool)
    w = fresh(d, files, True)
    r = run([exe, "t" + ext, "o" + oext], cwd=w, unpriv=True)
    if r.rc: return dict(evals=1, keys=[])
    good = outputs(w, outs)
    kinds = ["missing", "directory", "unreadable", "nodir", "isdir", "readonly", "full", "limit", "limit", "limit", "enough"]
    if tool == "scc": kinds += ["fullmap", "isdirmap"]
    if "a.h" in files: kinds += ["missing.h", "directory.h", "unreadable.h"]
    n, keys = 0, []
    for kind in kinds:
        w = fresh(d, files, True)
        p = os.path.join(w, "a.h" if kind.endswith(".h") else "t" + ext)
        o = os.path.join(w, "o" + (".map" if kind.endswith("map") else oext))
        out, limit = "o" + oext, None
        k = kind.replace(".h", "").replace("map", "")
        if k == "missing": os.unlink(p)
        elif k == "directory": os.unlink(p); os.mkdir(p); os.chmod(p, 0o777)
        elif k == "unreadable": os.chmod(p, 0)
        elif k == "nodir": out = "no/o" + oext
        elif k == "isdir": os.mkdir(o)
        elif k == "readonly":
            open(o, "w").close(); os.chmod(o, 0o444)
        elif k == "full":
            if not good[o[len(os.path.join(w, "o")):]]: continue
            os.symlink("/dev/full", o)
        elif k == "limit":
            m = max(len(x) for x in good.values())
            if not m: continue
            limit = rng.choice([0, m - 1, rng.randrange(m)])
        elif k == "enough": limit = max(len(x) for x in good.values()) + rng.choice([0, 0, 100])
        what = "%s, %s" % (tool, kind + (" %d" % limit if limit is not None else ""))
        r = run([exe, "t" + ext, out], cwd=w, unpriv=True, fsize=limit)
        n += 1
        keys.append(h(tool, kind, h(files)))
        if k == "enough":
            if r.rc or outputs(w, outs) != good: raise Violation(what + ": the files fit, but: " + r.brief(300), files)
        else: refused(r, what, files)
    return dict(evals=n, keys=keys, add={"refused_by_the_system_" + tool: n})

def dos(ctx, rng, d, i):
    """the DOS builds when DOS calls fail"""
    tool = ("scc", "scpp", "sas")[i % 3]
    ext, oext, outs = TOOLS[tool]
    files = source(ctx, rng, tool)
    argv = ["t" + ext, "o" + oext]
    com, m = getattr(ctx, tool + "_com"), getattr(ctx, tool + "_map")
    w = fresh(d, files)
    r, j = em86(ctx, com, w, argv, map=m, steps=200000000, seed=i)
    if j["ended"] != "exit" or j["exit"] or j["violations"]: return dict(evals=1, keys=[])
    good = outputs(w, outs)
    n, keys = 0, []
    ops = j["file_ops"]
    at = list(range(1, ops + 1))
    if len(at) > 9: at = sorted(set(at[:4] + rng.sample(at, 4) + at[-2:]))
    for k in at:
        for mode in "ed":
            w = fresh(d, files)
            r, j = em86(ctx, com, w, argv, map=m, steps=200000000, seed=i, extra=["-F", "%d:%s" % (k, mode)])
            n += 1
            keys.append(h(tool, k, ops, mode))
            what = "%s.com, file operation %d of %d: %s" % (tool, k, ops, NAMES[mode])
            if j["violations"]: raise Violation("%s: %s" % (what, j["violations"][:3]), files)
            if j["ended"] != "exit" or j["exit"] not in (0, 1): raise Violation("%s: ended with %s/%s" % (what, j["ended"], j["exit"]), files)
            if j["exit"] == 0:
                if mode == "e" or outputs(w, outs) != good: raise Violation(what + ": reported as success", files)
            elif not r.out.strip(): raise Violation(what + ": no diagnostic", files)
    return dict(evals=n, keys=keys, add={"failing_DOS_operations_" + tool: n})

COPY = """#include "lib.h"
char buf[%d];
int main(void)
{
    int n;
    const int i = open("A", O_RDONLY | O_BINARY);
    if (i < 0) return 11;
    const int o = open("B", O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, 0600);
    if (o < 0) return 12;
    while ((n = read(i, buf, %d)) != 0) {
        if (n < 0) return 13;
        const int m = write(o, buf, n);
        if (m < 0) return 14;
        if (m != n) return 15;
    }
    close(i);
    close(o);
    return 0;
}
"""

def simulated(ctx, rng, d, i):
    """a program that copies a file: sim86, sim86.com and the program itself on DOS hand every failure on"""
    size = rng.choice([1, 7, 64, 512, 700])
    src = (COPY % (size, size)).encode()
    w = fresh(d, {"t.c": src})
    shutil.copy(os.path.join(vlib.REPO, "lib.h"), w)
    r = run([ctx.scpp, "t.c", "t.i"], cwd=w)
    if not r.rc: r = run([ctx.scc, "t.i", "t.com"], cwd=w)
    if r.rc: raise Violation("the copying program does not compile: " + r.brief(), {"t.c": src})
    files = {"t.com": open(os.path.join(w, "t.com"), "rb").read(), "A": rng.randbytes(rng.choice([1, size, size * 2, size * 3 - 1, size * 5 + 1]))}
    codes = {"o": (11,), "O": (12,), "r": (13,), "w": (14, 15)}
    log = os.path.join(d, "ops")
    if os.path.exists(log): os.unlink(log)
    w = fresh(d, files)
    r = run([ctx.sim86_wrap, "t.com"], cwd=w, env=dict(vlib.ENV, FAULTLOG=log))
    if r.rc or open(os.path.join(w, "B"), "rb").read() != files["A"]: raise Violation("copying under sim86: " + r.brief(), files)
    ops = open(log).read()
    n, keys = 0, []
    body = ops[2:]                                  # opening and reading t.com
    for k in range(1, len(ops) + 1):
        for mode in "epd" if ops[k - 1] == "w" else "ed" if ops[k - 1] == "O" else "e" + "s" * (2 < k < 6):
            w = fresh(d, files)
            r = run([rng.choice([ctx.sim86_wrap, ctx.sim86_wrapsan])] + rng.choice([[], [], ["-p"]]) + ["t.com"], cwd=w, env=dict(vlib.ENV, FAULT="%d:%s:%d" % (k, mode, rng.randrange(1, 1 << 30))))
            n += 1
            keys.append(h("sim86", ops[:k], mode))
            what = "sim86, operation %d (%s): %s" % (k, ops[k - 1], NAMES[mode])
            want = (0,) if mode == "s" else (1,) if k <= 2 else (0, 15) if mode == "p" else codes[ops[k - 1]]
            if r.sanitizer() or r.rc not in want: raise Violation("%s: the program should end with %s: %s" % (what, want, r.brief(300)), files)
            if r.rc == 0 and open(os.path.join(w, "B"), "rb").read() != files["A"]: raise Violation(what + ": the copy is wrong", files)
            if k <= 2 and not (r.out + r.err).strip(): raise Violation(what + ": no diagnostic", files)
    # without lib.h: the carry flag alone tells
    for ah, tail, want in ((0x3c, b"", 7), (0x3d, b"", 7), (0x3f, b"", 7), (0x40, b"", 7)):
        raw = (b"" if ah < 0x3f else b"\xb8\x00\x3c\x31\xc9\xba\x40\x01\xcd\x21\x89\xc3\x72\x30" if ah == 0x40 else b"\xb8\x00\x3d\xba\x40\x01\xcd\x21\x89\xc3\x72\x30") \
            + b"\xb8\x00" + bytes([ah]) + b"\x31\xc9" + (b"\xb9\x05\x00\x29\xd2" if ah > 0x3d else b"") + b"\xba\x40\x01\xcd\x21\xb8\x07\x4c\x72\x03\xb8\x01\x4c\xcd\x21"
        f2 = {"t.com": raw.ljust(0x40, b"\x90") + b"A\0", "A": b"twenty characters..."}
        k = 3 if ah < 0x3f else 4
        w = fresh(d, f2)
        r = run([rng.choice([ctx.sim86_wrap, ctx.sim86_wrapsan]), "t.com"], cwd=w, env=dict(vlib.ENV, FAULT="%d:e:1" % k))
        n += 1
        if r.rc != want: raise Violation("sim86: AH=%02X fails on the host, but the carry flag says otherwise: %s" % (ah, r.brief(300)), f2)
        r, j = em86(ctx, ctx.sim86_com, w, ["t.com"], steps=50000000, seed=i + 1, win="10000-FFFFF", extra=["-F", "%d:e" % k])
        n += 1
        if j["violations"] or j["exit"] != want: raise Violation("sim86.com: AH=%02X fails, but the carry flag says otherwise: %s/%s %s" % (ah, j["ended"], j["exit"], j["violations"][:3]), f2)
    for com, off in (("t.com", 0), (ctx.sim86_com, 2)):
        for k in range(1, len(body) + off + 1):
            for mode in "ed":
                op = ops[k + 1 - off]
                if off == 2 and k <= 2 and mode == "d": continue
                w = fresh(d, files)
                r, j = em86(ctx, com, w, ["t.com"] if off else [], steps=50000000, seed=i + 1, win="10000-FFFFF" if off else None, extra=["-F", "%d:%s" % (k, mode)])
                n += 1
                keys.append(h(com, ops[:k], mode))
                want = (1,) if off == 2 and k <= 2 else codes[op] if mode == "e" or op in "wO" else (0,)
                if mode == "d" and op == "w" and off == 0: want = (15,)
                if j["violations"] or j["ended"] not in ("exit", "int20") or j["exit"] not in want: raise Violation("%s on DOS, operation %d (%s): %s: should end with %s: %s/%s %s" % (os.path.basename(com), k, op, NAMES[mode], want, j["ended"], j["exit"], j["violations"][:3]), files)
    return dict(evals=n, keys=keys, add={"failures_seen_by_programs": n})

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scpp", "sas", "sim86", "scc.com", "scpp.com", "sas.com", "sim86.com"])
    for tool in ("scc", "scpp", "sas", "sim86"):
        for suffix, opt in (("_wrap", ["-O2"]), ("_wrapsan", ["-O1"] + vlib.SAN)):
            exe = os.path.join(c.dir, tool + suffix)
            r = run(["gcc"] + opt + ["-U_FORTIFY_SOURCE", "-std=c99", "-D_DEFAULT_SOURCE", "-w", "-g", "-I", vlib.REPO, "-Wl,--wrap=open,--wrap=read,--wrap=write", "-o", exe, os.path.join(vlib.REPO, tool + ".c"), SRC], timeout=120)
            if r.rc: raise vlib.CheckError("cannot build %s: %s" % (tool, r.brief()))
            setattr(t, tool + suffix, exe)
    c09.corpora(t)
    c.pool(injected, c.n(150, 6000), t, "inject")
    c.pool(kernel, c.n(90, 4000), t, "kernel")
    c.pool(dos, c.n(60, 3000), t, "dos")
    c.pool(simulated, c.n(16, 300), t, "sim")

if __name__ == "__main__":
    vlib.main("F01", "Each evaluation is one run in which one file operation fails: injected into the tool's own calls (error, full disk, partial write, partial reads; plain and ASan/UBSan builds), by the operating system (missing, unreadable, directory, read-only, /dev/full, file size limit), or as a DOS error in the DOS builds. "
      "Hard failures must give a failure status and a diagnostic; status 0 must mean complete, identical output; partial reads change nothing; sim86 hands failures on to the program. Distinct = tool, operation history, kind.", body)
