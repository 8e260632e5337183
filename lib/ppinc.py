"""Generator of include trees with __LINE__, __FILE__, #error and missing files."""
class Tree:
    def __init__(self, r):
        self.r = r
        self.files = {}
        self.n = 0
        self.guards = 0
        self.hdrs = 0
        self.macros = []

    def pad(self):
        """white space of any length that moves what follows across buffer boundaries"""
        r = self.r
        k = r.random()
        if k < 0.5: return []
        n = r.choice([r.randrange(1, 80), r.randrange(300, 560), 512 - r.randrange(1, 12)])
        if k < 0.65: return ["/*" + "x" * n + "*/"]
        if k < 0.75: return ["//" + "y" * n]
        if k < 0.85: return ["/*"] + ["z" * 30] * (n // 32) + ["*/"]
        return [""] * min(n, 40) if k < 0.93 else [" " * n]

    def mark(self):
        r = self.r
        self.n += 1
        m = "zq_%d" % self.n
        k = r.randrange(14)
        if k < 4: return ["%s __LINE__ __FILE__" % m]
        if k == 4: return ["%s /* a" % m, "b */ __LINE__"]
        if k == 5: return ["%s \\" % m, " \\", "c", "__LINE__"]
        if k == 6: return ["%s WHERE" % m]
        if k == 7: return ["%s AT(__LINE__)" % m] if r.random() < 0.5 else ["%s AT( x)" % m]
        if k == 8: return ["%s FN" % m, "", "// c", "__LINE__"]
        if k == 9: return ["%s TWO(a" % m, "", "b)", "__LINE__"]
        if k == 10: return ['%s "__LINE__" \'a\' __FILE__' % m]
        if k == 11: return ["#if __LINE__ > 20", m + " big", "#else", m + " small __LINE__", "#endif"]
        if k == 12: return ["%s //\\" % m if False else "%s // x" % m, "__LINE__"]
        if self.macros: return ["%s %s __LINE__" % (m, r.choice(self.macros))]
        return ["%s __FILE__:__LINE__" % m]

    def include(self, depth):
        r = self.r
        if depth >= 2 or len(self.files) > 6: return []
        reuse = [f for f, d in self.files.items() if d[0] > depth and d[2]]
        if reuse and r.random() < 0.25: name = r.choice(reuse)
        else:
            name = r.choice(["a%d.h", "inc%d", "B_%d.H", "file-%d.inc", "h%d.x.h"]) % len(self.files)
            self.files[name] = [depth + 1, None, False]
            self.make(name, depth + 1)
        k = r.random()
        tail = r.choice(["", "", "", " ", " // c", " /* c */"])
        if k < 0.65: return ['#include "%s"%s' % (name, tail)]
        if k < 0.75: return ['#  include/**/"%s"%s' % (name, tail)]
        if k < 0.85 and self.hdrs < 3:
            self.hdrs += 1
            return ['#define HDR%d "%s"' % (self.hdrs, name), "#include HDR%d" % self.hdrs + tail, "#undef HDR%d" % self.hdrs]
        if k < 0.93: return ['#if 1', ' # include \\', '"%s"' % name, '#endif']
        return ['#include "%s"' % name]

    def skipped(self):
        r = self.r
        return [r.choice(["#if 0", "#ifdef NOT_THERE", "#ifndef WHERE"])] + \
            r.sample(['#include "missing.h"', "#include <missing>", "#error not here", "#include", "x __LINE__", "/* \n */", "#if 0", "q"], r.choice([1, 2, 3])) 

    def lines(self, depth, n):
        r = self.r
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.45: out += self.mark()
            elif k < 0.6: out += self.include(depth)
            elif k < 0.75: out += self.pad()
            elif k < 0.85:
                s = self.skipped()
                out += s + ["#endif"] * sum(1 for l in s if l.startswith("#if"))
            elif k < 0.93 and len(self.macros) < 4:
                nm = "M%d" % len(self.macros)
                self.macros.append(nm)
                out.append("#define %s %s" % (nm, r.choice(["1", "__LINE__", "__FILE__ __LINE__", "x y", ""])))
            else: out += self.mark()
        return out

    def make(self, name, depth):
        r = self.r
        k = r.random()
        guard = r.random() < 0.4 and self.guards < 4
        if k < 0.07: l = []
        elif k < 0.12: l = ["// only a comment"]
        else: l = self.lines(depth, r.choice([1, 2, 4, 7]))
        if depth == 2 and r.random() < 0.3: l += self.mark()
        if guard:
            g = "G_%d" % self.guards
            self.guards += 1
            l = self.pad() + ["#ifndef " + g, "#define " + g] + l + ["#endif"]
        end = r.choice(["\n", "\n", "\n", "", "\n\n\n", "\n// end", "\n/* end */"])
        eol = r.choice(["\n", "\n", "\r\n"])
        text = "\n".join(l) + end
        if not l: text = r.choice(["", "\n", " "])
        if text.endswith("\\"): text += "\n"
        self.files[name][1] = text.replace("\n", eol)
        self.files[name][2] = True

def program(r):
    t = Tree(r)
    t.files["t.c"] = [0, None, False]
    body = ["#define WHERE __FILE__:__LINE__", "#define AT(x) (x) __LINE__", "#define FN() no", "#define TWO(x) [x]"] + t.lines(0, r.choice([5, 8, 12]))
    if not any("include" in l for l in body): body += t.include(0)
    body += t.mark()
    text = "\n".join(body) + r.choice(["\n", "\n", ""])
    t.files["t.c"][1] = text.replace("\n", r.choice(["\n", "\n", "\r\n"]))
    return {k: v[1] for k, v in t.files.items()}, t.n

def failing(r):
    """(files, what the diagnostic must contain, reason): the run must fail"""
    t = Tree(r)
    t.files["t.c"] = [0, None, False]
    head = ["#define WHERE __FILE__:__LINE__", "#define AT(x) (x) __LINE__", "#define FN() no", "#define TWO(x) [x]"] + t.lines(0, r.choice([0, 1, 3, 5]))
    k = r.randrange(5)
    deep = r.choice([0, 0, 1, 2] if k != 2 else [0, 1])
    names = ["t.c", "e1.h", "e2.h"][:deep + 1]
    pre = [head] + [t.mark() + t.pad() for _ in range(deep)]
    if k < 2:
        bad, want = [r.choice(["#error", "#error stop here", " # error don't", "#error \"x\""])], None
        why = "#error"
    elif k == 2: bad, want, why = [r.choice(['#include "nofile.h"', "#include <nofile.h>", '#define Q "nofile.h"\n#include Q'])], ["nofile.h"], "missing include file"
    elif k == 3: bad, want, why = ["#if 1", "x"], [], "unterminated group"
    else: bad, want, why = ["#ifdef NOT", "x", "#else"], [], "unterminated group"
    cond = r.random() < 0.4 and k < 3
    files = {}
    for i, nm in enumerate(names):
        l = list(pre[i])
        if i + 1 < len(names): l.append('#include "%s"' % names[i + 1])
        else:
            if cond: l += ["#ifndef NOT", "y"]
            if want is None: want = [nm, str(sum(s.count("\n") + 1 for s in l) + 1)]
            l += bad
            if cond: l += ["#endif"]
        l += ["more"]
        files[nm] = "\n".join(l) + "\n"
    for f, v in t.files.items():
        if v[1] is not None: files[f] = v[1]
    return files, want, why
