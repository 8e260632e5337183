"""Generator of conditional-directive trees and #if expressions, with an evaluator used to keep the
expressions inside what C and 16-bit arithmetic both define."""
import re
TOKRE = re.compile(r"[A-Za-z_]\w*|\d\w*|&&|\|\||[<>=!]=|[-+*/%&|^<>!?:(),]")

class Bad(Exception): pass

def expand(ts, macros, hide=()):
    """macro replacement of simple macros (no # or ##) in an #if expression"""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]; i += 1
        if t == "defined":
            if ts[i] == "(": out += ts[i - 1:i + 3]; i += 3
            else: out += ts[i - 1:i + 1]; i += 1
        elif t in macros and t not in hide:
            ps, body = macros[t]
            if ps is None: out += expand(body, macros, (*hide, t)); continue
            if i >= len(ts) or ts[i] != "(": out.append(t); continue
            i += 1; depth = 0; args = [[]]
            while True:
                if i >= len(ts): raise Bad("unterminated call")
                u = ts[i]; i += 1
                if u == "(": depth += 1
                if u == ")":
                    if not depth: break
                    depth -= 1
                if u == "," and not depth: args.append([])
                else: args[-1].append(u)
            if len(args) != len(ps): raise Bad("arguments")
            args = [expand(a, macros, hide) for a in args]
            sub = []
            for b in body: sub += args[ps.index(b)] if b in ps else [b]
            out += expand(sub, macros, (*hide, t))
        else: out.append(t)
    return out

class Eval:
    """C evaluation; raises Bad when a value leaves 16 bits or U meets a negative value"""
    def __init__(self, ts, macros):
        self.t = ts + [""]; self.i = 0; self.m = macros; self.off = 0
        self.unsigned = any(re.match(r"\d\w*[uU]", t) for t in ts)
        self.ops = set()
    def peek(self): return self.t[self.i]
    def next(self): self.i += 1; return self.t[self.i - 1]
    def expect(self, x):
        if self.next() != x: raise Bad("syntax")
    def chk(self, v):
        if self.off: return v if -32768 <= v <= 32767 and (v >= 0 or not self.unsigned) else self.bad()
        if not -32768 <= v <= 32767 or (v < 0 and self.unsigned): raise Bad("range")
        return v
    def bad(self): raise Bad("range")
    def unary(self):
        t = self.next()
        if t == "!": return int(not self.unary())
        if t == "(":
            v = self.cond(); self.expect(")"); return v
        if t == "defined":
            p = self.peek() == "("
            if p: self.next()
            n = self.next()
            if p: self.expect(")")
            return int(n in self.m)
        if t[:1].isdigit():
            s = t.rstrip("uUlL")
            b = 16 if s[:2].lower() == "0x" else 8 if s[0] == "0" and len(s) > 1 else 10
            return self.chk(int(s[2:] if b == 16 else s, b))
        if re.match(r"[A-Za-z_]", t): return 0
        raise Bad("syntax")
    LV = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"]]
    def bin(self, l):
        if l == len(self.LV): return self.unary()
        v = self.bin(l + 1)
        while self.peek() in self.LV[l]:
            o = self.next(); self.ops.add(o)
            skip = (o == "&&" and not v) or (o == "||" and v)
            self.off += bool(skip)
            w = self.bin(l + 1)
            self.off -= bool(skip)
            if o in "/%":
                if not w:
                    if not self.off: raise Bad("division")
                    w = 1
                q = abs(v) // abs(w) * (1 if (v < 0) == (w < 0) else -1)
                v = q if o == "/" else v - q * w
            else:
                v = {"||": lambda: int(bool(v or w)), "&&": lambda: int(bool(v and w)), "|": lambda: v | w, "^": lambda: v ^ w,
                     "&": lambda: v & w, "==": lambda: int(v == w), "!=": lambda: int(v != w), "<": lambda: int(v < w),
                     ">": lambda: int(v > w), "<=": lambda: int(v <= w), ">=": lambda: int(v >= w), "+": lambda: v + w,
                     "-": lambda: v - w, "*": lambda: v * w}[o]()
            self.chk(v)
        return v
    def cond(self):
        v = self.bin(0)
        if self.peek() == "?":
            self.next(); self.ops.add("?")
            self.off += not v
            a = self.cond(); self.expect(":")
            self.off -= not v
            self.off += bool(v)
            b = self.cond()
            self.off -= bool(v)
            return a if v else b
        return v
    def run(self):
        v = self.cond()
        if self.peek(): raise Bad("syntax")
        return v

def evaluate(text, macros):
    e = Eval(expand(TOKRE.findall(text), macros), macros)
    return e.run(), e.ops

IDS = ["A", "B", "C", "DEF", "FOO_1", "if_", "x", "_n", "UNDEF", "__SCC__", "line", "elif"]
class Gen:
    def __init__(self, r):
        self.r = r
        self.macros = {"__SCC__": (None, ["1"])}   # what is defined where we are
        self.n = 0
        self.lines = 0
        self.defs = 0
        self.exprs = []           # (value, ops)
        self.depthmax = 0

    def num(self):
        r = self.r
        v = r.choice([0, 1, 1, 2, 3, 5, 7, 8, 9, 10, 100, 255, 256, 1000, 32767, r.randrange(32768)])
        s = r.choice(["%d", "%d", "%d", "0x%x", "0X%X", "0%o"]) % v
        return s + r.choice([""] * 8 + ["L", "l", "U", "u", "UL", "lu"])

    def sp(self): return self.r.choice(["", "", " ", " ", "\t", "/**/", " /* ) */ "])

    inarg = 0

    def expr(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.22:
            k = r.random()
            if k < 0.5: return self.num()
            if k < 0.7 and not self.inarg: return r.choice(["defined %s", "defined(%s)", "defined (%s)", "defined( %s )", "defined\t%s"]) % r.choice(IDS)
            m = r.choice(list(self.macros) + IDS)
            if self.macros.get(m, (None,))[0]:
                self.inarg += 1          # (C leaves "defined" in an argument undefined)
                m += self.sp() + "(" + ",".join(self.sp() + self.expr(d - 2) for _ in self.macros[m][0]) + ")"
                self.inarg -= 1
            return m
        if k < 0.34: return "!" + self.sp() + self.expr(d - 1)
        if k < 0.50: return "(" + self.sp() + self.expr(d - 1) + self.sp() + ")"
        if k < 0.58: return self.expr(d - 1) + self.sp() + "?" + self.sp() + self.expr(d - 1) + self.sp() + ":" + self.sp() + self.expr(d - 1)
        op = r.choice(["+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||", "&&", "||"])
        a, b = self.expr(d - 1), self.expr(d - 1)
        s1, s2 = self.sp(), self.sp()
        if op == "/" and s2[:1] == "/" or op == "/" and s1[-1:] == "/": s1 = s2 = " "
        return a + s1 + op + s2 + b

    def good(self):
        """an expression with a value both C and 16-bit arithmetic define"""
        for _ in range(60):
            t = self.expr(self.r.choice([0, 1, 2, 2, 3, 4]))
            if len(t) > 200: continue
            clean = re.sub(r"/\*.*?\*/", " ", t)
            try: v, ops = evaluate(clean, self.macros)
            except (Bad, IndexError): continue
            return t, v, ops
        return "1", 1, set()

    def directive(self, name, rest=""):
        r = self.r
        s = r.choice(["", "", "", " ", "\t", "/* c */ "]) + "#" + r.choice(["", "", "", " ", "\t", " /**/ "]) + name
        if rest: s += r.choice([" ", " ", " ", "\t", "  ", "/**/", " \\\n"]) + rest
        s += r.choice([""] * 5 + [" ", " // c", " /* c */", "/* multi\n line */"])
        return s

    def text(self, active):
        self.n += 1
        r = self.r
        k = r.random()
        names = [n for n in IDS if self.macros.get(n, (1, 0))[0] is None or n not in self.macros]
        if k < 0.5: return "t_%d %s;" % (self.n, r.choice(names))
        if k < 0.6: return 't_%d "#if 0" \'#\' ' % self.n
        if k < 0.7: return "t_%d // #else" % self.n
        if k < 0.78: return "t_%d /*\n#else\n#endif\n#error x\n*/ u" % self.n
        if k < 0.84: return "t_%d \\\n#if 0 \\\n +" % self.n
        if k < 0.9: return r.choice(["", "#", " # ", "# // nothing", "#/**/"]) + "\nt_%d" % self.n
        return "t_%d x+#y" % self.n if r.random() < 0.5 else ""

    JUNK = ["don't", "it's \"open", "#error no", "#include \"nofile.h\"", "#include <no/such>", "#nonsense 1 2", "#define A 77", "#undef A", "#define f( x", "#undef", "#define",
            "# 12 \"x.c\"", "'", "\"", "#define __SCC__ 3", "@ ` $", "t_bad f(", "#pragma x", "#line 5", "))) (("]
    JUNKIF = ["#if )(", "#if 1/0", "#ifdef", "#ifndef 5", "#if", "#if 1 +", "#ifdef A", "#ifndef A", "#if defined", "#if 'ab' 3", "#if 1.5", "#if A("]

    def junk(self, depth):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if r.random() < 0.35 and depth < 15:
                out.append(r.choice(self.JUNKIF))
                out += self.junk(depth + 1)
                if r.random() < 0.3: out += [r.choice(["#elif 1", "#elif", "#elif )", "#elif 1/0"])] + self.junk(depth + 1)
                if r.random() < 0.5: out += ["#else"] + self.junk(depth + 1)
                out.append("#endif")
            elif r.random() < 0.6: out.append(r.choice(self.JUNK))
            else: out.append(self.text(False))
        return out

    def define(self, active):
        r = self.r
        if self.defs > 14: return []
        free = [n for n in IDS if n not in self.macros and n not in ("UNDEF",)]
        live = [n for n in self.macros if n != "__SCC__"]
        if live and r.random() < 0.4:
            n = r.choice(live)
            del self.macros[n]
            return [self.directive("undef", n)]
        if not free: return []
        n = r.choice(free)
        self.defs += 1
        k = r.random()
        if k < 0.1: ps, body = None, ""
        elif k < 0.7: ps, body = None, self.expr(r.choice([0, 0, 1, 2]))
        else:
            ps = r.sample(["p", "q"], r.choice([1, 2]))
            body = r.choice(["%s+1", "(%s)", "%s*%s", "!%s", "(%s?%s:0)", "%s", "3", "(%s) && (%s)", "defined_ + %s"])
            body = body.replace("%s", ps[0], 1).replace("%s", ps[-1], 1)
        body = re.sub(r"/\*.*?\*/", " ", body)
        if len(body) > 60 or "defined" in body: body = "4" if ps is None else "(%s)" % ps[0]
        self.macros[n] = (ps, TOKRE.findall(body))
        return [self.directive("define", n + ("(%s)" % ",".join(ps) if ps else "") + (" " + body if body else ""))]

    def group(self, depth, budget):
        """lines of a group that is processed"""
        r = self.r
        out = []
        self.depthmax = max(self.depthmax, depth)
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            if budget <= 0 or self.n > 60: break
            k = r.random()
            if k < 0.35: out.append(self.text(True))
            elif k < 0.5: out += self.define(True)
            elif depth < 16: out += self.cond(depth, budget - 1)
        return out

    def opening(self):
        r = self.r
        if r.random() < 0.35:
            n = r.choice(IDS)
            v = n in self.macros
            return (self.directive("ifdef", n), v) if r.random() < 0.5 else (self.directive("ifndef", n), not v)
        t, v, ops = self.good()
        self.exprs.append((v, ops))
        return self.directive("if", t), v

    def cond(self, depth, budget):
        r = self.r
        head, v = self.opening()
        out = [head]
        done = bool(v)
        out += self.group(depth + 1, budget) if v else self.junk(depth + 1)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            if done:
                out.append(self.directive("elif", r.choice([self.expr(2), "1", "0", "1/0", ")("])))
                out += self.junk(depth + 1)
            else:
                t, v, ops = self.good()
                self.exprs.append((v, ops))
                out.append(self.directive("elif", t))
                out += self.group(depth + 1, budget) if v else self.junk(depth + 1)
                done = bool(v)
        if r.random() < 0.6:
            out.append(self.directive("else"))
            out += self.junk(depth + 1) if done else self.group(depth + 1, budget)
        out.append(self.directive("endif"))
        return out

def deep(g):
    """a chain of nested conditions up to the limit"""
    r = g.r
    n = r.choice([8, 12, 15, 16])
    out, close = [], []
    for i in range(n):
        if r.random() < 0.85:
            h, v = g.opening()
            while not v: h, v = g.opening()
            out += [h, g.text(True)]
        else:
            h, v = g.opening()
            while v: h, v = g.opening()
            out += [h, "junk's", g.directive("else"), g.text(True)]
    for i in range(n):
        if r.random() < 0.3: out += [g.text(True)]
        out.append(g.directive("endif"))
    g.depthmax = n
    return out

def program(r):
    g = Gen(r)
    out = []
    for _ in range(r.choice([1, 2, 3])): out += g.define(True)
    if r.random() < 0.1: out += deep(g)
    else:
        for _ in range(r.choice([2, 3, 4])): out += g.cond(0, r.choice([1, 2, 3, 5]))
    out += ["t_end"]
    return "\n".join(out) + "\n", g

def broken(r):
    """(text, reason) that must be refused"""
    g = Gen(r)
    pre = []
    for _ in range(r.choice([0, 1, 2])): pre += g.define(True) + g.cond(0, 2)
    k = r.randrange(7)
    t, v, ops = g.good()
    if k == 0: bad, why = [g.directive("if", t), "a"], "missing #endif"
    elif k == 1: bad, why = [g.directive("endif")], "#endif without #if"
    elif k == 2: bad, why = [g.directive("else"), "b"], "#else without #if"
    elif k == 3: bad, why = [g.directive("elif", t), "b"], "#elif without #if"
    elif k == 4: bad, why = [g.directive("if", r.choice(["1/0", "%s/(1-1)" % g.num(), "1 && 2%0", "0 || 3/0"])), "a", "#endif"], "division by zero"
    elif k == 5: bad, why = [g.directive("if", r.choice(["(1", "", "1+", "(", "!", "*3", "1 ? 2", "(2+3", "08"])), "a", "#endif"], "malformed expression"
    else: bad, why = [r.choice(["#nonsense", "#iff 1", "#endiff", "#elseif 1", "#Define A"])], "unknown directive"
    return "\n".join(pre + bad + ["t_end"]) + "\n", why
