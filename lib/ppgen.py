"""Generators for the preprocessor checks and a token comparison against gcc's preprocessor."""
import os, re
from vlib import run, Violation, CheckError

TOK = re.compile(r"[A-Za-z_][A-Za-z_0-9]*|[0-9][0-9A-Za-z_]*|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'"
                 r"|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||##|[-+*/%&|^]=|[^\s]")

def toks(text):
    return TOK.findall(text)

BLANK = r"(?:\s|/\*(?:(?!\*/).)*\*/)*"
def filled(text):
    """the program with a token for every empty argument and every empty macro body"""
    text = re.sub(r"([(,]" + BLANK + r")(?=[,)])", r"\1 QQ ", text, flags=re.S)
    return re.sub(r"(#\s*define(?:[ \t]|/\*(?:(?!\*/).)*\*/)+\w+(?:\((?:/\*(?:(?!\*/).)*\*/|[^)\n])*\))?)((?:[ \t]|/\*(?:(?!\*/).)*\*/|//[^\n]*)*)(?=\n|\Z)", r"\1 QQ \2", text, flags=re.S)

def blanks(d, exe, got, want, text):
    """Only blanks in strings differ? Where a macro or an argument expands to nothing, C leaves open whether
    the blanks around it are "between the tokens" of an argument that is then stringified: not judged
    if nothing differs once there are tokens in place of nothing."""
    if len(got) != len(want): return False
    if not all(a == b or (a[0] == b[0] == '"' and a.replace(" ", "") == b.replace(" ", "")) for a, b in zip(got, want)): return False
    with open(os.path.join(d, "filled.c"), "w", encoding="latin1") as f: f.write(filled(text))
    g = gcc_e(d, "filled.c")
    if g.rc or g.err.strip(): return True                    # there is no such program
    r = run([exe, "filled.c", "filled.i"], cwd=d, timeout=60)
    return r.rc == 0 and toks(open(os.path.join(d, "filled.i"), encoding="latin1").read()) == toks(g.out.decode("latin1"))

def gcc_e(d, name, args=()):
    r = run(["gcc", "-E", "-P", "-xc", "-std=c99", "-D__SCC__=1", *args, name], cwd=d, timeout=20)
    return r

WORDS = ["x", "y", "z", "foo", "bar", "a1", "_"]
NUMS = ["0", "1", "2", "42", "7", "0x1F", "100u", "5L"]
PUNCT = ["+", "-", "*", ";", "<", ">", "=", "&", "|", "!", "~", "%", "^", "[", "]", "{", "}", ".", "?", ":", "/"]
LITS = ['"s"', '"a b"', "'c'", '"\\n"', '"\\""', "'\\''", "'\"'", '"\\\\"', '""', '"// no"', '"/* no */"', "'\\\\'", '"q" "r"', '"##"', '"\'"', '"(,)"', "','", "'('"]
NAMES = ["f", "g", "h", "F", "X1", "x1", "Y", "Zed", "id", "cat", "str", "E", "N", "foo2", "b_", "__m", "fx", "line", "error"]

class Gen:
    def __init__(self, r):
        self.r = r
        self.live = {}          # name -> params (None: object-like)
        self.ids = set()
        self.nargs = 0
        self.text = 0
        self.paste = {}         # name -> set of parameter indexes next to ##

    def ws(self, none=0.6):
        r = self.r
        if r.random() < none: return ""
        return r.choice([" ", " ", " ", "  ", "\t", "/**/", " /* c */ ", "/* , ) */"])

    def word(self):
        return self.r.choice(WORDS)

    def simple(self):
        r = self.r
        return r.choice([self.word, self.word, lambda: r.choice(NUMS), lambda: r.choice(PUNCT)])()

    def arg(self, depth, params=(), single=False, nl=False):
        r = self.r
        if single:
            k = r.randrange(10)
            if k < 1: return ""
            if k < 4: return self.word()
            if k < 6: return r.choice(["1", "2", "0", "7"])
            if k < 8 and self.live: return r.choice(list(self.live))
            if params: return r.choice(params)
            return self.word()
        if r.random() < 0.08: return ""
        n = r.choice([1, 1, 1, 2, 3])
        out = []
        for _ in range(n):
            out.append(self.item(depth - 1, params, nl=nl, inarg=True))
        return self.ws(0.8).join(out) if r.random() < 0.3 else " ".join(out)

    def call(self, name, depth, params=(), nl=False):
        r = self.r
        ps = self.live[name]
        out = name
        if nl and r.random() < 0.06: out += r.choice(["\n", "\n\n", " \n ", "// c\n"])
        else: out += self.ws(0.85)
        args = []
        for i in range(len(ps)):
            single = i in self.paste.get(name, ()) and r.random() < 0.92
            a = self.arg(depth, params, single, nl)
            if nl and r.random() < 0.05: a += r.choice(["\n", " \n", "// x\n", "/*\n*/"])
            args.append(self.ws(0.8) + a + self.ws(0.8))
        return out + "(" + ",".join(args) + ")"

    def item(self, depth, params=(), body=False, nl=False, inarg=False, others=()):
        r = self.r
        k = r.random()
        names = list(self.live)
        if params and k < 0.25: return r.choice(params)
        if (names or others) and depth > 0 and k < 0.62:
            pool = names + [o for o in others if o in self.live or True]
            n = r.choice(pool)
            ps = self.live.get(n, self.future.get(n) if body else None)
            if ps is None or r.random() < 0.12: return n
            if n not in self.live:
                save = self.live
                self.live = dict(self.live); self.live[n] = ps
                try: return self.call(n, depth - 1, params, nl)
                finally: self.live = save
            return self.call(n, depth - 1, params, nl)
        if k < 0.68 and depth > 0: return "(" + self.item(depth - 1, params, body, nl, True) + (r.choice([",", " , ", ""]) and r.choice([",", " "]) + self.simple() if r.random() < 0.3 else "") + ")"
        if k < 0.70: return self.nest(r.choice([1, 2, 2, 3, 4]), params)
        if k < 0.76: return r.choice(LITS)
        return self.simple()

    def nest(self, depth, params=()):
        """a parenthesised group: nested, empty, adjacent and comma-separated parentheses"""
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            if depth > 1 and r.random() < 0.5: out.append(self.nest(depth - 1, params))
            elif params and r.random() < 0.4: out.append(r.choice(params))
            else: out.append(r.choice([self.word(), self.word(), r.choice(NUMS), r.choice(LITS), r.choice("+-;[]{}")]))
        s = ""
        for t in out: s += (r.choice([",", ",", ",", ", ", " ,", " ", ",,", " , "]) if s else r.choice(["", "", "", " ", ","])) + t
        return "(" + s + r.choice(["", "", "", " ", ","]) + ")"

    future = {}

    def define(self, name=None):
        """a #define line, or None when the table budget is used up"""
        r = self.r
        free = [n for n in NAMES if n not in self.live]
        if not free: return None
        name = name or r.choice(free)
        ps = None
        if r.random() < 0.68:
            ps = r.sample(["a", "b", "c", r.choice(["p", "p", "define"])], r.choice([0, 1, 1, 1, 2, 2, 3]))
            if r.random() < 0.04 and ps: ps[0] = r.choice(NAMES)      # a parameter named like a macro
            if len(set(ps)) != len(ps) or name in ps: ps = ["a"]
        ids = self.ids | {name} | set(ps or ())
        if len(ids) > 14 or self.nargs + len(ps or ()) > 26: return None
        paste = set()
        body = []
        n = r.choice([0, 1, 1, 2, 3, 4, 5])
        self.future = {name: ps}
        for _ in range(n):
            k = r.random()
            if ps and k < 0.10:
                body.append("#" + self.ws(0.8) + r.choice(ps))
            elif k < (0.28 if ps else 0.05):
                ops = []
                for j in range(r.choice([2, 2, 2, 3])):
                    if ps and r.random() < 0.7:
                        o = r.choice(ps); paste.add(ps.index(o))
                    else:
                        o = self.word() if j == 0 else r.choice([self.word(), r.choice(["1", "2", "0"]), r.choice(NAMES)])
                    ops.append(o)
                body.append((self.ws(0.7) + "##" + self.ws(0.7)).join(ops))
            else:
                body.append(self.item(2, ps or (), body=True, others=[name] if r.random() < 0.4 else ()))
        text = "".join((" " if r.random() < 0.7 or re.match(r"\w.*\w$", body[i - 1][-1:] + "." + t[:1], re.S) or t[:1] == "#" or body[i - 1][-1:] == "#" else "") + t if i else t for i, t in enumerate(body))
        text = re.sub(r"/(?=/)|/(?=\*(?!\*/| c| ,))", "/ ", text)
        if "\n" in text or len(text) > 70: return None
        if self.text + len(text) + 20 > 1100 or self.tokens + 2 * len(toks(text)) > 70: return None
        self.text += len(text) + 20
        self.tokens += len(toks(text)) * 3 // 2
        self.ids = ids
        self.nargs += len(ps or ())
        self.live[name] = ps
        self.paste[name] = paste
        head = "#" + self.ws(0.9).replace("//", "") + "define" + r.choice([" ", " ", "\t", "/**/", "  "]) + name
        if ps is not None:
            head += "(" + ",".join(self.ws(0.8) + p + self.ws(0.8) for p in ps) + ")"
            if r.random() < 0.5: head += r.choice([" ", "\t", "/**/"])
        elif text: head += " "
        return head + text + r.choice(["", "", "", " ", " // end", " /* end */"])
    tokens = 0

    def use(self):
        r = self.r
        n = r.choice([1, 1, 2, 3, 4])
        parts = [self.item(3, nl=True) for _ in range(n)]
        s = parts[0]
        for p in parts[1:]:
            s += r.choice(["", " ", " ", "\n"] if not (s[-1:] == "/" and p[:1] in "/*") else [" "]) + p
        s = re.sub(r"/(?=/(?! [cx]\n))", "/ ", s)
        if re.search(r"(^|\n)\s*#", s): s = s.replace("#", "+")
        return s

def program(r, undef=True):
    """list of chunks: ('d', text) directives and ('u', text) uses"""
    g = Gen(r)
    out = []
    for _ in range(r.choice([1, 2, 3, 5, 7])):
        t = g.define()
        if t: out.append(("d", t))
    for _ in range(r.choice([3, 6, 10])):
        k = r.random()
        if undef and k < 0.08 and g.live:
            n = r.choice(list(g.live))
            out.append(("d", "#undef %s" % n))
            del g.live[n]
        elif k < 0.16:
            t = g.define()
            if t: out.append(("d", t))
        else: out.append(("u", g.use()))
    # "0.foo" is one preprocessing number in C: scc has no floating point, and scpp reads 0 . foo
    return [(k, re.sub(r"(\b[0-9]\w*)\.|\.(?=[0-9])", lambda m: m[1] + " ." if m[1] else ". ", t)) for k, t in out]

def text_of(chunks):
    """source text, with a marker line before every use; and line -> chunk map"""
    lines, owner = [], []
    for i, (k, t) in enumerate(chunks):
        if k == "u":
            lines.append("zq_%d" % i); owner.append(i)
        for l in t.split("\n"):
            lines.append(l); owner.append(i)
    return "\n".join(lines) + "\nzq_end\n", owner

def split(ts):
    """token list -> {marker: tokens}"""
    m, cur = {}, None
    for t in ts:
        if t.startswith("zq_"): cur = t; m[cur] = []
        elif cur is None: m.setdefault("", []).append(t)
        else: m[cur].append(t)
    return m

def settle(d, chunks, name="t.c", maxout=60, maxsrc=40):
    """drop the chunks gcc objects to (bad pastes, wrong argument counts) or that blow up; returns
    (chunks, text, gcc's token groups)"""
    for _ in range(6):
        text, owner = text_of(chunks)
        with open(os.path.join(d, name), "w") as f: f.write(text)
        r = gcc_e(d, name)
        bad = set()
        for m in re.finditer(rb"^[^:\n]*:(\d+):", r.err, re.M):
            l = int(m[1]) - 1
            if l < len(owner): bad.add(owner[l])
        if r.err.strip() and not bad: return None
        if not bad and r.rc == 0:
            grp = split(toks(r.out.decode("latin1")))
            bad = {int(k[3:]) for k, v in grp.items() if k[3:].isdigit() and (len(v) > maxout or sum(map(len, v)) > 400)}
            bad |= {i for i, c in enumerate(chunks) if c[0] == "u" and len(toks(c[1])) > maxsrc}
            if not bad: return chunks, text, grp
        chunks = [("d", "") if i in bad and c[0] == "d" else c for i, c in enumerate(chunks) if i not in bad or c[0] == "d"]
    return None
