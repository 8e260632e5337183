"""Tokens of scc's C, and other spellings and layouts of the same tokens."""
import re

TOK = re.compile(r"""(?P<ws>[ \t\r\n\f\v]+|//[^\n]*|/\*.*?\*/|\#[^\n]*)|(?P<id>[A-Za-z_]\w*)|(?P<num>0[xX][0-9A-Fa-f]+|\d+)|(?P<str>"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.[0-9A-Fa-f]*|[^'\\])')|(?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|.)""", re.S)

def tokens(src):
    out = []
    for m in TOK.finditer(src):
        if m.lastgroup != "ws": out.append((m.lastgroup, m.group()))
    return out

def glue_ok(a, b):
    """may tokens a and b be written without anything between them?"""
    ta, tb = a[1], b[1]
    if a[0] in ("id", "num") and b[0] in ("id", "num"): return False
    if a[0] == "num" and b[1] in (".", "..."): return False
    if a[0] == "str" and b[0] == "str": return True
    if ta + tb[:1] in ("//", "/*") or (ta[-1:] + tb[:1]) in ("//", "/*"): return False
    m = TOK.match(ta + tb)
    return m.group() == ta and TOK.match(tb).group() == tb

ESC = {10: "n", 13: "r", 9: "t", 39: "'", 34: '"', 92: "\\"}
SIMPLE = {"n": 10, "r": 13, "t": 9, "'": 39, '"': 34, "\\": 92}

def chars(body):
    """bytes denoted by the text between quotes (scc's escapes: up to 2 hex, up to 3 octal digits)"""
    out, i = [], 0
    while i < len(body):
        c = body[i]
        i += 1
        if c != "\\":
            out.append(ord(c))
            continue
        c = body[i]
        i += 1
        if c in SIMPLE: out.append(SIMPLE[c])
        elif c == "x":
            m = re.compile(r"[0-9A-Fa-f]{1,2}").match(body, i)
            out.append(int(m.group(), 16)); i = m.end()
        else:
            m = re.compile(r"[0-7]{1,3}").match(body, i - 1)
            out.append(int(m.group(), 8) & 255); i = m.end()
    return out

def spell_char(r, v, nxt, q):
    """one spelling of byte v inside quotes q, followed by byte nxt"""
    opts = []
    if 32 <= v < 127 and v not in (92, ord(q)): opts += [chr(v)] * 4
    if v in ESC: opts.append("\\" + ESC[v])
    n = chr(nxt) if nxt is not None else ""
    opts += ["\\x%02X" % v, "\\x%02x" % v]
    if v < 16 and not (n and n in "0123456789abcdefABCDEF"): opts.append("\\x%x" % v)
    opts.append("\\%03o" % v)
    if not (n and n in "01234567"): opts.append("\\%o" % v)
    return opts

def respell_string(r, t):
    """other source text for the same string literal, perhaps split"""
    b = chars(t[1:-1])
    out, cur = [], ""
    for i, v in enumerate(b):
        cut = r.random() < 0.08
        # an escape's meaning must not depend on what the spelling of the next byte looks like
        s = r.choice(spell_char(r, v, ord("0"), '"'))
        cur += s
        if cut:
            out.append('"%s"' % cur)
            cur = ""
    out.append('"%s"' % cur)
    if r.random() < 0.1: out.insert(r.randrange(len(out) + 1), '""')
    return [("str", x) for x in out]

def respell_num(r, v):
    """spellings of the non-negative constant v"""
    o = ["%d" % v, "0x%x" % v, "0X%X" % v, "0%o" % v, "0x%04X" % v, "000%o" % v]
    if 32 <= v < 127 and v not in (39, 92): o.append("'%s'" % chr(v))
    if v < 128: o += ["'\\x%02x'" % v, "'\\%o'" % v, "'\\%03o'" % v]
    if v in ESC: o.append("'\\%s'" % ESC[v])
    return r.choice(o)

def num_value(t):
    if t[:2] in ("0x", "0X"): return int(t, 16)
    return int(t, 8) if t[0] == "0" and len(t) > 1 else int(t)

WS = [" ", "\n", "\t", "\r\n", "  ", "\n\n", " \t ", "\f", "\v", "\r"]
def filler(r, need, mode):
    """white space between two tokens"""
    c = r.random()
    if mode == "min": return " " if need else ""
    if mode == "lines": return "\n"
    if mode == "crlf": return "\r\n"
    if mode == "comments":
        k = r.randrange(9)
        body = r.choice(["", "*", " x ", "\"", "'", "//", "/*", "#", "\n", "* /", "**", "/", "if (1) {", "\\"])
        if body == "/*" : body = "/ *"
        if k < 4: return "/*%s*/" % body if not (body.endswith("*") and False) else "/* */"
        if k < 7: return "//%s\n" % body.replace("\n", " ")
        if k == 7: return "\n#%s\n" % r.choice([" 1 \"x.c\"", "line 5", " pragma foo", ""])
        return r.choice(WS)
    if mode == "long":
        if c < 0.02: return r.choice([" " * r.randrange(1, 1500), "/*" + "-" * r.randrange(1, 1500) + "*/", "//" + "=" * r.randrange(1, 1500) + "\n", "\n" * r.randrange(1, 1200)])
        return " " if need or r.random() < 0.4 else ""
    return r.choice(WS) if need or c < 0.5 else ""

MODES = ["min", "lines", "crlf", "comments", "long", "mixed", "shift"]
def relayout(r, toks, mode=None):
    mode = mode or r.choice(MODES)
    out = []
    if mode == "shift":
        # the same text moved by 0..600 bytes: every token meets the 512-byte buffer boundary somewhere
        out.append(r.choice([" ", "\n", "/*x*/", ";"[:0]]) * 0 + " " * r.randrange(0, 600))
        mode = "min" if r.random() < 0.5 else "mixed"
    prev = None
    for t in toks:
        if prev is not None:
            need = not glue_ok(prev, t)
            f = filler(r, need, mode)
            if prev[1] == "/" and f[:1] in ("/",): f = " " + f
            out.append(f)
        out.append(t[1])
        prev = t
    out.append(r.choice(["", "\n", " ", "// end", "/* end */", "\n#end", "\r\n"]))
    return "".join(out)
