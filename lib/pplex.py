"""Token streams without directives or macros, with the token list of every logical line known by construction."""
import re
from ppgen import TOK

IDS = ["a", "_", "x1", "foo_bar", "__LINE", "define", "defined_", "LINE__", "verylongidentifier_with_1234567890_digits", "L", "u8", "e", "A", "Z", "z9", "if", "int"]
NUMS = ["0", "1", "42", "0x1F", "0XABCDEFu", "1e5", "0b11", "09z", "017", "100UL", "32767", "65535L", "9"]
STRS = ['""', '"a"', '"a b"', r'"\""', r'"\\"', r'"\n\t\x41\0"', '"// no"', '"/* no */"', '"#define x"', "\"'\"", '"' + "s" * 70 + '"', '"\xe6\xf8\xe5\x80\xff"', r'"\\\""', '"??/"', '"\t"', '"%d"']
CHRS = ["'a'", r"'\''", "'\"'", r"'\\'", r"'\n'", r"'\0'", r"'\x7f'", "' '", "'/'", "'*'", "'#'", "'\xf8'"]
OPS = ["+", "-", "*", "/", "%", "=", "<", ">", "!", "&", "|", "^", "~", "?", ":", ";", ",", ".", "(", ")", "[", "]", "{", "}",
       "++", "--", "->", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "<<=", ">>=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "..."]

def joins(a, b):
    """would a directly followed by b be read differently?"""
    try: t = TOK.findall(a + b)
    except re.error: return True
    return t != [a, b] or (a + b).find("//") >= 0 or (a + b).find("/*") >= 0 or (a[-1:] == "." and b[:1].isdigit()) or (a[-1:].isdigit() and b[:1] == ".")

class Stream:
    def __init__(self, r):
        self.r = r
        self.out = []
        self.lines = []      # expected token lists
        self.eol = r.choice(["\n", "\n", "\r\n"])
        self.mix = r.random() < 0.15

    def nl(self): return self.r.choice(["\n", "\r\n"]) if self.mix else self.eol

    def token(self):
        r = self.r
        return r.choice(r.choice([IDS, IDS, IDS, NUMS, OPS, OPS, OPS, STRS, CHRS]))

    def comment(self):
        """a block comment of characters that mean something near one"""
        r = self.r
        t = "".join(r.choice("//***ab \"'\\#x(") for _ in range(r.choice([1, 1, 2, 2, 3, 5, 9])))
        while "*/" in t: t = t.replace("*/", r.choice("*/"))
        if r.random() < 0.15: t += self.nl() + r.choice(["", "/", "*", "//", "#"])
        return "/*" + t + "*/"

    def sep(self, must):
        r = self.r
        k = r.random()
        if r.random() < 0.06: return self.comment()
        if not must and k < 0.4: return ""
        if k < 0.7: return r.choice([" ", " ", "  ", "\t", " \t ", "\v", "\f"])
        if k < 0.78: return r.choice(["/**/", " /* c */ ", "/***/", "/* / * */", "/*//*/", "/*\"*/", "/*'*/"])
        if k < 0.83: return "/* a" + self.nl() + " b " + self.nl() + "*/"
        if k < 0.92: return " \\" + self.nl() + r.choice(["", " ", "\t"]) + (" " if must else "")
        if k < 0.95: return " " * r.randrange(1, 600)
        return "/*" + "c" * r.randrange(500) + "*/" if k < 0.97 else " "

    def line(self, n):
        r = self.r
        ts, s = [], r.choice(["", "", " ", "    ", "\t", "/* x */"])
        for i in range(n):
            t = self.token() if not ts or r.random() < 0.97 else r.choice(["#", "##"])
            if ts:
                w = self.sep(joins(ts[-1], t))
                s += " " + w if s.endswith("/") and w.startswith("/") else w
            ts.append(t)
            s += t
        if s.endswith("/"): s += " "
        s += r.choice(["", "", "", " ", "\t", " // c", " // it's", " /* e */", "//", " // \"x"])
        self.out.append(s + self.nl())
        if ts: self.lines.append(ts)

    def pad(self, n):
        """one line of n bytes of identifiers, so that input and output move"""
        t = "p" * max(1, n)
        self.out.append(t + self.nl()); self.lines.append([t])

def program(r):
    s = Stream(r)
    for _ in range(r.choice([1, 3, 10, 30])):
        k = r.random()
        if k < 0.1: s.out.append(r.choice(["", " ", "\t ", "// c", "/* c */", "/* a\n\n b */", "\\" + s.nl(), "//"]) + s.nl())
        elif k < 0.2: s.pad(r.choice([r.randrange(1, 200), 510 - r.randrange(0, 40), r.randrange(1, 520)]))
        else: s.line(r.choice([0, 1, 2, 5, 12]))
    text = "".join(s.out)
    if r.random() < 0.2: text = text.rstrip("\r\n\\ ")     # no new-line at the end
    return text, s.lines

def phase(r, n):
    """every kind of token placed n bytes into the file"""
    s = Stream(r)
    s.pad(n - len(s.eol))
    for _ in range(6): s.line(r.choice([3, 6, 10]))
    for _ in range(3):
        s.pad(r.randrange(380, 512))
        s.line(8)
    return "".join(s.out), s.lines
