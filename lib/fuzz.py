"""Mutations of source text: byte, line and token level, splices, truncations."""
import re

TOK = re.compile(rb"[A-Za-z_][A-Za-z_0-9]*|[0-9][0-9A-Za-z]*|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|//[^\n]*|/\*.*?\*/|[ \t\r]+|\n|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|[-+*/%&|^<>=!]=|&&|\|\||##|.", re.S)

def toks(data):
    return TOK.findall(data)

NUMS = [b"0", b"1", b"2", b"7", b"8", b"255", b"256", b"32767", b"32768", b"65535", b"65536", b"99999999999", b"0x", b"0xFFFF", b"0x8000", b"07", b"09", b"1e5", b"128", b"127", b"-1", b"512", b"1000"]
BYTES = [b"\0", b"\xff", b"\x80", b"\r", b"\r\n", b"\n", b"\\", b"\\\n", b"\"", b"'", b"/*", b"*/", b"//", b"#", b"\t", b"\x1a", b"{", b"}", b"(", b")", b";", b"??/"]

def mutate(r, data, words, corpus, level=None):
    """one mutated copy of data"""
    k = level or r.choice(["tok"] * 6 + ["byte"] * 2 + ["line", "splice", "trunc", "mix"])
    if k == "mix":
        for _ in range(r.choice([2, 4, 8])): data = mutate(r, data, words, corpus, r.choice(["tok", "byte", "line", "splice"]))
        return data
    if k == "trunc":
        return data[:r.randrange(len(data) + 1)]
    if k == "byte":
        b = bytearray(data)
        for _ in range(r.choice([1, 1, 2, 5, 20])):
            p = r.randrange(len(b) + 1)
            w = r.randrange(5)
            if w == 0 and p < len(b): b[p] = r.randrange(256)
            elif w == 1 and p < len(b): b[p] ^= 1 << r.randrange(8)
            elif w == 2: b[p:p] = r.choice(BYTES)
            elif w == 3: del b[p:p + r.choice([1, 1, 2, 10])]
            else: b[p:p] = b[p:p + r.choice([1, 4, 40])]
        return bytes(b)
    if k == "line":
        ls = data.split(b"\n")
        for _ in range(r.choice([1, 2, 4])):
            p = r.randrange(len(ls))
            w = r.randrange(4)
            if w == 0 and len(ls) > 1: del ls[p]
            elif w == 1: ls.insert(p, ls[r.randrange(len(ls))])
            elif w == 2:
                q = r.randrange(len(ls)); ls[p], ls[q] = ls[q], ls[p]
            else:
                q = min(len(ls), p + r.choice([1, 3, 10])); ls[p:p] = ls[p:q]
        return b"\n".join(ls)
    if k == "splice":
        o = r.choice(corpus)
        a, b = toks(data), toks(o)
        if not a or not b: return data + o
        p, q = r.randrange(len(a)), r.randrange(len(b))
        n = r.choice([1, 3, 10, 50, len(b)])
        return b"".join(a[:p] + b[q:q + n] + a[p + r.choice([0, 1, 5, n]):])
    a = toks(data)
    if not a: return data
    for _ in range(r.choice([1, 1, 1, 2, 3, 6, 12])):
        if not a: break
        p = r.randrange(len(a))
        for _ in range(6):                    # prefer real tokens
            if a[p].strip(): break
            p = r.randrange(len(a))
        w = r.randrange(9)
        if w == 0: del a[p]
        elif w == 1: a.insert(p, a[p])
        elif w == 2: a.insert(p, r.choice(words) + b" ")
        elif w == 3: a[p] = r.choice(words)
        elif w == 4: a[p] = r.choice(NUMS)
        elif w == 5: a[p] = a[r.randrange(len(a))]
        elif w == 6:
            q = r.randrange(len(a)); a[p], a[q] = a[q], a[p]
        elif w == 7:
            q = min(len(a), p + r.choice([2, 5, 20])); del a[p:q]
        else:
            q = min(len(a), p + r.choice([2, 5, 20])); a[p:p] = a[p:q] * r.choice([1, 1, 2, 10])
    return b"".join(a)
