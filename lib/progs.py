"""One random valid program from any of the scc generators."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
from cprog import *
import decls, objs
import c01, c02, c04, c06

def program(rng, kinds="ecoad l"):
    """(source, expected output or None)"""
    while True:
        k = rng.choice(kinds)
        try:
            if k == "e":
                src, exp = c01.Gen(rng).program(depth=rng.choice([3, 4]))
                return src, exp
            if k == "c":
                b = c02.build(rng, rng.choice([1, 2]))
                if not b or b[0].count("\n") > 300: continue
                return b[0], None if "?" in b[1] else b[1]
            if k == "o":
                g = objs.OG(rng)
                top, main = g.program(rng.choice([1, 2, 4]), rng.choice([6, 12]))
                return PRELUDE + top + "void Main(void)\n{\n" + main + "}\n", "".join(g.out)
            if k == "a":
                src, exp, _ = c04.G(rng).program()
                if len(src) > 12000: continue
                return PRELUDE + src, exp
            if k == "d":
                top, m, exp = decls.Gen(rng).program()
                return PRELUDE + top + m, None if "?" in exp else exp
            if k == "l":
                return c06.Prog(rng).text()[0], None
        except (TooLong, c04.Lim, decls.Stop, RecursionError):
            pass
