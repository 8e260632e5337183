import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, swargen
from vlib import Violation, h

def case(ctx, rng, d, i):
    keys = swargen.history(rng, rng.choice([0, 1, 2, 4, 8, 14]), quit=rng.random() < 0.9)
    b, j, font, fr, clock, mode, fs = swargen.dos(ctx, rng, d, keys)
    if j["violations"]: raise Violation("monitor: %s (clock %d)" % (j["violations"][:3], clock), fs)
    over = j["ended"] == "exit"
    if j["ended"] not in ("exit", "nokeys"): raise Violation("the game ended with %s, clock %d" % (j["ended"], clock), fs)
    if 0x011B in keys and not over: raise Violation("the game goes on after Esc (clock %d)" % clock, fs)
    if j["nvmodes"] != 1 + over or (not over and j["vmode"] != 4): raise Violation("%d changes of the video mode" % j["nvmodes"], fs)
    if over:
        if j["vmode"] != mode: raise Violation("video mode %d after the game, %d before" % (j["vmode"], mode), fs)
        if j["exit"] != 0: raise Violation("status %d" % j["exit"], fs)
        if b.out: raise Violation("output %r" % b.out[:100], fs)
    elif not j["polls"]: raise Violation("the keyboard is never polled", fs)
    return dict(evals=j["vram_w"], keys=[h((clock, tuple(keys)))], add=dict(games=1, keys_taken=j["keys"], polls=j["polls"], retraces=j["ins"], frame_buffer_writes=j["vram_w"], calls=j["calls"], unfinished=int(not over)), max=dict(depth=j["max_depth"], stack=65536 - j["min_sp"]))

def body(c):
    t = vlib.Tools(c.dir, ["scc", "scpp", "swar.com"])
    c.pool(case, c.n(250, 8000), t, "games")

if __name__ == "__main__":
    vlib.main("W01", "Each evaluation is one frame buffer write of swar.com (built by scpp and scc from the current tree) on the reference 8086 with random memory, clock, old video mode, retrace timing and key history: every write lies in the program's data and stack or in B8000-BBFFF, "
      "code runs only inside the image, every return matches its call with the same SP and BP, and after Esc or a hit the old video mode is back and the status is 0. Distinct = (clock, key history).", body,
      assumptions=["BIOS model of em86: INT 10h AH=00,0B,0F, INT 16h AH=00,01, port 3DAh with random timing of the retrace bit"])
