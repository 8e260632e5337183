/* Reference 8086 core used as the oracle side of the checks in /verif.
 * Written from the Intel 8086 manual, independently of /repo/sim86.c.
 * It models which flags each instruction leaves undefined, so that monitors
 * can tell "reads a flag the CPU does not define" from ordinary behaviour. */
#ifndef CORE_H
#define CORE_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { AX, CX, DX, BX, SP, BP, SI, DI };
enum { ES, CS, SS, DS };
enum { F_C = 1, F_P = 4, F_A = 0x10, F_Z = 0x40, F_S = 0x80, F_T = 0x100, F_I = 0x200, F_D = 0x400, F_O = 0x800 };
#define F_ALL (F_C|F_P|F_A|F_Z|F_S|F_O)

typedef struct cpu cpu;
struct cpu {
    uint16_t r[8], s[4], ip, fl;
    uint16_t undef;              /* flags currently undefined */
    uint16_t used_undef;         /* set when an undefined flag was consumed by this step */
    uint8_t *mem;                /* 1 MiB */
    /* per-step decode results */
    uint16_t start_ip, next_ip;
    uint8_t op, modrm; int has_modrm, rep, seg_ovr, lock;
    int ilen; uint8_t ibytes[16]; /* the instruction as fetched */
    int is_call, is_ret, is_int, intno;
    uint16_t call_sp;            /* SP before CALL pushed */
    uint16_t call_ret;
    const char *err;             /* invalid opcode, divide error, hlt */
    long long mem_r, mem_w;      /* byte accesses made by this program */
    void (*on_write)(cpu *, uint32_t lin, uint16_t seg, uint16_t off);
    void (*on_exec)(cpu *, uint32_t lin);
    int (*on_in)(cpu *, int port, int w);
    void (*on_out)(cpu *, int port, int val, int w);
    void *user;
};

static inline uint32_t lin(uint16_t seg, uint16_t off) { return (((uint32_t)seg << 4) + off) & 0xfffff; }
static inline uint8_t rd8(cpu *c, uint16_t seg, uint16_t off) { c->mem_r++; return c->mem[lin(seg, off)]; }
static inline uint16_t rd16(cpu *c, uint16_t seg, uint16_t off) { uint8_t l = rd8(c, seg, off); return l | rd8(c, seg, off + 1) << 8; }
static inline void wr8(cpu *c, uint16_t seg, uint16_t off, uint8_t v) {
    uint32_t a = lin(seg, off);
    c->mem_w++;
    if (c->on_write) c->on_write(c, a, seg, off);
    c->mem[a] = v;
}
static inline void wr16(cpu *c, uint16_t seg, uint16_t off, uint16_t v) { wr8(c, seg, off, v & 0xff); wr8(c, seg, off + 1, v >> 8); }
static inline uint8_t ifetch(cpu *c) {
    uint32_t a = lin(c->s[CS], c->ip);
    if (c->on_exec) c->on_exec(c, a);
    c->mem_r++;
    c->ip++;
    if (c->ilen < 16) c->ibytes[c->ilen] = c->mem[a];
    c->ilen++;
    return c->mem[a];
}
static inline uint16_t ifetch16(cpu *c) { uint8_t l = ifetch(c); return l | ifetch(c) << 8; }

static inline uint8_t gr8(cpu *c, int n) { return n & 4 ? c->r[n & 3] >> 8 : c->r[n & 3] & 0xff; }
static inline void sr8(cpu *c, int n, uint8_t v) {
    if (n & 4) c->r[n & 3] = (c->r[n & 3] & 0xff) | v << 8;
    else c->r[n & 3] = (c->r[n & 3] & 0xff00) | v;
}

static inline void setf(cpu *c, uint16_t mask, uint16_t val, uint16_t undef) {
    /* mask: defined by this instruction; undef: made undefined */
    c->fl = (c->fl & ~(mask | undef)) | (val & mask);
    c->undef = (c->undef & ~mask) | undef;
}
static inline int parity(uint8_t v) { v ^= v >> 4; v ^= v >> 2; v ^= v >> 1; return !(v & 1); }
static inline uint16_t szp(uint16_t v, int w) {
    uint16_t m = w ? 0xffff : 0xff, f = 0;
    v &= m;
    if (!v) f |= F_Z;
    if (v & (w ? 0x8000 : 0x80)) f |= F_S;
    if (parity(v & 0xff)) f |= F_P;
    return f;
}
static inline int needf(cpu *c, uint16_t m) { c->used_undef |= c->undef & m; return c->fl & m; }

typedef struct { int isreg, reg; uint16_t seg, off; } ea_t;

static ea_t decode_ea(cpu *c) {
    ea_t e = { 0, 0, 0, 0 };
    c->modrm = ifetch(c);
    c->has_modrm = 1;
    int mod = c->modrm >> 6, rm = c->modrm & 7, seg = DS;
    if (mod == 3) { e.isreg = 1; e.reg = rm; return e; }
    uint16_t a = 0;
    switch (rm) {
    case 0: a = c->r[BX] + c->r[SI]; break;
    case 1: a = c->r[BX] + c->r[DI]; break;
    case 2: a = c->r[BP] + c->r[SI]; seg = SS; break;
    case 3: a = c->r[BP] + c->r[DI]; seg = SS; break;
    case 4: a = c->r[SI]; break;
    case 5: a = c->r[DI]; break;
    case 6: if (mod == 0) { a = ifetch16(c); } else { a = c->r[BP]; seg = SS; } break;
    case 7: a = c->r[BX]; break;
    }
    if (mod == 1) a += (int8_t)ifetch(c);
    else if (mod == 2) a += ifetch16(c);
    if (c->seg_ovr >= 0) seg = c->seg_ovr;
    e.seg = c->s[seg]; e.off = a;
    return e;
}
static uint16_t get_ea(cpu *c, ea_t *e, int w) {
    if (e->isreg) return w ? c->r[e->reg] : gr8(c, e->reg);
    return w ? rd16(c, e->seg, e->off) : rd8(c, e->seg, e->off);
}
static void set_ea(cpu *c, ea_t *e, int w, uint16_t v) {
    if (e->isreg) { if (w) c->r[e->reg] = v; else sr8(c, e->reg, v); return; }
    if (w) wr16(c, e->seg, e->off, v); else wr8(c, e->seg, e->off, v);
}

static uint16_t alu(cpu *c, int op, uint16_t a, uint16_t b, int w) {
    uint32_t m = w ? 0xffff : 0xff, sb = w ? 0x8000 : 0x80, res = 0, cy = 0;
    a &= m; b &= m;
    uint16_t f = 0;
    switch (op) {
    case 2: cy = !!needf(c, F_C); /* ADC */ /* fallthrough */
    case 0:
        res = a + b + cy;
        if (res > m) f |= F_C;
        if (~(a ^ b) & (a ^ res) & sb) f |= F_O;
        if ((a & 15) + (b & 15) + cy > 15) f |= F_A;
        break;
    case 3: cy = !!needf(c, F_C); /* SBB */ /* fallthrough */
    case 5: case 7:
        res = a - b - cy;
        if ((uint32_t)b + cy > a) f |= F_C;
        if ((a ^ b) & (a ^ res) & sb) f |= F_O;
        if ((uint32_t)(b & 15) + cy > (uint32_t)(a & 15)) f |= F_A;
        break;
    case 1: res = a | b; goto logic;
    case 4: res = a & b; goto logic;
    case 6: res = a ^ b;
    logic:
        res &= m;
        setf(c, F_C | F_O | F_S | F_Z | F_P, szp(res, w), F_A);
        return res;
    }
    res &= m;
    setf(c, F_ALL, f | szp(res, w), 0);
    return res;
}
static void push(cpu *c, uint16_t v) { c->r[SP] -= 2; wr16(c, c->s[SS], c->r[SP], v); }
static uint16_t pop(cpu *c) { uint16_t v = rd16(c, c->s[SS], c->r[SP]); c->r[SP] += 2; return v; }

static int jcc(cpu *c, int cc) {
    int v = 0;
    switch (cc >> 1) {
    case 0: v = !!needf(c, F_O); break;
    case 1: v = !!needf(c, F_C); break;
    case 2: v = !!needf(c, F_Z); break;
    case 3: needf(c, F_C | F_Z); v = !!(c->fl & (F_C | F_Z)); break;
    case 4: v = !!needf(c, F_S); break;
    case 5: v = !!needf(c, F_P); break;
    case 6: needf(c, F_S | F_O); v = !(c->fl & F_S) != !(c->fl & F_O); break;
    case 7: needf(c, F_S | F_O | F_Z); v = (c->fl & F_Z) || (!(c->fl & F_S) != !(c->fl & F_O)); break;
    }
    return v ^ (cc & 1);
}
static uint16_t incdec(cpu *c, uint16_t a, int dec, int w) {
    uint32_t m = w ? 0xffff : 0xff, sb = w ? 0x8000 : 0x80;
    a &= m;
    uint16_t res = (dec ? a - 1 : a + 1) & m, f = szp(res, w);
    if (dec ? a == sb : res == sb) f |= F_O;
    if (dec ? !(a & 15) : (a & 15) == 15) f |= F_A;
    setf(c, F_P | F_A | F_Z | F_S | F_O, f, 0);
    return res;
}
static uint16_t shift(cpu *c, int op, uint16_t a, int n, int w) {
    int bits = w ? 16 : 8;
    uint32_t m = w ? 0xffff : 0xff, sb = w ? 0x8000 : 0x80;
    a &= m;
    if (!n) return a; /* flags unaffected */
    int cf = 0, i;
    uint32_t v = a;
    int one = n == 1;
    for (i = 0; i < n; ++i) {
        switch (op) {
        case 0: cf = !!(v & sb); v = ((v << 1) | cf) & m; break;                     /* ROL */
        case 1: cf = v & 1; v = (v >> 1) | (cf ? sb : 0); break;                      /* ROR */
        case 2: { int o = i ? cf : !!needf(c, F_C); cf = !!(v & sb); v = ((v << 1) | o) & m; } break; /* RCL */
        case 3: { int o = i ? cf : !!needf(c, F_C); cf = v & 1; v = (v >> 1) | (o ? sb : 0); } break; /* RCR */
        case 4: case 6: cf = !!(v & sb); v = (v << 1) & m; break;                     /* SHL */
        case 5: cf = v & 1; v >>= 1; break;                                           /* SHR */
        case 7: cf = v & 1; v = (v >> 1) | (v & sb); break;                           /* SAR */
        }
    }
    (void)bits;
    uint16_t f = cf ? F_C : 0;
    int of = 0;
    switch (op) {
    case 0: case 2: of = !!(v & sb) ^ cf; break;
    case 1: case 3: of = !!(v & sb) ^ !!(v & (sb >> 1)); break;
    case 4: case 6: of = !!(v & sb) ^ cf; break;
    case 5: of = !!(a & sb); break;
    case 7: of = 0; break;
    }
    if (of) f |= F_O;
    if (op < 4) setf(c, F_C | (one ? F_O : 0), f, one ? 0 : F_O);
    else setf(c, F_C | F_S | F_Z | F_P | (one ? F_O : 0), f | szp(v, w), F_A | (one ? 0 : F_O));
    return v;
}

static void str_adv(cpu *c, int reg, int w) { int d = w ? 2 : 1; c->r[reg] += c->fl & F_D ? -d : d; }

/* Execute one instruction. INT n is reported in is_int/intno, not executed. */
static void cpu_step(cpu *c) {
    c->start_ip = c->ip;
    c->has_modrm = 0; c->rep = 0; c->lock = 0; c->ilen = 0; c->seg_ovr = -1;
    c->is_call = c->is_ret = c->is_int = 0; c->err = 0; c->used_undef = 0;
    ea_t e;
    int w, op, nprefix = 0;
again:
    op = ifetch(c);
    if (op == 0xF2 || op == 0xF3) { c->rep = op; if (++nprefix > 4) { c->err = "prefix overflow"; return; } goto again; }
    if (op == 0x26 || op == 0x2E || op == 0x36 || op == 0x3E) { c->seg_ovr = (op >> 3) & 3; if (++nprefix > 4) { c->err = "prefix overflow"; return; } goto again; }
    if (op == 0xF0) { c->lock = 1; if (++nprefix > 4) { c->err = "prefix overflow"; return; } goto again; }
    c->op = op;
    w = op & 1;
    if (op < 0x40 && (op & 7) < 6) {
        int f = op >> 3, k = op & 7;
        uint16_t a, b;
        if (k < 4) {
            e = decode_ea(c);
            int rg = c->modrm >> 3 & 7;
            if (k & 2) { a = w ? c->r[rg] : gr8(c, rg); b = get_ea(c, &e, w); }
            else { a = get_ea(c, &e, w); b = w ? c->r[rg] : gr8(c, rg); }
            uint16_t res = alu(c, f, a, b, w);
            if (f != 7) {
                if (k & 2) { if (w) c->r[rg] = res; else sr8(c, rg, res); }
                else set_ea(c, &e, w, res);
            }
        } else {
            b = w ? ifetch16(c) : ifetch(c);
            a = w ? c->r[AX] : gr8(c, 0);
            uint16_t res = alu(c, f, a, b, w);
            if (f != 7) { if (w) c->r[AX] = res; else sr8(c, 0, res); }
        }
        return;
    }
    if (op < 0x40) {
        switch (op) {
        case 0x06: case 0x0E: case 0x16: case 0x1E: push(c, c->s[op >> 3]); return;
        case 0x07: case 0x17: case 0x1F: c->s[op >> 3] = pop(c); return;
        case 0x27: { /* DAA */
            uint8_t al = gr8(c, 0), old = al; int cf = !!needf(c, F_C), af = !!needf(c, F_A), nf = 0;
            if ((al & 15) > 9 || af) { al += 6; nf |= F_A; }
            if (old > 0x99 || cf) { al += 0x60; nf |= F_C; }
            sr8(c, 0, al); setf(c, F_C | F_A | F_S | F_Z | F_P, nf | szp(al, 0), F_O); return; }
        case 0x2F: {
            uint8_t al = gr8(c, 0), old = al; int cf = !!needf(c, F_C), af = !!needf(c, F_A), nf = 0;
            if ((al & 15) > 9 || af) { al -= 6; nf |= F_A; }
            if (old > 0x99 || cf) { al -= 0x60; nf |= F_C; }
            sr8(c, 0, al); setf(c, F_C | F_A | F_S | F_Z | F_P, nf | szp(al, 0), F_O); return; }
        case 0x37: case 0x3F: {
            uint8_t al = gr8(c, 0); int af = !!needf(c, F_A), nf = 0;
            if ((al & 15) > 9 || af) {
                if (op == 0x37) { al += 6; sr8(c, 4, gr8(c, 4) + 1); } else { al -= 6; sr8(c, 4, gr8(c, 4) - 1); }
                nf = F_A | F_C;
            }
            sr8(c, 0, al & 15); setf(c, F_C | F_A, nf, F_S | F_Z | F_P | F_O); return; }
        }
        c->err = "invalid opcode"; return;
    }
    if (op < 0x48) { c->r[op & 7] = incdec(c, c->r[op & 7], 0, 1); return; }
    if (op < 0x50) { c->r[op & 7] = incdec(c, c->r[op & 7], 1, 1); return; }
    if (op < 0x58) { if ((op & 7) == SP) { uint16_t v = c->r[SP] - 2; push(c, v); /* 8086: pushes decremented SP */ } else push(c, c->r[op & 7]); return; }
    if (op < 0x60) { uint16_t v = pop(c); c->r[op & 7] = v; return; }
    if (op < 0x70) { c->err = "invalid opcode"; return; }
    if (op < 0x80) { int8_t d = ifetch(c); if (jcc(c, op & 15)) c->ip += d; return; }
    if (op >= 0x90 && op < 0x98) { uint16_t t = c->r[AX]; c->r[AX] = c->r[op & 7]; c->r[op & 7] = t; return; }
    if (op >= 0xB0 && op < 0xB8) { sr8(c, op & 7, ifetch(c)); return; }
    if (op >= 0xB8 && op < 0xC0) { c->r[op & 7] = ifetch16(c); return; }
    switch (op) {
    case 0x80: case 0x81: case 0x82: case 0x83: {
        e = decode_ea(c);
        uint16_t b = op == 0x81 ? ifetch16(c) : (uint16_t)(int8_t)ifetch(c);
        int f = c->modrm >> 3 & 7;
        uint16_t res = alu(c, f, get_ea(c, &e, w), b, w);
        if (f != 7) set_ea(c, &e, w, res);
        return; }
    case 0x84: case 0x85:
        e = decode_ea(c); alu(c, 4, get_ea(c, &e, w), w ? c->r[c->modrm >> 3 & 7] : gr8(c, c->modrm >> 3 & 7), w); return;
    case 0x86: case 0x87: {
        e = decode_ea(c); int rg = c->modrm >> 3 & 7;
        uint16_t a = get_ea(c, &e, w), b = w ? c->r[rg] : gr8(c, rg);
        set_ea(c, &e, w, b); if (w) c->r[rg] = a; else sr8(c, rg, a); return; }
    case 0x88: case 0x89: e = decode_ea(c); set_ea(c, &e, w, w ? c->r[c->modrm >> 3 & 7] : gr8(c, c->modrm >> 3 & 7)); return;
    case 0x8A: case 0x8B: { e = decode_ea(c); uint16_t v = get_ea(c, &e, w); if (w) c->r[c->modrm >> 3 & 7] = v; else sr8(c, c->modrm >> 3 & 7, v); return; }
    case 0x8C: e = decode_ea(c); if (c->modrm & 0x20) { c->err = "invalid opcode"; return; } set_ea(c, &e, 1, c->s[c->modrm >> 3 & 3]); return;
    case 0x8D: e = decode_ea(c); if (e.isreg) { c->err = "invalid opcode"; return; } c->r[c->modrm >> 3 & 7] = e.off; return;
    case 0x8E: e = decode_ea(c); if ((c->modrm & 0x20) || (c->modrm >> 3 & 7) == CS) { c->err = "invalid opcode"; return; } c->s[c->modrm >> 3 & 3] = get_ea(c, &e, 1); return;
    case 0x8F: e = decode_ea(c); { uint16_t v = pop(c); set_ea(c, &e, 1, v); } return;
    case 0x98: c->r[AX] = (int8_t)c->r[AX]; return;
    case 0x99: c->r[DX] = c->r[AX] & 0x8000 ? 0xffff : 0; return;
    case 0x9A: { uint16_t o = ifetch16(c), s = ifetch16(c); push(c, c->s[CS]); push(c, c->ip); c->ip = o; c->s[CS] = s; return; }
    case 0x9B: return;
    case 0x9C: push(c, (c->fl & 0xfd5) | 0xf002); return;
    case 0x9D: c->fl = pop(c) & 0xfd5; c->undef = 0; return;
    case 0x9E: setf(c, F_S | F_Z | F_A | F_P | F_C, gr8(c, 4), 0); return;
    case 0x9F: sr8(c, 4, (c->fl & 0xd5) | 2); return;
    case 0xA0: case 0xA1: { uint16_t o = ifetch16(c), s = c->s[c->seg_ovr >= 0 ? c->seg_ovr : DS]; if (w) c->r[AX] = rd16(c, s, o); else sr8(c, 0, rd8(c, s, o)); return; }
    case 0xA2: case 0xA3: { uint16_t o = ifetch16(c), s = c->s[c->seg_ovr >= 0 ? c->seg_ovr : DS]; if (w) wr16(c, s, o, c->r[AX]); else wr8(c, s, o, gr8(c, 0)); return; }
    case 0xA8: case 0xA9: { uint16_t b = w ? ifetch16(c) : ifetch(c); alu(c, 4, c->r[AX], b, w); return; }
    case 0xA4: case 0xA5: case 0xA6: case 0xA7: case 0xAA: case 0xAB: case 0xAC: case 0xAD: case 0xAE: case 0xAF: {
        uint16_t sseg = c->s[c->seg_ovr >= 0 ? c->seg_ovr : DS];
        for (;;) {
            if (c->rep && !c->r[CX]) break;
            switch (op & 0xfe) {
            case 0xA4: if (w) wr16(c, c->s[ES], c->r[DI], rd16(c, sseg, c->r[SI])); else wr8(c, c->s[ES], c->r[DI], rd8(c, sseg, c->r[SI])); str_adv(c, SI, w); str_adv(c, DI, w); break;
            case 0xA6: { uint16_t a = w ? rd16(c, sseg, c->r[SI]) : rd8(c, sseg, c->r[SI]), b = w ? rd16(c, c->s[ES], c->r[DI]) : rd8(c, c->s[ES], c->r[DI]); alu(c, 7, a, b, w); str_adv(c, SI, w); str_adv(c, DI, w); } break;
            case 0xAA: if (w) wr16(c, c->s[ES], c->r[DI], c->r[AX]); else wr8(c, c->s[ES], c->r[DI], gr8(c, 0)); str_adv(c, DI, w); break;
            case 0xAC: if (w) c->r[AX] = rd16(c, sseg, c->r[SI]); else sr8(c, 0, rd8(c, sseg, c->r[SI])); str_adv(c, SI, w); break;
            case 0xAE: { uint16_t b = w ? rd16(c, c->s[ES], c->r[DI]) : rd8(c, c->s[ES], c->r[DI]); alu(c, 7, c->r[AX], b, w); str_adv(c, DI, w); } break;
            }
            if (!c->rep) break;
            c->r[CX]--;
            if ((op & 0xf6) == 0xA6) { int z = !!(c->fl & F_Z); if (z != (c->rep == 0xF3)) break; }
        }
        return; }
    case 0xC2: { uint16_t n = ifetch16(c); c->is_ret = 1; c->ip = pop(c); c->r[SP] += n; return; }
    case 0xC3: c->is_ret = 1; c->ip = pop(c); return;
    case 0xCA: case 0xCB: { uint16_t n = op == 0xCA ? ifetch16(c) : 0; c->ip = pop(c); c->s[CS] = pop(c); c->r[SP] += n; return; }
    case 0xC4: case 0xC5: { e = decode_ea(c); if (e.isreg) { c->err = "invalid opcode"; return; } c->r[c->modrm >> 3 & 7] = rd16(c, e.seg, e.off); c->s[op == 0xC4 ? ES : DS] = rd16(c, e.seg, e.off + 2); return; }
    case 0xC6: case 0xC7: { e = decode_ea(c); if (c->modrm >> 3 & 7) { c->err = "invalid opcode"; return; } uint16_t v = w ? ifetch16(c) : ifetch(c); set_ea(c, &e, w, v); return; }
    case 0xCC: c->is_int = 1; c->intno = 3; return;
    case 0xCD: c->intno = ifetch(c); c->is_int = 1; return;
    case 0xCE: if (needf(c, F_O)) { c->is_int = 1; c->intno = 4; } return;
    case 0xCF: c->ip = pop(c); c->s[CS] = pop(c); c->fl = pop(c) & 0xfd5; c->undef = 0; return;
    case 0xD0: case 0xD1: { e = decode_ea(c); if ((c->modrm >> 3 & 7) == 6) { c->err = "invalid opcode"; return; } set_ea(c, &e, w, shift(c, c->modrm >> 3 & 7, get_ea(c, &e, w), 1, w)); return; }
    case 0xD2: case 0xD3: { e = decode_ea(c); if ((c->modrm >> 3 & 7) == 6) { c->err = "invalid opcode"; return; } set_ea(c, &e, w, shift(c, c->modrm >> 3 & 7, get_ea(c, &e, w), c->r[CX] & 0xff, w)); return; }
    case 0xD4: { uint8_t b = ifetch(c); if (!b) { c->err = "divide error"; return; } uint8_t al = gr8(c, 0); sr8(c, 4, al / b); sr8(c, 0, al % b); setf(c, F_S | F_Z | F_P, szp(gr8(c, 0), 0), F_C | F_A | F_O); return; }
    case 0xD5: { uint8_t b = ifetch(c); uint8_t al = gr8(c, 0) + gr8(c, 4) * b; c->r[AX] = al; setf(c, F_S | F_Z | F_P, szp(al, 0), F_C | F_A | F_O); return; }
    case 0xD7: sr8(c, 0, rd8(c, c->s[c->seg_ovr >= 0 ? c->seg_ovr : DS], c->r[BX] + gr8(c, 0))); return;
    case 0xE0: case 0xE1: { int8_t d = ifetch(c); c->r[CX]--; int z = !!needf(c, F_Z); if (c->r[CX] && z == (op == 0xE1)) c->ip += d; return; }
    case 0xE2: { int8_t d = ifetch(c); if (--c->r[CX]) c->ip += d; return; }
    case 0xE3: { int8_t d = ifetch(c); if (!c->r[CX]) c->ip += d; return; }
    case 0xE4: case 0xE5: { int p = ifetch(c), v = c->on_in ? c->on_in(c, p, w) : 0xffff; if (w) c->r[AX] = v; else sr8(c, 0, v); return; }
    case 0xEC: case 0xED: { int v = c->on_in ? c->on_in(c, c->r[DX], w) : 0xffff; if (w) c->r[AX] = v; else sr8(c, 0, v); return; }
    case 0xE6: case 0xE7: { int p = ifetch(c); if (c->on_out) c->on_out(c, p, w ? c->r[AX] : gr8(c, 0), w); return; }
    case 0xEE: case 0xEF: if (c->on_out) c->on_out(c, c->r[DX], w ? c->r[AX] : gr8(c, 0), w); return;
    case 0xE8: { uint16_t d = ifetch16(c); c->is_call = 1; c->call_sp = c->r[SP]; c->call_ret = c->ip; push(c, c->ip); c->ip += d; return; }
    case 0xE9: { uint16_t d = ifetch16(c); c->ip += d; return; }
    case 0xEA: { uint16_t o = ifetch16(c), s = ifetch16(c); c->ip = o; c->s[CS] = s; return; }
    case 0xEB: { int8_t d = ifetch(c); c->ip += d; return; }
    case 0xF4: c->err = "hlt"; return;
    case 0xF5: setf(c, F_C, needf(c, F_C) ^ F_C, 0); return;
    case 0xF6: case 0xF7: {
        e = decode_ea(c);
        int f = c->modrm >> 3 & 7;
        uint16_t a = get_ea(c, &e, w);
        switch (f) {
        case 0: { uint16_t b = w ? ifetch16(c) : ifetch(c); alu(c, 4, a, b, w); return; }
        case 1: c->err = "invalid opcode"; return;
        case 2: set_ea(c, &e, w, ~a); return;
        case 3: set_ea(c, &e, w, alu(c, 5, 0, a, w)); return;
        case 4: case 5: {
            uint16_t nf = 0;
            if (w) {
                uint32_t p = f == 4 ? (uint32_t)c->r[AX] * a : (uint32_t)((int32_t)(int16_t)c->r[AX] * (int16_t)a);
                c->r[AX] = p; c->r[DX] = p >> 16;
                if (f == 4 ? c->r[DX] != 0 : (int32_t)p != (int16_t)p) nf = F_C | F_O;
            } else {
                uint16_t p = f == 4 ? gr8(c, 0) * (a & 0xff) : (uint16_t)((int8_t)gr8(c, 0) * (int8_t)a);
                c->r[AX] = p;
                if (f == 4 ? p >> 8 : (int16_t)p != (int8_t)p) nf = F_C | F_O;
            }
            setf(c, F_C | F_O, nf, F_S | F_Z | F_P | F_A);
            return; }
        case 6:
            if (w) {
                uint32_t n = (uint32_t)c->r[DX] << 16 | c->r[AX];
                if (!a || n / a > 0xffff) { c->err = "divide error"; return; }
                c->r[AX] = n / a; c->r[DX] = n % a;
            } else {
                uint16_t n = c->r[AX]; a &= 0xff;
                if (!a || n / a > 0xff) { c->err = "divide error"; return; }
                sr8(c, 0, n / a); sr8(c, 4, n % a);
            }
            setf(c, 0, 0, F_ALL);
            return;
        case 7:
            if (w) {
                int64_t n = (int32_t)((uint32_t)c->r[DX] << 16 | c->r[AX]), d = (int16_t)a;
                if (!d || n / d > 32767 || n / d < -32768) { c->err = "divide error"; return; }
                c->r[AX] = n / d; c->r[DX] = n % d;
            } else {
                int n = (int16_t)c->r[AX], d = (int8_t)a;
                if (!d || n / d > 127 || n / d < -128) { c->err = "divide error"; return; }
                sr8(c, 0, n / d); sr8(c, 4, n % d);
            }
            setf(c, 0, 0, F_ALL);
            return;
        }
        return; }
    case 0xF8: setf(c, F_C, 0, 0); return;
    case 0xF9: setf(c, F_C, F_C, 0); return;
    case 0xFA: c->fl &= ~F_I; return;
    case 0xFB: c->fl |= F_I; return;
    case 0xFC: c->fl &= ~F_D; return;
    case 0xFD: c->fl |= F_D; return;
    case 0xFE: case 0xFF: {
        e = decode_ea(c);
        int f = c->modrm >> 3 & 7;
        if (f < 2) { set_ea(c, &e, w, incdec(c, get_ea(c, &e, w), f, w)); return; }
        if (op == 0xFE) { c->err = "invalid opcode"; return; }
        switch (f) {
        case 2: { uint16_t t = get_ea(c, &e, 1); c->is_call = 1; c->call_sp = c->r[SP]; c->call_ret = c->ip; push(c, c->ip); c->ip = t; return; }
        case 4: c->ip = get_ea(c, &e, 1); return;
        case 3: case 5: { if (e.isreg) break; uint16_t o = rd16(c, e.seg, e.off), s = rd16(c, e.seg, e.off + 2); if (f == 3) { push(c, c->s[CS]); push(c, c->ip); } c->ip = o; c->s[CS] = s; return; }
        case 6: push(c, get_ea(c, &e, 1)); return;
        }
        c->err = "invalid opcode"; return; }
    }
    c->err = "invalid opcode";
}
#endif
