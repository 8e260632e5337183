/* em86 - runs a DOS .COM program on the reference 8086 core with monitors.
 *
 *   em86 [-s seed] [-n maxsteps] [-m map] [-r report.json] [-z] [-k keys] prog.com [args...]
 *
 * Program output (INT 21h AH=02/09 and writes to handles 1,2) goes to stdout.
 * Only plain file names in the current directory can be opened or created.
 * The report says how the program ended and what the monitors observed.
 */
#include "core.h"
#include <stdarg.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

#define SEG 0x2000
static cpu C;
static uint8_t MEM[1 << 20], EXEC[65536], WRITTEN[65536];
static FILE *out;
static char outbuf[1 << 16];
static long long out_bytes, max_out = 8 << 20;
static unsigned stack_low = 0;
static int ebss = 0, sbss = 0, image_end;
static int min_sp = 0x10000, raw;
static long long steps, calls, rets, undef_reads, ints, selfmod;
static int max_depth;
static struct { uint16_t ret, sp, bp, from; } shadow[8192];
static int depth;
static char viol[32][200];
static int nviol;
static const char *ended = "?";
static int exitcode = -1;
static long long farw;
static const char *fault = "";
static int vmode = 3, vmodes[64], nvmodes;
static int keys[65536], keypos, nkeys, nopolls; /* -k file: hexadecimal key codes, '.' = no key at this poll */
static FILE *frames_f; static long nframe;       /* -d file: font, then (key, frame buffer) whenever a key is taken, FFFF at a mode change */
static unsigned inrng = 88172645;
static long long ins, polls;
static long long vram_w, other_w;
static uint32_t win_lo = 0, win_hi = 0; /* -w lo-hi allowed far-write window (linear) */
static uint8_t opseen[256][9];
static unsigned rng = 12345;
static unsigned rnd(void) { rng ^= rng << 13; rng ^= rng >> 17; rng ^= rng << 5; return rng; }

static void violation(const char *fmt, ...) {
    va_list vl;
    if (nviol >= 32) return;
    va_start(vl, fmt);
    vsnprintf(viol[nviol++], 200, fmt, vl);
    va_end(vl);
}

static void on_write(cpu *c, uint32_t a, uint16_t seg, uint16_t off) {
    (void)off; (void)seg;
    uint32_t base = SEG << 4;
    if (a >= base && a < base + 0x10000) {
        uint32_t o = a - base;
        if (EXEC[o] && ++selfmod == 1) violation("write to executed code at %04X from %04X", o, c->start_ip);
        WRITTEN[o] = 1;
    } else {
        farw++;
        if (a >= win_lo && a < win_hi) vram_w++;
        else if (++other_w == 1 && win_hi) violation("write outside program and window at %05X from %04X", a, c->start_ip);
    }
}
static void on_exec(cpu *c, uint32_t a) {
    uint32_t base = SEG << 4;
    if (a < base || a >= base + 0x10000) { violation("executing outside program segment at %05X", a); c->err = "wild execution"; return; }
    uint32_t o = a - base;
    if (!EXEC[o]) {
        EXEC[o] = 1;
        if (WRITTEN[o] || (o >= (uint32_t)image_end) || o < 0x100) { if (o > 2) violation("executing non-code byte at %04X", o); }
    }
}

static int fds[32]; static uint8_t created[32];
/* -F n:mode: the n-th file operation fails (e: error, d: disk full, a write takes half of the data) */
static int fault_at, file_ops, disk_full; static char fault_mode;
static int file_fault(void) { return ++file_ops == fault_at ? fault_mode : 0; }
static int dosfd(int h) { return h >= 0 && h < 32 ? fds[h] : -1; }
static void emitc(int ch) { if (out_bytes++ < max_out) fputc(ch, out); }

static int getname(char *buf, uint16_t seg, uint16_t off) {
    int i;
    for (i = 0; i < 127; ++i) { buf[i] = MEM[lin(seg, off + i)]; if (!buf[i]) break; }
    buf[127] = 0;
    if (i == 127 || !i || strchr(buf, '/') || strchr(buf, '\\') || !strcmp(buf, ".") || !strcmp(buf, "..")) return -1;
    return 0;
}

/* ---- comparison with the trace of "sim86 -v" (-t file) ----
 * Each record is a line "IIII TEXT" and two lines with the state after the
 * instruction. Values the 8086 or DOS does not define are taken over. */
static FILE *trf;
static char trtext[300];
static struct { unsigned start, r[8], s[4], ip, fl; } T;
static long long compared, adopted_fl;
static int skip_out, adopt_al, adopt_ax, adopt_handle;
static int outch, outpr; /* character shown by "Output: 0xNN (c)" */
static int tr_next(void) {
    static char line[4096];
    for (;;) {
        if (!fgets(line, sizeof line, trf)) return 0;
        char *p = line;
        if (!strncmp(p, "Output: 0x", 10) && strlen(p) > 16) { outch = strtoul(p + 8, 0, 16); outpr = (unsigned char)p[14]; p += 16; }
        unsigned st; char *e;
        st = strtoul(p, &e, 16);
        if (e != p + 4 || *e != ' ' || e[1] < 'A' || e[1] > 'Z') continue;
        snprintf(trtext, sizeof trtext, "%s", e + 1);
        trtext[strcspn(trtext, "\n")] = 0;
        T.start = st;
        char o[3], n[3], z[3], cy[3];
        if (fscanf(trf, "AX=%x BX=%x CX=%x DX=%x SP=%x BP=%x SI=%x DI=%x DS=%x ES=%x SS=%x CS=%x IP=%x %2s %2s %2s %2s",
                   &T.r[AX], &T.r[BX], &T.r[CX], &T.r[DX], &T.r[SP], &T.r[BP], &T.r[SI], &T.r[DI], &T.s[DS], &T.s[ES], &T.s[SS], &T.s[CS], &T.ip, o, n, z, cy) != 17 || fgetc(trf) == EOF) return 0; /* (a trace may be cut anywhere) */
        T.fl = (!strcmp(o, "OV") ? F_O : 0) | (!strcmp(n, "NG") ? F_S : 0) | (!strcmp(z, "ZR") ? F_Z : 0) | (!strcmp(cy, "CY") ? F_C : 0);
        return 1;
    }
}
static int tr_cmp(cpu *c) { /* 0 = go on */
    static const char *rn[] = { "AX", "CX", "DX", "BX", "SP", "BP", "SI", "DI" }, *sn[] = { "ES", "CS", "SS", "DS" };
    int i, skipped = skip_out;
    if (skip_out) { fseek(trf, skip_out, SEEK_CUR); skip_out = 0; } /* output of the program itself */
    outch = -1;
    if (!tr_next()) { ended = "trace-end"; return 1; }
    compared++;
    if (adopt_al) {
        int ch = c->r[DX] & 0xff;
        if (outch != ch) violation("step %lld %04X %s: the trace shows output %d, the program wrote %d", compared, c->start_ip, trtext, outch, ch);
        else if (outpr != (ch >= 32 && ch < 127 ? ch : outpr)) violation("step %lld %04X %s: the trace shows %d for character %d", compared, c->start_ip, trtext, outpr, ch);
    } else if (outch != -1 && !skipped) violation("step %lld %04X %s: the trace shows output that the program didn't write", compared, c->start_ip, trtext);
    if (adopt_al) sr8(c, 0, T.r[AX]);
    if (adopt_ax) c->r[AX] = T.r[AX];
    if (adopt_handle) {
        int h = c->r[AX], n = T.r[AX];
        if (n != h) {
            if (n < 0 || n >= 32 || n < 3 || (n > 4 && fds[n] >= 0)) violation("step %lld: open gives handle %d which is already in use", compared, n);
            else { fds[n] = fds[h]; created[n] = created[h]; fds[h] = -1; c->r[AX] = n; }
        }
    }
    uint16_t u = c->undef & (F_C | F_Z | F_S | F_O);
    if ((c->fl ^ T.fl) & u) adopted_fl++;
    c->fl = (c->fl & ~u) | (T.fl & u);
    c->undef = 0;
    adopt_al = adopt_ax = adopt_handle = 0;
    if (T.start != c->start_ip) violation("step %lld: executed %04X (%s), expected instruction at %04X", compared, T.start, trtext, c->start_ip);
    for (i = 0; i < 8; ++i) if (T.r[i] != c->r[i]) violation("step %lld %04X %s: %s=%04X, 8086 has %04X", compared, c->start_ip, trtext, rn[i], T.r[i], c->r[i]);
    for (i = 0; i < 4; ++i) if (T.s[i] != c->s[i]) violation("step %lld %04X %s: %s=%04X, 8086 has %04X", compared, c->start_ip, trtext, sn[i], T.s[i], c->s[i]);
    if (T.ip != c->ip) violation("step %lld %04X %s: IP=%04X, 8086 has %04X", compared, c->start_ip, trtext, T.ip, c->ip);
    u = (T.fl ^ c->fl) & (F_C | F_Z | F_S | F_O);
    if (u) violation("step %lld %04X %s: flag(s)%s%s%s%s are %s, opposite on the 8086", compared, c->start_ip, trtext, u & F_O ? " OF" : "", u & F_S ? " SF" : "", u & F_Z ? " ZF" : "", u & F_C ? " CF" : "",
                      (T.fl & u) == u ? "set" : (T.fl & u) ? "mixed" : "clear");
    if (nviol) { ended = "differs"; return 1; }
    return 0;
}

/* -i file: the bytes of every instruction executed, with its text in the trace */
static FILE *ilog;
static uint8_t ibytes[16]; static int nib; static uint16_t ibip;
static void log_inst(cpu *c) { /* decode length again from the fetches counted by the core */
    int i;
    nib = c->ilen > 15 ? 15 : c->ilen; ibip = c->start_ip;
    for (i = 0; i < nib; ++i) ibytes[i] = c->ibytes[i];
}
static void put_inst(void) {
    int i;
    fprintf(ilog, "%04X ", ibip);
    for (i = 0; i < nib; ++i) fprintf(ilog, "%02X", ibytes[i]);
    fprintf(ilog, " %s\n", trtext);
}

/* per-address memory access counts (-p file) */
static long long acc[65536], exn[65536]; static uint8_t isint[65536];

/* frames (BP, IP) at the lowest stack level, as far as the BP chain goes */
static int frames[50][2], nframes;
static void record_stack(void) {
    int bp = C.r[BP], ip = C.ip;
    for (nframes = 0; bp && nframes < 50; nframes++) {
        frames[nframes][0] = bp; frames[nframes][1] = ip;
        ip = MEM[lin(C.s[SS], bp + 2)] | MEM[lin(C.s[SS], bp + 3)] << 8;
        bp = MEM[lin(C.s[SS], bp)] | MEM[lin(C.s[SS], bp + 1)] << 8;
    }
}

static void put_frame(int key) {
    if (!frames_f) return;
    if (!nframe++) fwrite(MEM + 0xFFA6E, 1, 1024, frames_f);
    fputc(key & 0xff, frames_f); fputc(key >> 8 & 0xff, frames_f);
    fwrite(MEM + 0xB8000, 1, 0x4000, frames_f);
}

/* returns 0 to go on, 1 when the program ended */
static int dos(cpu *c) {
    ints++;
    if (raw && c->intno != 0x20 && c->intno != 0x21) { ended = "badint"; return 1; }
    if (c->intno == 0x20) { ended = "int20"; exitcode = 0; return 1; }
    if (c->intno == 0x10) { /* video */
        int ah = c->r[AX] >> 8;
        if (ah == 0) {
            unsigned k;
            int al = c->r[AX] & 0xff;
            put_frame(0xffff);
            vmode = al & 0x7f;
            if (nvmodes < 64) vmodes[nvmodes++] = vmode;
            if (!(al & 0x80)) for (k = 0; k < 0x4000; ++k) MEM[0xB8000 + k] = vmode >= 4 && vmode != 7 ? 0 : k & 1 ? 7 : ' ';
            sr8(c, 0, vmode > 7 ? 0x20 : vmode == 6 ? 0x3f : 0x30); /* as many BIOSes return */
        }
        else if (ah == 0x0f) { c->r[AX] = 80 << 8 | vmode; sr8(c, 7, 0); }
        else if (ah == 0x0e) emitc(c->r[AX] & 0xff);
        return 0;
    }
    if (c->intno == 0x16) {
        int ah = c->r[AX] >> 8;
        if (ah == 1) {
            polls++;
            if (keypos < nkeys && keys[keypos] >= 0) { c->fl &= ~F_Z; c->r[AX] = keys[keypos]; }
            else {
                if (keypos < nkeys) keypos++;
                else if (++nopolls > 20) { ended = "nokeys"; return 1; }
                c->fl |= F_Z;
            }
            c->undef = 0;
            return 0;
        }
        if (ah == 0) {
            while (keypos < nkeys && keys[keypos] < 0) keypos++;
            if (keypos >= nkeys) { ended = "nokeys"; return 1; }
            put_frame(keys[keypos]);
            c->r[AX] = keys[keypos++];
            return 0;
        }
    }
    if (c->intno != 0x21) { violation("unexpected INT %02X at %04X", c->intno, c->start_ip); ended = "badint"; return 1; }
    int ah = c->r[AX] >> 8, ok = 1, res = 0;
    char name[128];
    switch (ah) {
    case 0x02: emitc(c->r[DX] & 0xff); sr8(c, 0, c->r[DX] & 0xff); adopt_al = 1; return 0;
    case 0x09: { int i; for (i = 0; i < 65536; ++i) { int ch = MEM[lin(c->s[DS], c->r[DX] + i)]; if (ch == '$') break; emitc(ch); } return 0; }
    case 0x25: return 0;
    case 0x35: c->r[BX] = 0; c->s[ES] = 0; return 0;
    case 0x2C: c->r[CX] = 0; c->r[DX] = (steps >> 10) & 0x3f; return 0;
    case 0x30: c->r[AX] = 0x0005; return 0;
    case 0x3C: case 0x3D: {
        int hit = file_fault();
        if (hit == 'e' || (hit == 'd' && ah == 0x3C)) { ok = 0; res = 5; break; }
        if (getname(name, c->s[DS], c->r[DX])) { ok = 0; res = 3; break; }
        struct stat st;
        int h, i, fd;
        if (ah == 0x3D && (stat(name, &st) || !S_ISREG(st.st_mode))) { ok = 0; res = 2; break; }
        for (h = 5, i = -1; h < 32; ++h) if (fds[h] < 0) { i = h; break; }
        if (i < 0) { ok = 0; res = 4; break; }
        if (ah == 0x3D) fd = open(name, (c->r[AX] & 3) == 0 ? O_RDONLY : (c->r[AX] & 3) == 1 ? O_WRONLY : O_RDWR);
        else fd = open(name, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0) { ok = 0; res = 5; break; }
        fds[h] = fd; created[h] = ah == 0x3C; res = h; adopt_handle = 1;
        break; }
    case 0x3E: { int h = c->r[BX]; if (dosfd(h) < 0) { ok = 0; res = 6; } else { if (h > 4) close(fds[h]); fds[h] = -1; } break; }
    case 0x3F: {
        if (raw && (c->r[DX] + c->r[CX] > 65536 || (c->s[DS] << 4) + c->r[DX] + c->r[CX] > 1 << 20)) { ended = "unjudged"; return 1; }
        int fd = dosfd(c->r[BX]);
        if (raw && fd >= 0 && created[c->r[BX]]) { ended = "unjudged"; return 1; } /* sim86 opens created files for writing only */
        uint8_t tmp[65536];
        if (fd < 0) { ok = 0; res = 6; break; }
        if (c->r[BX] > 4 && file_fault() == 'e') { ok = 0; res = 5; break; }
        int n = c->r[BX] < (raw ? 1 : 3) && !(raw && c->r[BX] == 0) ? 0 : read(fd, tmp, c->r[CX]), i;
        if (n < 0) { ok = 0; res = 5; break; }
        for (i = 0; i < n; ++i) { uint32_t a = lin(c->s[DS], c->r[DX] + i); if (c->on_write) on_write(c, a, c->s[DS], c->r[DX] + i); MEM[a] = tmp[i]; }
        res = n;
        break; }
    case 0x40: {
        if (raw && (c->r[DX] + c->r[CX] > 65536 || (c->s[DS] << 4) + c->r[DX] + c->r[CX] > 1 << 20)) { ended = "unjudged"; return 1; }
        int h = c->r[BX], fd = dosfd(h), i, n = c->r[CX];
        uint8_t tmp[65536];
        if (fd < 0) { ok = 0; res = 6; break; }
        if (h > 4) {
            int hit = file_fault();
            if (hit == 'e') { ok = 0; res = 5; break; }
            if (hit == 'd') { disk_full = 1; n /= 2; if (n && write(fd, MEM + lin(c->s[DS], c->r[DX]), n) != n) violation("write"); res = n; break; }
        }
        for (i = 0; i < n; ++i) tmp[i] = MEM[lin(c->s[DS], c->r[DX] + i)];
        if (raw && h == 2) { res = write(2, tmp, n); }
        else if (h == 1 || h == 2) { for (i = 0; i < n; ++i) emitc(tmp[i]); res = n; if (h == 1) skip_out = n; }
        else { out_bytes += n; res = disk_full || out_bytes > max_out ? 0 : write(fd, tmp, n); if (res < 0) { ok = 0; res = 5; } }
        break; }
    case 0x4C: ended = "exit"; exitcode = c->r[AX] & 0xff; return 1;
    default: if (!raw) violation("unexpected INT 21h/AH=%02X at %04X", ah, c->start_ip); ended = "badint"; return 1;
    }
    if (!ok || ah == 0x3E) adopt_ax = 1;
    c->r[AX] = res;
    if (ok) c->fl &= ~F_C; else c->fl |= F_C;
    c->undef &= ~F_C;
    return 0;
}
static int on_in(cpu *c, int port, int w) { (void)w; (void)c; ins++; inrng ^= inrng << 13; inrng ^= inrng >> 17; inrng ^= inrng << 5; if (port == 0x3DA) return (inrng >> 8 & 1) ? 9 | (inrng >> 9 & 0xf6) : inrng >> 9 & 0xf7; return inrng >> 8 & 0xff; }
static void on_out(cpu *c, int port, int val, int w) { (void)c; (void)port; (void)val; (void)w; }

static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; ++s) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); } fputc('"', f); }

int main(int argc, char **argv) {
    int i = 1, zero = 0, bios_clock = -1;
    long long maxsteps = 20000000;
    const char *map = 0, *rep = 0, *prof = 0;
    for (; i < argc && argv[i][0] == '-'; ++i) {
        if (!strcmp(argv[i], "-s")) rng = 2654435761u * (atoi(argv[++i]) + 1) | 1;
        else if (!strcmp(argv[i], "-n")) maxsteps = atoll(argv[++i]);
        else if (!strcmp(argv[i], "-m")) map = argv[++i];
        else if (!strcmp(argv[i], "-r")) rep = argv[++i];
        else if (!strcmp(argv[i], "-k")) {
            FILE *kf = fopen(argv[++i], "r");
            char w[32];
            if (!kf) return 2;
            while (nkeys < 65536 && fscanf(kf, "%31s", w) == 1) keys[nkeys++] = w[0] == '.' ? -1 : (int)strtol(w, 0, 16) & 0xffff;
            fclose(kf);
        }
        else if (!strcmp(argv[i], "-d")) { frames_f = fopen(argv[++i], "wb"); if (!frames_f) return 2; }
        else if (!strcmp(argv[i], "-c")) bios_clock = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-v")) vmode = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-w")) sscanf(argv[++i], "%x-%x", &win_lo, &win_hi);
        else if (!strcmp(argv[i], "-F")) sscanf(argv[++i], "%d:%c", &fault_at, &fault_mode);
        else if (!strcmp(argv[i], "-z")) zero = 1;
        else if (!strcmp(argv[i], "-L")) sscanf(argv[++i], "%x", &stack_low); /* lowest address the stack may use, if not the end of data */
        else if (!strcmp(argv[i], "-t")) { trf = fopen(argv[++i], "r"); if (!trf) return 2; }
        else if (!strcmp(argv[i], "-u")) raw = 1;
        else if (!strcmp(argv[i], "-i")) { ilog = fopen(argv[++i], "w"); if (!ilog) return 2; }
        else if (!strcmp(argv[i], "-p")) prof = argv[++i];
        else return 2;
    }
    if (i >= argc) return 2;
    if (raw) { max_out = 1LL << 40; signal(SIGXFSZ, SIG_IGN); }
    out = stdout;
    setvbuf(out, outbuf, _IOFBF, sizeof outbuf);
    uint32_t base = SEG << 4;
    if (!zero) { unsigned k; for (k = 0; k < sizeof MEM; ++k) MEM[k] = rnd() >> 11; }
    if (bios_clock >= 0) { MEM[0x46C] = bios_clock; MEM[0x46D] = bios_clock >> 8; }
    FILE *f = fopen(argv[i], "rb");
    if (!f) return 2;
    int n = fread(MEM + base + 0x100, 1, 65536 - 0x100, f);
    fclose(f);
    image_end = 0x100 + n;
    if (map && (f = fopen(map, "r"))) {
        char nm[300]; unsigned a;
        while (fscanf(f, "%x %299s", &a, nm) == 2) { if (!strcmp(nm, "_EBSS")) ebss = a; if (!strcmp(nm, "_SBSS")) sbss = a; }
        fclose(f);
    }
    memset(MEM + base, 0, 0x100);
    MEM[base] = 0xCD; MEM[base + 1] = 0x20; MEM[base + 2] = 0; MEM[base + 3] = trf ? 0x30 : 0xA0;
    int p = 0, j;
    for (j = i + 1; j < argc; ++j) { const char *s = argv[j]; if (p < 126) MEM[base + 0x81 + p++] = ' '; while (*s && p < 126) MEM[base + 0x81 + p++] = *s++; }
    MEM[base + 0x80] = p; MEM[base + 0x81 + p] = '\r';
    C.mem = MEM;
    if (!raw) { C.on_write = on_write; C.on_exec = on_exec; }
    C.on_in = on_in; C.on_out = on_out;
    for (j = 0; j < 4; ++j) C.s[j] = SEG;
    for (j = 0; j < 8; ++j) C.r[j] = zero ? 0 : rnd() >> 8;
    C.r[SP] = 0; C.r[SP] -= 2; MEM[base + 0xFFFE] = MEM[base + 0xFFFF] = 0;
    C.ip = 0x100; C.fl = F_I; C.undef = zero ? 0 : F_ALL;
    for (j = 0; j < 32; ++j) fds[j] = j < 5 ? j : -1;
    uint32_t lowlimit = stack_low ? stack_low : ebss ? (uint32_t)ebss : (uint32_t)image_end;
    while (steps < maxsteps) {
        uint16_t bp0 = C.r[BP];
        long long m0 = C.mem_r + C.mem_w;
        C.err = 0;
        int cl = C.r[CX] & 0xff;
        if (raw && C.r[SP] && C.r[SP] < min_sp) { min_sp = C.r[SP]; if (prof && min_sp < 0xffff) record_stack(); }
        cpu_step(&C);
        if (ilog && !C.err) log_inst(&C);
        steps++;
        opseen[C.op][C.has_modrm ? 1 + (C.modrm >> 3 & 7) : 0] = 1;
        exn[C.start_ip]++;
        acc[C.start_ip] += C.mem_r + C.mem_w - m0;
        if (C.is_int) isint[C.start_ip] |= 1;
        if (C.op == 0xd3 && !cl) isint[C.start_ip] |= 2; /* a shift by 0 need not access its operand */
        if (raw && C.op == 0x54) { ended = "unjudged"; break; } /* PUSH SP: 8086 and 80286 differ */
        if (C.err && raw) { ended = "fault"; fault = C.err; break; }
        if (C.err) { violation("%s at %04X", C.err, C.start_ip); ended = "fault"; break; }
        if (raw) {
            if (C.is_int && dos(&C)) break;
            if (trf && tr_cmp(&C)) break;
            if (ilog && trf) put_inst();
            continue;
        }
        if (C.used_undef) { if (++undef_reads == 1) violation("undefined flag(s) %03X consumed at %04X", C.used_undef, C.start_ip); C.undef &= ~C.used_undef; }
        if (C.is_call) {
            calls++;
            if (depth < 8192) { shadow[depth].ret = C.call_ret; shadow[depth].sp = C.call_sp; shadow[depth].bp = bp0; shadow[depth].from = C.start_ip; }
            if (++depth > max_depth) { max_depth = depth; }
            if (depth >= 8192) { violation("call depth"); ended = "fault"; break; }
        } else if (C.is_ret) {
            rets++;
            if (!depth) { if (C.ip != 0) violation("return from top level to %04X at %04X", C.ip, C.start_ip); }
            else {
                --depth;
                if (C.ip != shadow[depth].ret) violation("return to %04X, call was from %04X (ret at %04X)", C.ip, shadow[depth].from, C.start_ip);
                else if (C.r[SP] != shadow[depth].sp) violation("SP %04X after return, %04X before call at %04X", C.r[SP], shadow[depth].sp, shadow[depth].from);
                else if (C.r[BP] != shadow[depth].bp) violation("BP %04X after return, %04X before call at %04X", C.r[BP], shadow[depth].bp, shadow[depth].from);
            }
            if (nviol > 8) { ended = "fault"; break; }
        }
        uint32_t sp = C.r[SP] ? C.r[SP] : 0x10000;
        if (C.s[SS] == SEG) {
            if ((int)sp < min_sp) min_sp = sp;
            if (sp < lowlimit) { violation("stack pointer %04X below end of data %04X at %04X", sp, lowlimit, C.start_ip); ended = "fault"; break; }
        }
        if (C.is_int && dos(&C)) break;
    }
    if (steps >= maxsteps && !strcmp(ended, "?")) ended = "steps";
    fflush(out);
    if (trf && (!strcmp(ended, "exit") || !strcmp(ended, "int20")) && tr_next()) violation("the trace goes on at %04X after the program ended at %04X", T.start, C.start_ip);
    if (ilog) fclose(ilog);
    if (frames_f) fclose(frames_f);
    if (prof) {
        f = fopen(prof, "w");
        if (!f) return 2;
        for (j = 0; j < 65536; ++j) if (exn[j]) fprintf(f, "%d %lld %lld %d\n", j, exn[j], acc[j], isint[j]);
        for (j = 0; j < nframes; ++j) fprintf(f, "F %d %d\n", frames[j][0], frames[j][1]);
        fclose(f);
    }
    if (rep) {
        f = fopen(rep, "w");
        if (!f) return 2;
        int k, nop = 0, ex = 0;
        for (j = 0; j < 256; ++j) for (k = 0; k < 9; ++k) nop += opseen[j][k];
        for (j = 0; j < 65536; ++j) ex += EXEC[j];
        fprintf(f, "{\"ended\":\"%s\",\"exit\":%d,\"steps\":%lld,\"ip\":%d,\"calls\":%lld,\"rets\":%lld,\"max_depth\":%d,\"ints\":%lld,\"opcodes\":%d,\"code_bytes\":%d,\"min_sp\":%d,\"farw\":%lld,\"vram_w\":%lld,\"vmode\":%d,\"nvmodes\":%d,\"depth\":%d,\"mem\":%lld,\"compared\":%lld,\"adopted\":%lld,\"op\":%d,\"modrm\":%d,\"rep\":%d,\"lock\":%d,\"fault\":\"%s\",\"ax\":%d,\"intno\":%d,\"polls\":%lld,\"ins\":%lld,\"keys\":%d,\"file_ops\":%d,\"violations\":[",
                ended, exitcode, steps, C.start_ip, calls, rets, max_depth, ints, nop, ex, min_sp, farw, vram_w, vmode, nvmodes, depth, C.mem_r + C.mem_w,
                compared, adopted_fl, C.op, C.has_modrm ? C.modrm : -1, C.rep, C.lock, fault, C.r[AX], C.intno, polls, ins, keypos, file_ops);
        for (j = 0; j < nviol; ++j) { if (j) fputc(',', f); jstr(f, viol[j]); }
        fprintf(f, "]}\n");
        fclose(f);
    }
    return nviol ? 3 : !strcmp(ended, "exit") || !strcmp(ended, "int20") ? (exitcode ? 1 : 0) : 4;
}
