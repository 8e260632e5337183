/* Linked into a tool under test with -Wl,--wrap=open,--wrap=read,--wrap=write: makes file operations fail.
 * FAULT=n:mode[:seed]  the n-th operation (counted from 1, standard handles excluded) misbehaves:
 *   e  fails (open EACCES, read and write EIO)
 *   d  disk full: a write takes part of the data, later ones fail; open for writing fails
 *   p  a write takes part of the data, later ones work
 *   s  from then on every read delivers a random part of what is there
 * FAULTLOG=fd-less file name: one letter per operation */
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

int __real_open(const char *, int, ...);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);

static int count, at = -1, full;
static char mode;
static unsigned rng = 1;
static int step(char what) {
    if (at < 0) {
        const char *f = getenv("FAULT");
        at = 0;
        if (f) sscanf(f, "%d:%c:%u", &at, &mode, &rng);
    }
    ++count;
    const char *l = getenv("FAULTLOG");
    if (l) {
        int fd = __real_open(l, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (fd >= 0) { if (__real_write(fd, &what, 1) != 1) abort(); close(fd); }
    }
    return at && (count == at || (mode == 's' && count > at));
}
static unsigned rnd(unsigned n) { rng = rng * 1103515245u + 12345u; return n ? (rng >> 8) % n : 0; }

int __wrap_open(const char *n, int flags, ...) {
    va_list v;
    va_start(v, flags);
    int m = flags & O_CREAT ? va_arg(v, int) : 0;
    va_end(v);
    int wr = (flags & O_ACCMODE) != O_RDONLY, hit = step(wr ? 'O' : 'o');
    if (hit && (mode == 'e' || (mode == 'd' && wr))) { errno = EACCES; return -1; }
    return __real_open(n, flags, m);
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (fd < 3) return __real_read(fd, b, n);
    int hit = step('r');
    if (hit && mode == 'e') { errno = EIO; return -1; }
    if (hit && mode == 's' && n > 1) n = 1 + rnd(rnd(3) ? 8 : n);
    return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (fd < 3) return __real_write(fd, b, n);
    int hit = step('w');
    if (full) { errno = ENOSPC; return -1; }
    if (hit && mode == 'e') { errno = EIO; return -1; }
    if (hit && (mode == 'd' || mode == 'p')) {
        if (mode == 'd') full = 1;
        n = rnd(n);
        if (!n) { if (mode == 'd') errno = ENOSPC; return mode == 'd' ? -1 : 0; }
    }
    return __real_write(fd, b, n);
}
