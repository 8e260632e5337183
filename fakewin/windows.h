/* Just enough of the Windows API to run the Windows version of swar.c under sanitizers.
 * Key presses come from the file named by SWAR_KEYS, the frames shown go to SWAR_FRAMES. */
#ifndef FAKE_WINDOWS_H
#define FAKE_WINDOWS_H
#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
typedef void *HWND, *HDC, *HBITMAP, *HINSTANCE, *HMENU, *HICON, *HCURSOR, *HBRUSH, *HGDIOBJ;
typedef uint32_t DWORD; typedef uint16_t WORD; typedef unsigned char BYTE; typedef int BOOL; typedef unsigned UINT;
typedef int32_t LONG; typedef intptr_t LRESULT, LPARAM, LONG_PTR; typedef uintptr_t WPARAM;
typedef const char *LPCSTR;
#define CALLBACK
#define WINAPI
#define TRUE 1
#define FALSE 0
#define TEXT(x) x
typedef LRESULT (CALLBACK *WNDPROC)(HWND, UINT, WPARAM, LPARAM);
typedef struct { LONG left, top, right, bottom; } RECT;
typedef struct { LONG x, y; } POINT;
typedef struct { HWND hwnd; UINT message; WPARAM wParam; LPARAM lParam; DWORD time; POINT pt; } MSG;
typedef struct { HDC hdc; BOOL fErase; RECT rcPaint; } PAINTSTRUCT;
typedef struct { UINT style; WNDPROC lpfnWndProc; int cbClsExtra, cbWndExtra; HINSTANCE hInstance; HICON hIcon; HCURSOR hCursor; HBRUSH hbrBackground; LPCSTR lpszMenuName, lpszClassName; } WNDCLASS;
typedef struct { DWORD biSize; LONG biWidth, biHeight; WORD biPlanes, biBitCount; DWORD biCompression, biSizeImage; LONG biXPelsPerMeter, biYPelsPerMeter; DWORD biClrUsed, biClrImportant; } BITMAPINFOHEADER;
typedef struct { BYTE rgbBlue, rgbGreen, rgbRed, rgbReserved; } RGBQUAD;
typedef struct { BITMAPINFOHEADER bmiHeader; RGBQUAD bmiColors[1]; } BITMAPINFO;
enum { WM_CREATE = 1, WM_DESTROY = 2, WM_PAINT = 0xf, WM_QUIT = 0x12, WM_ERASEBKGND = 0x14, WM_KEYDOWN = 0x100, WM_KEYUP = 0x101, WM_CHAR = 0x102, PM_REMOVE = 1, CS_HREDRAW = 2, CS_VREDRAW = 1,
    WS_OVERLAPPEDWINDOW = 0xcf0000, WS_VISIBLE = 0x10000000, CW_USEDEFAULT = (int)0x80000000, BI_RGB = 0, DIB_RGB_COLORS = 0, SRCCOPY = 0xcc0020 };

static WNDPROC fk_proc;
static int fk_window, fk_quit, fk_bad;
static unsigned char fk_last[64000], fk_cur[64000];
static long fk_frames, fk_calls, fk_same;
static FILE *fk_keys, *fk_out;
static int fk_w, fk_h;

#define ZeroMemory(p, n) memset(p, 0, n)
static DWORD fk_tick;
static inline DWORD GetTickCount(void) { return fk_tick += 7; }
static inline void Sleep(DWORD n) { fk_tick += n; }
static inline HDC GetWindowDC(HWND h) { (void)h; return &fk_window; }
static inline HDC CreateCompatibleDC(HDC h) { return h; }
static inline HBITMAP CreateCompatibleBitmap(HDC h, int w, int k) { (void)h; fk_w = w; fk_h = k; return &fk_w; }
static inline HGDIOBJ SelectObject(HDC h, HGDIOBJ o) { (void)h; return o; }
static inline int ReleaseDC(HWND w, HDC h) { (void)w; (void)h; return 1; }
static inline BOOL DeleteObject(HGDIOBJ o) { (void)o; return 1; }
static inline BOOL DeleteDC(HDC o) { (void)o; return 1; }
static inline void PostQuitMessage(int n) { (void)n; fk_quit = 1; }
static inline HINSTANCE GetModuleHandle(LPCSTR s) { (void)s; return &fk_window; }
static inline WORD RegisterClass(const WNDCLASS *w) { fk_proc = w->lpfnWndProc; return 1; }
static inline BOOL AdjustWindowRect(RECT *r, DWORD s, BOOL m) { (void)r; (void)s; (void)m; return 1; }
static inline HWND CreateWindow(LPCSTR c, LPCSTR t, DWORD s, int x, int y, int w, int h, HWND p, HMENU m, HINSTANCE i, void *l) {
    (void)c; (void)t; (void)s; (void)x; (void)y; (void)w; (void)h; (void)p; (void)m; (void)i; (void)l;
    fk_window = 1;
    fk_proc(&fk_window, WM_CREATE, 0, 0);
    return &fk_window;
}
static inline BOOL IsWindow(HWND h) { (void)h; return fk_window; }
static inline BOOL DestroyWindow(HWND h) { fk_proc(h, WM_PAINT, 0, 0); fk_proc(h, WM_DESTROY, 0, 0); fk_window = 0; if (fk_out) fclose(fk_out); return 1; }
static inline DWORD GetLastError(void) { return 0; }
static inline LRESULT DefWindowProc(HWND h, UINT m, WPARAM w, LPARAM l) { (void)h; (void)m; (void)w; (void)l; return 0; }
static inline HDC BeginPaint(HWND h, PAINTSTRUCT *p) { memset(p, 0, sizeof *p); p->hdc = h; p->rcPaint.right = 640; p->rcPaint.bottom = 400; return h; }
static inline BOOL EndPaint(HWND h, PAINTSTRUCT *p) { (void)h; (void)p; return 1; }
static inline BOOL IsRectEmpty(const RECT *r) { return r->left >= r->right || r->top >= r->bottom; }
static inline BOOL GetClientRect(HWND h, RECT *r) { (void)h; r->left = r->top = 0; r->right = 640; r->bottom = 400; return 1; }
static inline BOOL StretchBlt(HDC a, int b, int c, int d, int e, HDC f, int g, int h, int i, int j, DWORD k) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)h; (void)i; (void)j; (void)k; return 1; }
static inline int SetDIBits(HDC d, HBITMAP b, UINT start, UINT lines, const void *bits, const BITMAPINFO *bi, UINT use) {
    (void)d; (void)b; (void)use;
    if (start || lines != 200 || bi->bmiHeader.biWidth != 320 || bi->bmiHeader.biHeight != -200 || bi->bmiHeader.biBitCount != 8) { fprintf(stderr, "unexpected picture format\n"); abort(); }
    memcpy(fk_cur, bits, sizeof fk_cur);
    if (!fk_frames || memcmp(fk_cur, fk_last, sizeof fk_cur)) {
        int k, n = 0;
        for (k = 0; k < 64000; ++k) n += fk_cur[k] != fk_last[k];
        if (!fk_out) { fk_out = fopen(getenv("SWAR_FRAMES"), "wb"); if (!fk_out) abort(); }
        fprintf(fk_out, "%d", n); /* changed pixels */
        for (k = 0; k < 64000; ++k) if (fk_cur[k] != fk_last[k]) fprintf(fk_out, " %d %d", k, fk_cur[k]);
        fputc('\n', fk_out);
        memcpy(fk_last, fk_cur, sizeof fk_cur);
        fk_frames++; fk_same = 0;
    } else fk_same++;
    return 200;
}
static inline BOOL InvalidateRect(HWND h, const RECT *r, BOOL e) { (void)e; (void)r; fk_proc(h, WM_ERASEBKGND, 0, 0); fk_proc(h, WM_PAINT, 0, 0); return 1; }
static inline BOOL TranslateMessage(const MSG *m) { (void)m; return 1; }
static inline LRESULT DispatchMessage(const MSG *m) { return fk_proc(m->hwnd, m->message, m->wParam, m->lParam); }
/* key file: "w N" wait until the picture has not changed for N calls, "k vk scan" a key released */
static inline BOOL PeekMessage(MSG *m, HWND h, UINT a, UINT b, UINT c) {
    static long need = 4;
    static int idle;
    char w[8]; unsigned vk, sc;
    (void)a; (void)b; (void)c; (void)h;
    fk_calls++;
    memset(m, 0, sizeof *m);
    m->hwnd = &fk_window;
    if (!fk_keys) { fk_keys = fopen(getenv("SWAR_KEYS"), "r"); if (!fk_keys) abort(); }
    if (fk_same < need) return 0;
    if (fscanf(fk_keys, "%7s", w) != 1) { if (++idle < 3000) return 0; fprintf(stderr, "no keys left\n"); exit(77); }
    if (*w == 'w') { if (fscanf(fk_keys, "%ld", &need) != 1) abort(); fk_same = 0; return 0; }
    if (fscanf(fk_keys, "%x %x", &vk, &sc) != 2) abort();
    need = 0;
    m->message = WM_KEYUP;
    m->wParam = vk;
    m->lParam = (LPARAM)((unsigned long)sc << 16 | 1);
    return 1;
}
#endif
