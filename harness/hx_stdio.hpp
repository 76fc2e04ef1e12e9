// A small instrumented stdio/string layer over one in-memory file whose bytes
// may be symbolic.  Include after all standard headers: it redefines the names.
#ifndef HX_STDIO_HPP
#define HX_STDIO_HPP
#include "../engine/symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <strings.h>
#include <cstdarg>
#include <cctype>
#include <string>
#include <vector>
struct HxFile { const char *p; size_t n, pos; bool eof; };
inline std::vector<char> &hx_bytes() { static std::vector<char> v; return v; }
inline bool &hx_missing() { static bool b; return b; }       // fopen fails
inline int &hx_opens() { static int n; return n; }
inline int &hx_closes() { static int n; return n; }
inline bool hx_is(FILE *f) { return f == (FILE *)&hx_bytes() || true; }
// MPI demo: every rank has its own open file
inline HxFile *hx_f(FILE *f) { return (HxFile *)f; }
inline FILE *hx_fopen(const char *, const char *) { if (hx_missing()) return nullptr; hx_opens()++; HxFile *f = new HxFile(); f->p = hx_bytes().data(); f->n = hx_bytes().size(); f->pos = 0; f->eof = false; return (FILE *)f; }
inline int hx_fclose(FILE *f) { hx_closes()++; delete hx_f(f); return 0; }
inline int hx_fgetc(FILE *fp) { HxFile *f = hx_f(fp); if (f->pos >= f->n) { f->eof = true; return EOF; } return (unsigned char)f->p[f->pos++]; }
inline int hx_ungetc(int c, FILE *fp) { HxFile *f = hx_f(fp); if (c == EOF || f->pos == 0) return EOF; f->pos--; f->eof = false; return c; }
inline int hx_feof(FILE *fp) { return hx_f(fp)->eof; }
inline int hx_ferror(FILE *) { return 0; }
inline void hx_rewind(FILE *fp) { hx_f(fp)->pos = 0; hx_f(fp)->eof = false; }
inline int hx_fseek(FILE *fp, long o, int w) { HxFile *f = hx_f(fp); f->pos = w == SEEK_SET ? o : w == SEEK_CUR ? f->pos + o : f->n + o; f->eof = false; return 0; }
inline long hx_ftell(FILE *fp) { return hx_f(fp)->pos; }
inline char *hx_fgets(char *b, int n, FILE *fp) {
    HxFile *f = hx_f(fp); int i = 0;
    if (n <= 0) return nullptr;
    while (i < n - 1) { if (f->pos >= f->n) { f->eof = true; break; } char c = f->p[f->pos++]; b[i++] = c; if (c == '\n') break; }
    if (i == 0 && n > 1) return nullptr;
    b[i] = 0; return b;
}
inline size_t hx_fread(void *d, size_t s, size_t n, FILE *fp) { HxFile *f = hx_f(fp); size_t k = s * n, i = 0; char *o = (char *)d; while (i < k && f->pos < f->n) o[i++] = f->p[f->pos++]; if (i < k) f->eof = true; return s ? i / s : 0; }
inline ssize_t hx_getline(char **l, size_t *cap, FILE *fp) {
    HxFile *f = hx_f(fp); size_t i = 0;
    if (f->pos >= f->n) { f->eof = true; return -1; }
    for (;;) { if (!*l || i + 2 > *cap) { size_t nc = *cap ? 2 * *cap : 128; char *q = (char *)malloc(nc); for (size_t j = 0; j < i; j++) q[j] = (*l)[j]; free(*l); *l = q; *cap = nc; } if (f->pos >= f->n) { f->eof = true; break; } char c = f->p[f->pos++]; (*l)[i++] = c; if (c == '\n') break; }
    (*l)[i] = 0; return i;
}
// strings
inline size_t hx_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
inline size_t hx_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
inline int hx_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
inline int hx_strcmp(const char *a, const char *b) { return hx_strncmp(a, b, (size_t)-1); }
inline char *hx_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
inline char *hx_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
inline size_t hx_strcspn(const char *s, const char *r) { size_t n = 0; for (; s[n]; n++) for (const char *q = r; *q; q++) if (s[n] == *q) return n; return n; }
inline size_t hx_strspn(const char *s, const char *r) { size_t n = 0; for (; s[n]; n++) { bool in = false; for (const char *q = r; *q; q++) if (s[n] == *q) { in = true; break; } if (!in) return n; } return n; }
inline char *hx_strpbrk(const char *s, const char *r) { s += hx_strcspn(s, r); return *s ? (char *)s : nullptr; }
inline char *hx_strstr(const char *s, const char *t) { size_t k = hx_strlen(t); for (;; s++) { if (hx_strncmp(s, t, k) == 0) return (char *)s; if (!*s) return nullptr; } }
inline char *hx_strtok_r(char *s, const char *d, char **st) { if (!s) s = *st; if (!s) return nullptr; s += hx_strspn(s, d); if (!*s) { *st = nullptr; return nullptr; } char *e = s + hx_strcspn(s, d); if (*e) { *e = 0; *st = e + 1; } else *st = nullptr; return s; }
inline char *hx_strtok(char *s, const char *d) { static char *st; return hx_strtok_r(s, d, &st); }
inline char *hx_strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
inline char *hx_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
inline void *hx_memchr(const void *p, int c, size_t n) { const char *s = (const char *)p; for (size_t i = 0; i < n; i++) if (s[i] == (char)c) return (void *)(s + i); return nullptr; }
inline int hx_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
inline int hx_isdigit(int c) { return c >= '0' && c <= '9'; }
inline int hx_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline int hx_isalnum(int c) { return hx_isalpha(c) || hx_isdigit(c); }
inline int hx_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
// numbers.  Integers keep their symbolic digits; anything with a fraction or exponent is case-split.
inline bool hx_int(const char *&s, size_t w, bool neg_ok, int64_t &v) {
    const char *q = s, *lim = w ? s + w : nullptr;
    bool neg = false;
    if (q != lim && (*q == '-' || *q == '+')) { neg = *q == '-'; q++; }
    if (q == lim || !hx_isdigit((unsigned char)*q)) return false;
    v = 0; int nd = 0;
    while (q != lim && hx_isdigit((unsigned char)*q)) { v = v * 10 + ((unsigned char)*q - '0'); q++; if (v > 0 && ++nd > 17) symx_skip("number too long"); }
    if (neg) v = -v;
    s = q; return true;
}
inline bool hx_real(const char *&s, size_t w, double &v) {
    const char *q = s, *lim = w ? s + w : nullptr;
    bool neg = false;
    if (q != lim && (*q == '-' || *q == '+')) { neg = *q == '-'; q++; }
    const char *d0 = q; int nd = 0;
    while (q != lim && hx_isdigit((unsigned char)*q)) { q++; nd++; }
    bool plain = nd > 0 && nd <= 15 && !(q != lim && (*q == '.' || *q == 'e' || *q == 'E' || *q == 'x' || *q == 'X'));
    if (plain) { int64_t t = 0; for (const char *r = d0; r != q; r++) t = t * 10 + ((unsigned char)*r - '0'); v = (double)t; if (neg) v = t == 0 ? -0.0 : -(double)t; s = q; return true; }
    // decide the extent, then evaluate concretely
    if (q != lim && *q == '.') { q++; while (q != lim && hx_isdigit((unsigned char)*q)) { q++; nd++; } }
    if (nd == 0) {
        // inf / nan
        char t[5] = {0}; const char *r = d0; for (int i = 0; i < 3 && r != lim && *r; i++, r++) t[i] = (char)hx_tolower((unsigned char)*r);
        if (strcmp(t, "inf") == 0 || strcmp(t, "nan") == 0) { v = strtod(t, nullptr); if (neg) v = -v; s = r; return true; }
        return false;
    }
    if (q != lim && (*q == 'e' || *q == 'E')) { const char *r = q + 1; if (r != lim && (*r == '-' || *r == '+')) r++; if (r != lim && hx_isdigit((unsigned char)*r)) { while (r != lim && hx_isdigit((unsigned char)*r)) r++; q = r; } else if (w == 0) { s = r; return false; } }
    std::string t; for (const char *r = s; r != q; r++) t.push_back((char)symx_split((unsigned char)*r));
    v = strtod(t.c_str(), nullptr); s = q; return true;
}
inline int hx_vsscanf(const char *s, const char *f, va_list ap) {
    const char *s0 = s; int n = 0;
    if (!*s) { const char *q = f; while (hx_isspace(*q)) q++; if (*q) { if (*q == '%' && q[1] == 'n') { } else return EOF; } }
    for (; *f; f++) {
        if (hx_isspace((unsigned char)*f)) { while (hx_isspace((unsigned char)*s)) s++; continue; }
        if (*f != '%') { if (*s != *f) return n == 0 && !*s ? EOF : n; s++; continue; }
        f++;
        if (*f == '%') { while (hx_isspace((unsigned char)*s)) s++; if (*s != '%') return n; s++; continue; }
        bool sup = false; if (*f == '*') { sup = true; f++; }
        size_t w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
        int len = 0; // -2 hh, -1 h, 1 l, 2 ll, 3 z/j/t, 4 L
        for (;;) { if (*f == 'l') { len = len == 1 ? 2 : 1; f++; } else if (*f == 'h') { len = len == -1 ? -2 : -1; f++; } else if (*f == 'z' || *f == 'j' || *f == 't') { len = 3; f++; } else if (*f == 'L') { len = 4; f++; } else break; }
        char k = *f;
        if (k == 'n') { if (!sup) { *va_arg(ap, int *) = s - s0; } continue; }
        if (k == 'c') { size_t c = w ? w : 1; char *d = sup ? nullptr : va_arg(ap, char *); for (size_t i = 0; i < c; i++) { if (!*s) return n ? n : (i == 0 ? EOF : n); if (d) d[i] = *s; s++; } if (d) n++; continue; }
        if (k == '[') {
            f++; bool inv = false; if (*f == '^') { inv = true; f++; } bool set[256] = {false}; const char *b = f;
            for (; *f && (*f != ']' || f == b); f++) { if (f[1] == '-' && f[2] && f[2] != ']') { for (int c = (unsigned char)f[0]; c <= (unsigned char)f[2]; c++) set[c] = true; f += 2; } else set[(unsigned char)*f] = true; }
            char *d = sup ? nullptr : va_arg(ap, char *); size_t i = 0;
            while (*s && (!w || i < w)) { unsigned char c = (unsigned char)symx_split((unsigned char)*s); if (set[c] == inv) break; if (d) d[i] = *s; i++; s++; }
            if (i == 0) return !*s && n == 0 ? EOF : n;
            if (d) { d[i] = 0; n++; } continue;
        }
        while (hx_isspace((unsigned char)*s)) s++;
        if (!*s) return n == 0 ? EOF : n;
        if (k == 's') { char *d = sup ? nullptr : va_arg(ap, char *); size_t i = 0; while (*s && !hx_isspace((unsigned char)*s) && (!w || i < w)) { if (d) d[i] = *s; i++; s++; } if (d) { d[i] = 0; n++; } continue; }
        if (k == 'd' || k == 'u' || k == 'i') {
            int64_t v; if (!hx_int(s, w, true, v)) return n;
            if (!sup) { void *p = va_arg(ap, void *); switch (len) { case 0: *(int *)p = (int)v; break; case -1: *(short *)p = (short)v; break; case -2: *(signed char *)p = (signed char)v; break; default: *(int64_t *)p = v; } n++; }
            continue;
        }
        if (k == 'f' || k == 'g' || k == 'e' || k == 'a' || k == 'G' || k == 'E' || k == 'F') {
            double v; if (!hx_real(s, w, v)) return n;
            if (!sup) { void *p = va_arg(ap, void *); if (len == 1) *(double *)p = v; else if (len == 4) *(long double *)p = v; else *(float *)p = (float)v; n++; }
            continue;
        }
        symx_skip("unmodelled scanf conversion");
    }
    return n;
}
inline int hx_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = hx_vsscanf(s, f, ap); va_end(ap); return r; }
inline long hx_strtol(const char *s, char **e, int b) { const char *q = s; while (hx_isspace((unsigned char)*q)) q++; int64_t v = 0; if (b != 10 && b != 0) symx_skip("unmodelled strtol base"); if (!hx_int(q, 0, true, v)) { if (e) *e = (char *)s; return 0; } if (e) *e = (char *)q; return v; }
inline unsigned long hx_strtoul(const char *s, char **e, int b) { return hx_strtol(s, e, b); }
inline long long hx_strtoll(const char *s, char **e, int b) { return hx_strtol(s, e, b); }
inline unsigned long long hx_strtoull(const char *s, char **e, int b) { return hx_strtol(s, e, b); }
inline double hx_strtod(const char *s, char **e) { const char *q = s; while (hx_isspace((unsigned char)*q)) q++; double v = 0; if (!*q || !hx_real(q, 0, v)) { if (e) *e = (char *)s; return 0; } if (e) *e = (char *)q; return v; }
inline int hx_atoi(const char *s) { return (int)hx_strtol(s, nullptr, 10); }
inline long hx_atol(const char *s) { return hx_strtol(s, nullptr, 10); }
inline double hx_atof(const char *s) { return hx_strtod(s, nullptr); }
namespace std {
using ::hx_fopen; using ::hx_fclose; using ::hx_fgetc; using ::hx_ungetc; using ::hx_feof; using ::hx_ferror; using ::hx_rewind; using ::hx_fseek; using ::hx_ftell; using ::hx_fgets; using ::hx_fread;
using ::hx_strlen; using ::hx_strncmp; using ::hx_strcmp; using ::hx_strchr; using ::hx_strrchr; using ::hx_strcspn; using ::hx_strspn; using ::hx_strpbrk; using ::hx_strstr; using ::hx_strtok; using ::hx_strcpy; using ::hx_strncpy; using ::hx_memchr;
using ::hx_isspace; using ::hx_isdigit; using ::hx_isalpha; using ::hx_isalnum; using ::hx_tolower;
using ::hx_sscanf; using ::hx_vsscanf; using ::hx_strtol; using ::hx_strtoul; using ::hx_strtoll; using ::hx_strtoull; using ::hx_strtod; using ::hx_atoi; using ::hx_atol; using ::hx_atof;
}
#endif
#ifdef HX_STDIO_RENAME
#define fopen hx_fopen
#define fclose hx_fclose
#define fgetc hx_fgetc
#undef getc
#define getc hx_fgetc
#define ungetc hx_ungetc
#undef feof
#define feof hx_feof
#undef ferror
#define ferror hx_ferror
#define rewind hx_rewind
#define fseek hx_fseek
#define ftell hx_ftell
#define fgets hx_fgets
#define fread hx_fread
#define strlen hx_strlen
#define strnlen hx_strnlen
#define strncmp hx_strncmp
#define strcmp hx_strcmp
#define strchr hx_strchr
#define strrchr hx_strrchr
#define strcspn hx_strcspn
#define strspn hx_strspn
#define strpbrk hx_strpbrk
#define strstr hx_strstr
#define strtok_r hx_strtok_r
#define strtok hx_strtok
#define strcpy hx_strcpy
#define strncpy hx_strncpy
#define memchr hx_memchr
#define isspace hx_isspace
#define isdigit hx_isdigit
#define isalpha hx_isalpha
#define isalnum hx_isalnum
#define sscanf hx_sscanf
#define vsscanf hx_vsscanf
#define strtol hx_strtol
#define strtoul hx_strtoul
#define strtoll hx_strtoll
#define strtoull hx_strtoull
#define strtod hx_strtod
#define atoi hx_atoi
#define atol hx_atol
#define atof hx_atof
#endif
