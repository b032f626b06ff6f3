/* The part of libc the library and the linter use, in C, so that it is executed symbolically as well. */
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <errno.h>
#include <sys/types.h>
#include "ctype_table.h"
void *sx_alloc(size_t n, int harness); void sx_free(void *p); size_t sx_objsize(void *p); void sx_done(void);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); size_t strlen(const char *);
static int sx_errno_;
int *__errno_location(void) { return &sx_errno_; }
/* ---- allocation, with one injected failure */
static long oom_at = -1, oom_n = 0; static int oom_sticky = 0, oom_h = 0; static long alloc_n = 0;
void sx_oom(long k) { oom_at = k; oom_n = 0; oom_sticky = 0; oom_h = 0; }
void sx_oom_from(long k) { oom_at = k; oom_n = 0; oom_sticky = 1; oom_h = 0; }
int sx_oom_hit(void) { return oom_h; }
long sx_alloc_count(void) { return alloc_n; }
static int oom(void) { alloc_n++; if (oom_sticky && oom_h) { return 1; } if (oom_at == -1 || oom_h) return 0; if (oom_n++ == oom_at) { oom_h = 1; return 1; } return 0; }
void *malloc(size_t n) { if (oom()) { sx_errno_ = ENOMEM; return 0; } void *p = sx_alloc(n, 0); if (!p) sx_errno_ = ENOMEM; return p; }
void *calloc(size_t a, size_t b) { if (oom()) { sx_errno_ = ENOMEM; return 0; } if (b && a > (size_t)-1 / b) { sx_errno_ = ENOMEM; return 0; } void *p = sx_alloc(a * b, 0); if (p) memset(p, 0, a * b); else sx_errno_ = ENOMEM; return p; }
void free(void *p) { if (p) sx_free(p); }
void *realloc(void *p, size_t n) { if (!p) return malloc(n); if (oom()) { sx_errno_ = ENOMEM; return 0; } size_t o = sx_objsize(p); void *q = sx_alloc(n, 0); if (!q) { sx_errno_ = ENOMEM; return 0; } memcpy(q, p, o < n ? o : n); sx_free(p); return q; }
/* ---- strings */
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static int lc(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x < *y ? -1 : 1; return 0; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
size_t strspn(const char *s, const char *a) { size_t i = 0; for (; s[i] && strchr(a, s[i]); i++) ; return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; for (; s[i] && !strchr(a, s[i]); i++) ; return i; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
static const unsigned short *ct = sx_ctype + 128;
const unsigned short **__ctype_b_loc(void) { return &ct; }
int tolower(int c) { return lc(c); }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
long strtol(const char *s, char **e, int base) { const char *p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == '-' || *p == '+') neg = *p++ == '-'; if (base == 0) base = (*p == '0') ? ((p[1] == 'x' || p[1] == 'X') ? 16 : 8) : 10; if (base == 16 && *p == '0' && (p[1] == 'x' || p[1] == 'X')) p += 2; unsigned long v = 0; const char *st = p; int ov = 0; for (;; p++) { int d, c = (unsigned char)*p; if (c >= '0' && c <= '9') d = c - '0'; else if (isalpha(c)) d = lc(c) - 'a' + 10; else break; if (d >= base) break; if (v > (0x7fffffffffffffffUL - d) / base) { ov = 1; v = 0x7fffffffffffffffUL; } else if (!ov) v = v * base + d; } if (e) *e = (char *)(p == st ? s : p); if (ov) { sx_errno_ = ERANGE; return neg ? -0x7fffffffffffffffL - 1 : 0x7fffffffffffffffL; } return neg ? -(long)v : (long)v; }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { unsigned char *a = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { unsigned char t = a[j * sz + k]; a[j * sz + k] = a[(j - 1) * sz + k]; a[(j - 1) * sz + k] = t; } }
void *bsearch(const void *key, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = lo + (hi - lo) / 2; const void *p = (const char *)b + m * sz; int c = cmp(key, p); if (!c) return (void *)p; if (c < 0) hi = m; else lo = m + 1; } return 0; }
char *strerror(int e) { switch (e) { case ENOMEM: return "Cannot allocate memory"; case EIO: return "Input/output error"; case ENOSPC: return "No space left on device"; case EINVAL: return "Invalid argument"; case ENOENT: return "No such file or directory"; case EAGAIN: return "Resource temporarily unavailable"; case 0: return "Success"; } return "Unknown error"; }
/* ---- streams */
struct sxf { const unsigned char *b; size_t n, pos; long rfail; int err, eof, unget; unsigned char *o; size_t ol, oc; long wfail; int once; int open; char **mbuf; size_t *msize; };
static struct sxf f_in = { .rfail = -1, .wfail = -1, .unget = -1 }, f_out = { .rfail = -1, .wfail = -1, .unget = -1 }, f_err = { .rfail = -1, .wfail = -1, .unget = -1 };
FILE *stdin = (FILE *)&f_in, *stdout = (FILE *)&f_out, *stderr = (FILE *)&f_err;
static struct sxf *mk(void) { struct sxf *f = sx_alloc(sizeof *f, 1); memset(f, 0, sizeof *f); f->rfail = f->wfail = -1; f->unget = -1; f->open = 1; return f; }
FILE *sx_infile(const char *b, size_t n, long fail_at) { struct sxf *f = mk(); f->b = (const unsigned char *)b; f->n = n; f->rfail = fail_at; return (FILE *)f; }
FILE *sx_outfile(long fail_at) { struct sxf *f = mk(); f->wfail = fail_at; return (FILE *)f; }
void sx_once(FILE *f) { ((struct sxf *)f)->once = 1; }
char *sx_outdata(FILE *x, size_t *n) { struct sxf *f = (struct sxf *)x; if (!f->o) { f->o = sx_alloc(16, 1); f->oc = 16; f->o[0] = 0; } if (n) *n = f->ol; return (char *)f->o; }
void sx_close(FILE *x) { struct sxf *f = (struct sxf *)x; if (f->o) sx_free(f->o); f->o = 0; if (f != &f_in && f != &f_out && f != &f_err) sx_free(f); }
void sx_stdio(FILE *i, FILE *o, FILE *e) { stdin = i; stdout = o; stderr = e; }
int getc(FILE *x) { struct sxf *f = (struct sxf *)x; if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; } if (f->rfail >= 0 && (long)f->pos >= f->rfail) { f->err = 1; sx_errno_ = EIO; return EOF; } if (f->pos >= f->n) { f->eof = 1; return EOF; } return f->b[f->pos++]; }
int fgetc(FILE *x) { return getc(x); }
int _IO_getc(FILE *x) { return getc(x); }
int getchar(void) { return getc(stdin); }
int ungetc(int c, FILE *x) { struct sxf *f = (struct sxf *)x; if (c == EOF) return EOF; f->unget = (unsigned char)c; f->eof = 0; return c; }
size_t fread(void *p, size_t sz, size_t n, FILE *x) { unsigned char *d = p; size_t tot = sz * n, i = 0; if (!tot) return 0; for (; i < tot; i++) { int c = getc(x); if (c == EOF) break; d[i] = (unsigned char)c; } return i / sz; }
char *fgets(char *s, int n, FILE *x) { int i = 0; while (i < n - 1) { int c = getc(x); if (c == EOF) break; s[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; s[i] = 0; return s; }
int ferror(FILE *x) { return ((struct sxf *)x)->err; }
int feof(FILE *x) { return ((struct sxf *)x)->eof; }
void clearerr(FILE *x) { ((struct sxf *)x)->err = ((struct sxf *)x)->eof = 0; }
int fileno(FILE *x) { return x == stdin ? 0 : x == stdout ? 1 : x == stderr ? 2 : 3; }
static void memflush(struct sxf *f);
int fflush(FILE *x) { struct sxf *f = (struct sxf *)x; if (f && f->mbuf) memflush(f); return 0; }
int fclose(FILE *x) { struct sxf *f = (struct sxf *)x; f->open = 0; if (f->mbuf) { memflush(f); sx_close(x); } return 0; }
int fputc(int c, FILE *x) { struct sxf *f = (struct sxf *)x; if (f->wfail >= 0 && (long)f->ol >= f->wfail) { f->err = 1; sx_errno_ = ENOSPC; if (f->once) f->wfail = -1; return EOF; } if (f->ol + 1 >= f->oc) { size_t nc = f->oc ? f->oc * 2 : 64; unsigned char *q = sx_alloc(nc, 1); if (f->o) { memcpy(q, f->o, f->ol); sx_free(f->o); } f->o = q; f->oc = nc; } f->o[f->ol++] = (unsigned char)c; f->o[f->ol] = 0; return (unsigned char)c; }
int putc(int c, FILE *x) { return fputc(c, x); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *x) { for (; *s; s++) if (fputc((unsigned char)*s, x) == EOF) return EOF; return 1; }
int puts(const char *s) { if (fputs(s, stdout) == EOF) return EOF; return fputc('\n', stdout) == EOF ? EOF : 1; }
size_t fwrite(const void *p, size_t sz, size_t n, FILE *x) { const unsigned char *s = p; size_t tot = sz * n, i = 0; if (!tot) return 0; for (; i < tot; i++) if (fputc(s[i], x) == EOF) break; return i / sz; }
struct sink { char *b; size_t cap, len; FILE *f; int err; };
static void put(struct sink *k, int c) { if (k->f) { if (!k->err && fputc((unsigned char)c, k->f) == EOF) k->err = 1; } else if (k->len + 1 < k->cap) k->b[k->len] = (char)c; k->len++; }
static void pad(struct sink *k, int n, int c) { for (; n > 0; n--) put(k, c); }
static int fmt(struct sink *k, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { put(k, (unsigned char)*f); continue; }
    int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (f++;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 1; else if (*f == 'h') lng--; else break; }
    if (*f == '%') { put(k, '%'); continue; }
    if (*f == 'c') { int c = va_arg(ap, int); if (!left) pad(k, width - 1, ' '); put(k, c); if (left) pad(k, width - 1, ' '); continue; }
    if (*f == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t n; if (prec >= 0) { n = 0; while (n < (size_t)prec && s[n]) n++; } else n = strlen(s); if (!left) pad(k, width - (int)n, ' '); for (size_t i = 0; i < n; i++) put(k, (unsigned char)s[i]); if (left) pad(k, width - (int)n, ' '); continue; }
    if (*f == 'p') { unsigned long v = (unsigned long)va_arg(ap, void *); (void)v; put(k, '0'); put(k, 'x'); put(k, '1'); continue; }
    unsigned long v; int neg = 0, base = 10; 
    if (*f == 'd' || *f == 'i') { long s = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -1) s = (short)s; if (lng == -2) s = (signed char)s; neg = s < 0; v = neg ? 0UL - (unsigned long)s : (unsigned long)s; }
    else { v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; base = (*f == 'x' || *f == 'X') ? 16 : *f == 'o' ? 8 : 10; plus = space = 0; }
    char t[32]; int n = 0; const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; while (v) { t[n++] = dg[v % base]; v /= base; } if (!n && prec != 0) t[n++] = '0';
    int digs = n > prec ? n : prec; int sg = neg || plus || space; int tot = digs + sg; if (!left && !(zero && prec < 0)) pad(k, width - tot, ' '); if (neg) put(k, '-'); else if (plus) put(k, '+'); else if (space) put(k, ' '); if (!left && zero && prec < 0) pad(k, width - tot, '0'); pad(k, digs - n, '0'); while (n) put(k, t[--n]); if (left) pad(k, width - tot, ' ');
  }
  return (int)k->len; }
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { struct sink k = { b, n, 0, 0, 0 }; int r = fmt(&k, f, ap); if (n) b[k.len < n ? k.len : n - 1] = 0; return r; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1u << 24, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 24, f, ap); va_end(ap); return r; }
int vfprintf(FILE *x, const char *f, va_list ap) { struct sink k = { 0, 0, 0, x, 0 }; int r = fmt(&k, f, ap); return k.err ? -1 : r; }
int fprintf(FILE *x, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(x, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
void perror(const char *s) { fprintf(stderr, "%s: %s\n", s, strerror(sx_errno_)); }
/* ---- more of libc, for code that does the same by other means */
void *memmove(void *d, const void *s, size_t n);
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; d += strlen(d); while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *s = p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return 0; }
void *rawmemchr(const void *p, int c) { const unsigned char *s = p; while (*s != (unsigned char)c) s++; return (void *)s; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn) { const unsigned char *a = h; for (size_t i = 0; i + nn <= hn; i++) if (!memcmp(a + i, n, nn)) return (void *)(a + i); return 0; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncasecmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void bzero(void *p, size_t n) { memset(p, 0, n); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int isascii(int c) { return (c & ~127) == 0; }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return (unsigned long long)strtol(s, e, b); }
long atol(const char *s) { return strtol(s, 0, 10); }
void *reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { sx_errno_ = ENOMEM; return 0; } return realloc(p, a * b); }
void *aligned_alloc(size_t al, size_t n) { (void)al; return malloc(n); }
int vasprintf(char **o, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(0, 0, f, c); va_end(c); char *p = malloc(n + 1); if (!p) { *o = 0; return -1; } vsnprintf(p, n + 1, f, ap); *o = p; return n; }
int asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(o, f, ap); va_end(ap); return r; }
int getc_unlocked(FILE *x) { return getc(x); }
int fgetc_unlocked(FILE *x) { return getc(x); }
int putc_unlocked(int c, FILE *x) { return fputc(c, x); }
int fputc_unlocked(int c, FILE *x) { return fputc(c, x); }
size_t fwrite_unlocked(const void *p, size_t a, size_t b, FILE *x) { return fwrite(p, a, b, x); }
size_t fread_unlocked(void *p, size_t a, size_t b, FILE *x) { return fread(p, a, b, x); }
int fputs_unlocked(const char *s, FILE *x) { return fputs(s, x); }
int ferror_unlocked(FILE *x) { return ferror(x); }
int feof_unlocked(FILE *x) { return feof(x); }
void flockfile(FILE *x) { }
void funlockfile(FILE *x) { }
int setvbuf(FILE *x, char *b, int m, size_t n) { return 0; }
ssize_t getdelim(char **l, size_t *cap, int d, FILE *x) { size_t n = 0; for (;;) { int c = getc(x); if (c == EOF) { if (!n || ferror(x)) return -1; break; } if (n + 2 > *cap || !*l) { size_t k = *cap ? *cap * 2 : 120; if (k < n + 2) k = n + 2; char *p = realloc(*l, k); if (!p) return -1; *l = p; *cap = k; } (*l)[n++] = (char)c; if (c == d) break; } (*l)[n] = 0; return (ssize_t)n; }
ssize_t getline(char **l, size_t *cap, FILE *x) { return getdelim(l, cap, '\n', x); }
char *index(const char *s, int c) { return strchr(s, c); }
char *rindex(const char *s, int c) { return strrchr(s, c); }
void *memccpy(void *d, const void *s, int c, size_t n) { unsigned char *a = d; const unsigned char *b = s; while (n--) if ((*a++ = *b++) == (unsigned char)c) return a; return 0; }
char *stpncpy(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); memcpy(d, s, l); memset(d + l, 0, n - l); return d + l; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
size_t strlcat(char *d, const char *s, size_t n) { size_t l = strnlen(d, n); return l == n ? n + strlen(s) : l + strlcpy(d + l, s, n - l); }
static char *vxs_strtok; /* what strtok remembers is shared by all threads */
char *strtok(char *s, const char *d) { char *t = s ? s : vxs_strtok; s = strtok_r(0, d, &t); vxs_strtok = t; return s; }
void sx_threads(void (*f)(int), int n) { for (int i = 0; i < n; i++) f(i); }
char *getenv(const char *n) { return 0; }
static int sx_tl[384], sx_tu[384]; static const int *sx_tlp, *sx_tup;
static void sx_tinit(void) { for (int i = 0; i < 384; i++) { int c = i - 128; sx_tl[i] = lc(c); sx_tu[i] = (c >= 'a' && c <= 'z') ? c - 32 : c; } sx_tlp = sx_tl + 128; sx_tup = sx_tu + 128; }
const int **__ctype_tolower_loc(void) { if (!sx_tlp) sx_tinit(); return &sx_tlp; }
const int **__ctype_toupper_loc(void) { if (!sx_tup) sx_tinit(); return &sx_tup; }
/* a stream into memory: the buffer is handed over on every flush and on close */
FILE *open_memstream(char **bp, size_t *sp) { if (oom()) { sx_errno_ = ENOMEM; return 0; } struct sxf *f = mk(); f->mbuf = bp; f->msize = sp; *bp = 0; *sp = 0; return (FILE *)f; }
static void memflush(struct sxf *f) { if (*f->mbuf) sx_free(*f->mbuf); *f->mbuf = sx_alloc(f->ol + 1, 0); if (f->o) memcpy(*f->mbuf, f->o, f->ol); (*f->mbuf)[f->ol] = 0; *f->msize = f->ol; }
/* ---- what only the linter uses */
static struct { const char *name; FILE *f; } sx_files[4]; static int sx_nfiles, sx_ttys;
void sx_file(const char *name, FILE *f) { sx_files[sx_nfiles].name = name; sx_files[sx_nfiles++].f = f; }
void sx_tty(int mask) { sx_ttys = mask; }
FILE *fopen(const char *n, const char *m) { for (int i = 0; i < sx_nfiles; i++) if (!strcmp(sx_files[i].name, n)) return sx_files[i].f; sx_errno_ = ENOENT; return 0; }
int isatty(int fd) { return fd >= 0 && fd < 3 && (sx_ttys >> fd & 1); }
char *basename(const char *p) { char *r = strrchr(p, '/'); return r ? r + 1 : (char *)p; }
char *__xpg_basename(char *p) { return basename(p); }
void exit(int c) { sx_done(); for (;;) ; }
void _exit(int c) { exit(c); }
#include <getopt.h>
char *optarg; int optind = 1, opterr = 1, optopt; static int opt_at;
int getopt_long(int argc, char *const *av, const char *so, const struct option *lo, int *li) {
  char **v = (char **)av; optarg = 0; if (optind == 0) { optind = 1; opt_at = 0; }
  if (!opt_at) { int i = optind; while (i < argc && (v[i][0] != '-' || !v[i][1])) i++; if (i >= argc) return -1; int end = !strcmp(v[i], "--"); int w = 1;
    if (!end && v[i][1] == '-') { const char *e = strchr(v[i], '='); size_t l = e ? (size_t)(e - v[i] - 2) : strlen(v[i] + 2); for (int k = 0; lo[k].name; k++) if (!strncmp(lo[k].name, v[i] + 2, l) && !lo[k].name[l] && lo[k].has_arg && !e) w = 2; }
    if (i + w > argc) w = argc - i;
    for (int q = 0; q < w; q++) { char *x = v[i + q]; for (int k = i + q; k > optind + q; k--) v[k] = v[k - 1]; v[optind + q] = x; }
    if (end) { optind++; return -1; } }
  char *a = v[optind];
  if (!opt_at && a[1] == '-') { optind++; char *e = strchr(a, '='); size_t l = e ? (size_t)(e - a - 2) : strlen(a + 2); int f = -1, n = 0; for (int k = 0; lo[k].name; k++) if (!strncmp(lo[k].name, a + 2, l)) { if (!lo[k].name[l]) { f = k; n = 1; break; } if (f < 0 || lo[f].val != lo[k].val) n++; f = k; }
    if (n != 1) { if (opterr) fprintf(stderr, "%s: %s option '%s'\n", v[0], n ? "ambiguous" : "unrecognized", a); return '?'; }
    if (lo[f].has_arg) { if (e) optarg = e + 1; else if (optind < argc) optarg = v[optind++]; else { if (opterr) fprintf(stderr, "%s: option '%s' requires an argument\n", v[0], a); return '?'; } } else if (e) return '?';
    if (li) *li = f; if (lo[f].flag) { *lo[f].flag = lo[f].val; return 0; } return lo[f].val; }
  if (!opt_at) opt_at = 1; int c = (unsigned char)a[opt_at++]; const char *p = c == ':' ? 0 : strchr(so, c);
  if (p && p[1] == ':') { if (a[opt_at]) optarg = a + opt_at; else if (optind + 1 < argc) optarg = v[++optind]; else c = '?'; optind++; opt_at = 0; return p ? c : '?'; }
  if (!a[opt_at]) { optind++; opt_at = 0; } if (!p) { optopt = c; if (opterr) fprintf(stderr, "%s: invalid option -- '%c'\n", v[0], c); return '?'; } return c; }
int getopt(int argc, char *const *av, const char *so) { static const struct option none[] = { { 0, 0, 0, 0 } }; return getopt_long(argc, av, so, none, 0); }
