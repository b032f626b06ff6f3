/* Native counterpart of the executor's intrinsics: replays one record against the real build. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include "sx.h"
static long params[64]; static int nparams; static unsigned char *texts[16]; static size_t tlen[16]; static int ntexts; static unsigned char *bytes; static size_t nbytes, bpos; static char entry[128], name[256];
static uint64_t h = 1469598103934665603ull; static unsigned long ntr; static unsigned long wn; static uint64_t wh; static int want;
static long oom_at = -1, oom_n; static int oom_sticky, oom_h, live; static long alloc_n;
void sx_oom(long k) { oom_at = k; oom_n = 0; oom_sticky = 0; oom_h = 0; }
void sx_oom_from(long k) { oom_at = k; oom_n = 0; oom_sticky = 1; oom_h = 0; }
int sx_oom_hit(void) { return oom_h; }
long sx_alloc_count(void) { return alloc_n; }
static int oom(void) { alloc_n++; if (oom_sticky && oom_h) return 1; if (oom_at == -1 || oom_h) return 0; if (oom_n++ == oom_at) { oom_h = 1; return 1; } return 0; }
void *vx_malloc(size_t n) { if (oom()) { errno = ENOMEM; return 0; } void *p = malloc(n); if (p) live++; return p; }
void *vx_calloc(size_t a, size_t b) { if (oom()) { errno = ENOMEM; return 0; } void *p = calloc(a, b); if (p) live++; return p; }
void vx_free(void *p) { if (p) { live--; free(p); } }
void *vx_realloc(void *p, size_t n) { if (!p) return vx_malloc(n); if (oom()) { errno = ENOMEM; return 0; } return realloc(p, n); }
char *vx_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = vx_malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
char *vx_strdup(const char *s) { size_t l = strlen(s); char *p = vx_malloc(l + 1); if (p) memcpy(p, s, l + 1); return p; }
int sx_live(void) { return live; }
unsigned char sx_sym(void) { if (bpos >= nbytes) _exit(97); return bytes[bpos++]; }
unsigned char sx_in(int lo, int hi) { unsigned char c = sx_sym(); if (c < lo || c > hi) _exit(97); return c; }
char *sx_text(int k, size_t *n) { if (k >= ntexts) { *n = 0; return 0; } char *p = malloc(tlen[k] ? tlen[k] : 1); memcpy(p, texts[k], tlen[k]); if (!tlen[k]) p = (char *)realloc(p, 1); *n = tlen[k]; return p; }
long sx_param(int i) { return i < nparams ? params[i] : 0; }
int sx_nparams(void) { return nparams; }
void sx_assume(int c) { if (!c) _exit(97); }
void sx_assert(int c, const char *w) { if (!c) { dprintf(2, "PROPERTY VIOLATED: %s\n", w); _exit(99); } }
long sx_conc(long v) { return v; }
void sx_trace(long v) { h ^= (uint64_t)v; h *= 1099511628211ull; h ^= h >> 29; ntr++; }
void sx_reach(const char *w) { }
int sx_native(void) { return 1; }
void *sx_alloc(size_t n, int hk) { return malloc(n ? n : 1); }
void sx_free(void *p) { free(p); }
static void fin(void) { if (want && (wn != ntr || wh != h)) { dprintf(2, "TRACE DIVERGES: %lu/%llu expected %lu/%llu\n", ntr, (unsigned long long)h, wn, (unsigned long long)wh); _exit(96); } _exit(0); }
void sx_done(void) { fin(); }
struct ck { const char *b; size_t n, pos; long fail; char *o; size_t ol, oc; long wfail; int once; FILE *f; };
static struct ck *cks[64]; static int ncks;
static ssize_t rdk(void *c, char *buf, size_t sz) { struct ck *k = c; size_t lim = k->n; if (k->fail >= 0 && (size_t)k->fail <= k->n) { if (k->pos >= (size_t)k->fail) { errno = EIO; return -1; } lim = k->fail; } size_t n = lim - k->pos; if (n > sz) n = sz; memcpy(buf, k->b + k->pos, n); k->pos += n; return n; }
static ssize_t wrk(void *c, const char *buf, size_t sz) { struct ck *k = c; size_t n = sz; if (k->wfail >= 0) { size_t room = (long)k->ol >= k->wfail ? 0 : k->wfail - k->ol; if (n > room) n = room; } if (k->ol + n + 1 > k->oc) { k->oc = (k->ol + n + 1) * 2; k->o = realloc(k->o, k->oc); } memcpy(k->o + k->ol, buf, n); k->ol += n; k->o[k->ol] = 0; if (n < sz) { errno = ENOSPC; if (k->once) k->wfail = -1; } return n; }
FILE *sx_infile(const char *b, size_t n, long fail_at) { struct ck *k = calloc(1, sizeof *k); k->b = b; k->n = n; k->fail = fail_at; cookie_io_functions_t io = { rdk, 0, 0, 0 }; k->f = fopencookie(k, "r", io); cks[ncks++] = k; return k->f; }
FILE *sx_outfile(long fail_at) { struct ck *k = calloc(1, sizeof *k); k->wfail = fail_at; k->o = calloc(1, 16); k->oc = 16; cookie_io_functions_t io = { 0, wrk, 0, 0 }; k->f = fopencookie(k, "w", io); setvbuf(k->f, 0, _IONBF, 0); cks[ncks++] = k; return k->f; }
static struct ck *findk(FILE *f) { for (int i = ncks - 1; i >= 0; i--) if (cks[i] && cks[i]->f == f) return cks[i]; abort(); }
char *sx_outdata(FILE *f, size_t *n) { struct ck *k = findk(f); if (n) *n = k->ol; return k->o; }
void sx_once(FILE *f) { findk(f)->once = 1; }
void sx_close(FILE *f) { for (int i = ncks - 1; i >= 0; i--) if (cks[i] && cks[i]->f == f) { fclose(f); free(cks[i]->o); free(cks[i]); cks[i] = cks[--ncks]; return; } }
void sx_stdio(FILE *i, FILE *o, FILE *e) { stdin = i; stdout = o; stderr = e; }
static struct { const char *name; FILE *f; } vxf[4]; static int nvxf, ttys;
void sx_file(const char *name, FILE *f) { vxf[nvxf].name = name; vxf[nvxf++].f = f; }
void sx_tty(int mask) { ttys = mask; }
FILE *vx_fopen(const char *n, const char *m) { for (int i = 0; i < nvxf; i++) if (!strcmp(vxf[i].name, n)) return vxf[i].f; errno = ENOENT; return 0; }
int vx_fclose(FILE *f) { return 0; }
int vx_fileno(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : 3; }
int vx_isatty(int fd) { return fd >= 0 && fd < 3 && (ttys >> fd & 1); }
FILE *vx_open_memstream(char **b, size_t *n) { FILE *f = open_memstream(b, n); if (f) live++; return f; }
static char *vxs_strtok;
char *vx_strtok(char *s, const char *d) { char *t = s ? s : vxs_strtok; s = strtok_r(0, d, &t); vxs_strtok = t; return s; }
void sx_freeze(int on) { }
#include <pthread.h>
static void (*thf)(int); static pthread_barrier_t thb;
static void *th(void *p) { pthread_barrier_wait(&thb); thf((int)(long)p); return 0; }
void sx_threads(void (*f)(int), int n) { pthread_t t[8]; thf = f; pthread_barrier_init(&thb, 0, n); for (int i = 0; i < n; i++) pthread_create(&t[i], 0, th, (void *)(long)i); for (int i = 0; i < n; i++) pthread_join(t[i], 0); }
#include <stdarg.h>
int vx_vasprintf(char **o, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(0, 0, f, c); va_end(c); *o = vx_malloc(n + 1); if (!*o) return -1; vsnprintf(*o, n + 1, f, ap); return n; }
void *vx_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return 0; } return vx_realloc(p, a * b); }
int vx_asprintf(char **o, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = vx_vasprintf(o, f, ap); __builtin_va_end(ap); return r; }
static unsigned char *unhex(const char *s, size_t *n) { size_t l = strlen(s) / 2; unsigned char *p = malloc(l ? l : 1); for (size_t i = 0; i < l; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); p[i] = v; } *n = l; return p; }
static void onalarm(int s) { dprintf(2, "DOES NOT TERMINATE within the replay limit\n"); _exit(95); }
static void runit(void) { signal(SIGALRM, onalarm); alarm(20); void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, entry); if (!f) { dprintf(2, "no entry %s\n", entry); _exit(94); } f(); fin(); }
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r"); if (!f) return 93; static char *line; size_t cap = 0; int idx = 0, bad = 0;
  for (;;) { ssize_t r = getline(&line, &cap, f); int end = r < 0; if (!end && line[r - 1] == '\n') line[--r] = 0;
    if (end || !strcmp(line, "--")) { if (entry[0]) { fflush(0); pid_t p = fork(); if (!p) runit(); int w; waitpid(p, &w, 0); int rc = WIFEXITED(w) ? WEXITSTATUS(w) : 128 + WTERMSIG(w); printf("%d %d %s\n", idx++, rc, name); fflush(stdout); if (rc) bad = rc; } entry[0] = 0; nparams = ntexts = 0; nbytes = 0; want = 0; if (end) break; continue; }
    if (!strncmp(line, "entry ", 6)) strcpy(entry, line + 6); else if (!strncmp(line, "name ", 5)) snprintf(name, sizeof name, "%s", line + 5); else if (!strncmp(line, "param ", 6)) params[nparams++] = atol(line + 6); else if (!strncmp(line, "text ", 5)) { texts[ntexts] = unhex(line + 5, &tlen[ntexts]); ntexts++; } else if (!strncmp(line, "bytes ", 6)) bytes = unhex(line + 6, &nbytes); else if (!strncmp(line, "trace ", 6)) { unsigned long long q; sscanf(line + 6, "%lu %llu", &wn, &q); wh = q; want = 1; } }
  return argc > 2 ? 0 : bad; }
