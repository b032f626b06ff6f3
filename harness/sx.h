/* Interface between the harnesses and either the symbolic executor or the native replay runtime. */
#pragma once
#include <stddef.h>
#include <stdio.h>
unsigned char sx_sym(void);              /* an arbitrary byte */
unsigned char sx_in(int lo, int hi);     /* an arbitrary byte in [lo,hi] */
char *sx_text(int k, size_t *n);         /* the k-th template of the job: exactly n bytes, no terminator */
long sx_param(int i);
int sx_nparams(void);
void sx_assume(int c);
void sx_assert(int c, const char *what);
long sx_conc(long v);                    /* fork over the feasible values */
void sx_trace(long v);                   /* observable outcome, compared with the native run of the path's model */
int sx_live(void);                       /* heap blocks the code under test currently owns */
void sx_reach(const char *what);
int sx_native(void);
void *sx_alloc(size_t n, int harness);
void sx_free(void *p);
void sx_oom(long k);                     /* allocation number k from now fails (k may be symbolic); -1: none */
void sx_oom_from(long k);                /* as sx_oom, and every later one fails too */
int sx_oom_hit(void);
long sx_alloc_count(void);
FILE *sx_infile(const char *b, size_t n, long fail_at);   /* reading byte number fail_at is an I/O error; -1: none */
FILE *sx_outfile(long fail_at);
void sx_once(FILE *f); /* only one write fails */
char *sx_outdata(FILE *f, size_t *n);
void sx_close(FILE *f);
void sx_stdio(FILE *in, FILE *out, FILE *err);
void sx_file(const char *name, FILE *f);  /* the file opened by that name */
void sx_tty(int mask);
#define SX_ASSERT(c) sx_assert(!!(c), #c)
