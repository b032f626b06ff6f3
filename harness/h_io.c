/* P30: failing reads and writes. */
#include "dump.h"
#include <errno.h>
#include <limits.h>
static struct sb full; static size_t at[64]; static int nseg, cur, chk;
static void deliver(struct sb *b) { if (!chk) { sb_put(&full, b->p, b->n); if (nseg < 62) at[++nseg] = full.n; sb_free(b); return; }
  int ok = cur < nseg && at[cur + 1] - at[cur] == b->n && !memcmp(full.p + at[cur], b->p, b->n); sx_assert(ok, "a segment is delivered from a failing input that the whole input does not have"); cur++; sb_free(b); }
static void rng(struct sb *b, struct cypher_input_range r) { ser_pos(b, r.start); sb_s(b, "-"); ser_pos(b, r.end); }
static int cb(void *u, cypher_parse_segment_t *s) { struct sb b = { 0 }; rng(&b, cypher_parse_segment_get_range(s)); D.b = &b; D.flags = S_RANGE | S_CHILD;
  for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) ser(cypher_parse_segment_get_root(s, i)); D.b = 0;
  for (unsigned i = 0; i < cypher_parse_segment_nerrors(s); i++) { const cypher_parse_error_t *e = cypher_parse_segment_get_error(s, i); ser_pos(&b, cypher_parse_error_position(e)); sb_s(&b, cypher_parse_error_message(e)); }
  sb_s(&b, cypher_parse_segment_is_eof(s) ? "!" : "."); deliver(&b); return 0; }
static int qcb(void *u, const cypher_quick_parse_segment_t *s) { struct sb b = { 0 }; size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n); if (n) sb_put(&b, t, n); rng(&b, cypher_quick_parse_segment_get_range(s)); ser_pos(&b, cypher_quick_parse_segment_get_next(s)); sb_s(&b, cypher_quick_parse_segment_is_statement(s) ? "s" : "c"); deliver(&b); return 0; }
static int go(int api, FILE *f, int flags) {
  if (api == 0) return cypher_fparse_each(f, cb, NULL, NULL, NULL, flags);
  if (api == 2) return cypher_quick_fparse(f, qcb, NULL, flags);
  cypher_parse_result_t *r = cypher_fparse(f, NULL, NULL, flags); if (!r) return -1; struct sb b = { 0 }; D.b = &b; D.flags = S_RANGE | S_CHILD; for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) ser(cypher_parse_result_get_root(r, i)); D.b = 0;
  for (unsigned i = 0; i < cypher_parse_result_nerrors(r); i++) { const cypher_parse_error_t *e = cypher_parse_result_get_error(r, i); ser_pos(&b, cypher_parse_error_position(e)); sb_s(&b, cypher_parse_error_message(e)); } deliver(&b); cypher_parse_result_free(r); return 0; }
/* parameters: api (0 each, 1 result, 2 quick), flags, first offset (the fault is at one of 128 offsets), 1 for a single fault after which writing works again */
void rfault(void) { int api = sx_param(0), flags = sx_param(1); size_t n; char *t = sx_text(0, &n); long k = sx_param(2) + (long)sx_in(0, 127); if (sx_param(2) > (long)n) { sx_free(t); return; } int base = sx_live();
  FILE *f = sx_infile(t, n, -1); chk = 0; int rc = go(api, f, flags); sx_assert(rc == 0, "an input without faults fails"); sx_close(f); sx_assert(sx_live() == base, "memory is left over"); int live = sx_live();
  chk = 1; f = sx_infile(t, n, k); errno = 0; rc = go(api, f, flags); int e = errno; int hit = ferror(f); sx_trace(rc);
  if (hit) { sx_assert(rc != 0, "a read error goes unnoticed"); sx_assert(rc == 0 || (rc == -1 && e == EIO), "a read error is not reported by -1 (or null) and errno"); sx_reach("failed"); }
  else { sx_assert(rc == 0, "an input fails although reading it does not"); sx_assert(cur == nseg, "segments are missing"); sx_reach("not reached"); }
  sx_close(f); sx_assert(sx_live() == live, "memory is left over after a read error"); sb_free(&full); sx_free(t); }
static FILE *so; static int width, colours; static int sres, scount;
static int pcb(void *u, cypher_parse_segment_t *s) { (void)u; scount++; errno = 0; int r = cypher_parse_segment_fprint_ast(s, so, width, colours ? cypher_parser_ansi_colorization : NULL, 0); if (r < 0) { sres = errno; return -7; } return 0; }
static int out(int api, cypher_parse_result_t *r, const char *t, size_t n) { const struct cypher_parser_colorization *c = colours ? cypher_parser_ansi_colorization : NULL;
  if (api == 0) return cypher_parse_result_fprint_ast(r, so, width, c, 0);
  if (api == 1) { sres = 0; int rc = cypher_uparse_each(t, n, pcb, NULL, NULL, NULL, CYPHER_PARSE_DEFAULT); if (rc) { sx_assert(rc == -7 && sres, "a failing callback is not reported"); errno = sres; return -1; } return 0; }
  for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) if (cypher_ast_fprint(cypher_parse_result_get_root(r, i), so, width, c, 0) < 0) return -1;
  return 0; }
/* parameters: api (0 result, 1 segment, 2 tree), width, colours, first offset (the fault is at one of 128 offsets), 1 for a single fault after which writing works again */
void wfault(void) { int api = sx_param(0); width = sx_param(1); colours = sx_param(2); size_t n; char *t = sx_text(0, &n); cypher_parse_result_t *r = cypher_uparse(t, n, NULL, NULL, 0); sx_assert(r != NULL, "parse"); int base = sx_live();
  FILE *w = so = sx_outfile(-1); int rc = out(api, r, t, n); sx_assert(rc == 0, "printing fails without faults"); size_t total; char *o = sx_outdata(w, &total); sx_assert(sx_live() == base, "memory is left over after printing");
  long k = sx_param(3) + (long)sx_in(0, 127); if (sx_param(3) > (long)total) { sx_close(w); cypher_parse_result_free(r); sx_free(t); return; } FILE *v = so = sx_outfile(k); if (sx_param(4)) sx_once(v); errno = 0; rc = out(api, r, t, n); int e = errno; size_t got; char *p = sx_outdata(v, &got);
  sx_trace(rc); if (k < (long)total) { sx_assert(rc < 0, "a write error goes unnoticed"); sx_assert(rc == -1 && e == ENOSPC, "a write error is not reported by -1 and errno"); sx_reach("failed"); } else { sx_assert(rc == 0, "printing fails although no write does"); sx_reach("not reached"); }
  if (!sx_param(4)) { sx_assert((long)got <= k, "more was written"); sx_assert(got <= total && (!got || !memcmp(p, o, got)), "what was written before the error differs"); } else sx_assert((long)got >= (k < (long)total ? k : (long)total) && (!k || !memcmp(p, o, k < (long)total ? k : (long)total)), "what was written before the error differs");
  sx_assert(sx_live() == base, "memory is left over after a write error"); sx_close(w); sx_close(v); cypher_parse_result_free(r); sx_free(t); }
