/* P34: segments that are retained; P35: histories of configurations. */
#include "dump.h"
#include <errno.h>
enum { MAXS = 40 };
static struct sb ref[MAXS]; static int nref;
static void seg_dump(struct sb *b, const cypher_parse_segment_t *s) { struct cypher_input_range r = cypher_parse_segment_get_range(s); D.base = 0; ser_pos(b, r.start); sb_s(b, ".."); ser_pos(b, r.end); sb_s(b, cypher_parse_segment_is_eof(s) ? "E " : " "); sb_u(b, cypher_parse_segment_nnodes(s)); sb_s(b, "\n");
  N *d = cypher_parse_segment_get_directive(s); unsigned n = cypher_parse_segment_nroots(s), f = 0; for (unsigned i = 0; i < n; i++) { N *x = cypher_parse_segment_get_root(s, i); f += x == d; sb_s(b, x == d ? "*" : "-"); dump(b, x, S_RANGE | S_CHILD, 0); sb_s(b, "\n"); } sb_u(b, f); sb_u(b, d != NULL);
  n = cypher_parse_segment_nerrors(s); for (unsigned i = 0; i < n; i++) { const cypher_parse_error_t *e = cypher_parse_segment_get_error(s, i); D.base = 0; sb_s(b, "!"); ser_pos(b, cypher_parse_error_position(e)); sb_s(b, cypher_parse_error_message(e)); const char *c = cypher_parse_error_context(e); sb_s(b, c ? c : "-"); sb_u(b, cypher_parse_error_context_offset(e)); sb_s(b, "\n"); }
  sb_u(b, cypher_parse_segment_get_root(s, cypher_parse_segment_nroots(s)) != NULL || cypher_parse_segment_get_error(s, n) != NULL); }
static void seg_print(struct sb *b, const cypher_parse_segment_t *s) { FILE *f = sx_outfile(-1); int rc = cypher_parse_segment_fprint_ast(s, f, 60, NULL, 0); size_t m; char *o = sx_outdata(f, &m); sb_u(b, rc); sb_put(b, o, m); sx_close(f); }
static struct sb pref[MAXS];
static int ref_cb(void *u, cypher_parse_segment_t *s) { (void)u; sx_assume(nref < MAXS); seg_dump(&ref[nref], s); seg_print(&pref[nref], s); nref++; return 0; }
static cypher_parse_segment_t *kept[MAXS]; static int refs[MAXS], cnt, stop, quiet; static unsigned plan;
/* with a plan the choices follow from it, else all of them are explored */
static int choose(int hi) { if (!plan) { unsigned char c = sx_in(0, hi); for (int i = 0; i < hi; i++) if (c == i) return i; return hi; } plan = plan * 1103515245u + 12345u; return (plan >> 16) % (hi + 1); }
static void unchanged(int i) { struct sb b = {0}; seg_dump(&b, kept[i]); sx_assert(sb_eq(&b, &ref[i]), "a retained segment is not what it was"); sb_free(&b); if (!quiet) { seg_print(&b, kept[i]); sx_assert(sb_eq(&b, &pref[i]), "a retained segment is rendered differently"); sb_free(&b); } }
static void drop(int i) { while (refs[i] > 2) { cypher_parse_segment_release(kept[i]); refs[i]--; } cypher_parse_segment_release(kept[i]); if (!--refs[i]) kept[i] = NULL; }
static int keep_cb(void *u, cypher_parse_segment_t *s) { (void)u; int i = cnt++; sx_assert(i < nref, "more segments than without the fault"); if (i >= nref) return 0;
  sb_free(&ref[i]); seg_dump(&ref[i], s);
  if (i < 3 || plan) { int k = choose(2); if (k && plan && i < 2 && choose(5) == 0) k = choose(3) ? 300 : 66000; for (int j = 0; j < k; j++) cypher_parse_segment_retain(s); if (k) { kept[i] = s; refs[i] = k; } if (k == 2 && (i == 0 || plan) && choose(1)) { drop(i); unchanged(i); } }
  for (int j = 0; j < i; j++) if (kept[j]) { unchanged(j); if (j == i - 1 && choose(1)) drop(j); }
  return stop >= 0 && i == stop ? -9 : 0; }
/* params: mode (0 buffer, 1 stream, 2 failing stream, 3 failing allocation, 4 the callback stops), plan, flags */
void retained(void) { size_t n, n2; char *s = sx_text(0, &n), *s2 = sx_text(1, &n2); int mode = sx_param(0), fl = sx_param(2); plan = sx_param(1); int before = sx_live();
  int rc = cypher_uparse_each(s, n, ref_cb, NULL, NULL, NULL, fl); SX_ASSERT(rc == 0); sx_assert(sx_live() == before, "memory remains although nothing is retained");
  cypher_parser_config_t *c = cypher_parser_new_config(); char *t = sx_alloc(n ? n : 1, 1); if (n) memcpy(t, s, n); struct cypher_input_position last = POS0; stop = -1;
  if (mode == 4) stop = nref ? plan ? choose(nref - 1) : choose(nref > 3 ? 2 : nref - 1) : 0;
  if (mode == 1 || mode == 2) { FILE *f = sx_infile(t, n, mode == 1 ? -1 : plan ? (long)(plan >> 8) % (long)(n + 1) : (long)sx_in(0, n > 250 ? 250 : n)); rc = cypher_fparse_each(f, keep_cb, NULL, &last, c, fl); if (mode == 2 && ferror(f)) sx_reach("failed"); else SX_ASSERT(rc == 0); sx_close(f); }
  else { quiet = mode == 3; if (mode == 3) sx_oom(sx_sym() + 256L * sx_in(0, 3)); rc = cypher_uparse_each(t, n, keep_cb, NULL, &last, c, fl); int hit = sx_oom_hit(); sx_oom(-1); quiet = 0; if (mode == 3 && rc) { sx_assert(hit, "parsing fails although no allocation does"); sx_reach("failed"); } else if (mode == 4 && nref) sx_assert(rc == -9, "the callback's answer is not returned"); else SX_ASSERT(rc == 0); }
  sx_trace(rc); sx_trace(cnt); if (rc == 0) sx_assert(cnt == nref, "segments are missing");
  cypher_parser_config_free(c); for (size_t i = 0; i < n; i++) t[i] = '#'; sx_free(t); int live = 0;
  for (int i = 0; i < nref; i++) if (kept[i]) { unchanged(i); live++; }
  cypher_parse_result_t *o = cypher_uparse(s2, n2, NULL, NULL, 0); SX_ASSERT(o != NULL);
  for (int i = 0; i < nref; i++) if (kept[i]) unchanged(i);
  if (o) cypher_parse_result_free(o);
  while (live) { int k = live > 3 && !plan ? choose(2) : choose(live - 1); int i = 0; for (;; i++) if (kept[i] && !k--) break; drop(i); live -= !kept[i]; for (int j = 0; j < nref; j++) if (kept[j]) unchanged(j); sx_reach("kept"); }
  cypher_parse_segment_release(NULL); sx_assert(sx_live() == before, "memory remains after every segment has been released");
  for (int i = 0; i < nref; i++) { sb_free(&ref[i]); sb_free(&pref[i]); } sx_reach("done"); sx_free(s); sx_free(s2); }
/* P35 */
enum { NP = 3, NO = 3, NC = 4, NCFG = 2 };
static const struct cypher_input_position pv[NP] = { { 1, 1, 0 }, { 3, 7, 100 }, { 1, 12, 11 } }; static const unsigned ov[NO] = { 0, 5, 4000000000u };
static struct cypher_parser_colorization own = { .error = { "<<", ">>" }, .error_token = { "[", "]" }, .error_message = { "{", "}" } };
static const struct cypher_parser_colorization *cv(int i) { return i == 0 ? cypher_parser_no_colorization : i == 1 ? cypher_parser_ansi_colorization : &own; }
static int cstate[NCFG][3]; static cypher_parser_config_t *cfg[NCFG]; static char *ct; static size_t cn; static int cfl;
static int conf_cb(void *u, cypher_parse_segment_t *s) { seg_dump(u, s); seg_print(u, s); return 0; }
static void conf_run(struct sb *b, cypher_parser_config_t *c) { struct cypher_input_position last = POS0; int rc = cypher_uparse_each(ct, cn, conf_cb, b, &last, c, cfl); sb_u(b, rc); D.base = 0; ser_pos(b, last); 
  cypher_parse_result_t *r = cypher_uparse(ct, cn, &last, c, cfl); SX_ASSERT(r != NULL); if (r) { dump_result(b, r, S_RANGE | S_CHILD); cypher_parse_result_free(r); } ser_pos(b, last); }
static struct sb cref[NP][NO][3]; static int have[NP][NO][3];
static void conf_same(int i, cypher_parser_config_t *c) { int *q = i < 0 ? (int[3]){ 0, 0, 0 } : cstate[i]; struct sb *w = &cref[q[0]][q[1]][q[2]];
  if (!have[q[0]][q[1]][q[2]]) { have[q[0]][q[1]][q[2]] = 1; cypher_parser_config_t *x = cypher_parser_new_config(); SX_ASSERT(x != NULL); cypher_parser_config_set_error_colorization(x, cv(q[2])); cypher_parser_config_set_initial_position(x, pv[q[0]]); cypher_parser_config_set_initial_ordinal(x, ov[q[1]]); conf_run(w, x); cypher_parser_config_free(x); }
  struct sb b = {0}; conf_run(&b, c); sx_assert(sb_eq(&b, w), "a configuration is not that of the values set last"); sx_trace(b.n); sb_free(&b); }
static void conf_op(int o) { int i = o % NCFG, v; o /= NCFG;
  if (o < 3) { v = o; cypher_parser_config_set_initial_position(cfg[i], pv[v]); cstate[i][0] = v; }
  else if (o < 6) { v = o - 3; cypher_parser_config_set_initial_ordinal(cfg[i], ov[v]); cstate[i][1] = v; }
  else if (o < 9) { v = o - 6; cypher_parser_config_set_error_colorization(cfg[i], cv(v)); cstate[i][2] = v; }
  else if (o == 9) conf_same(i, cfg[i]);
  else if (o == 10) { cypher_parser_config_free(cfg[i]); cfg[i] = cypher_parser_new_config(); SX_ASSERT(cfg[i] != NULL); cstate[i][0] = cstate[i][1] = cstate[i][2] = 0; }
  else { FILE *f = sx_infile(ct, cn, cn ? (long)cn / 2 : 0); struct sb b = {0}; struct cypher_input_position last; cypher_fparse_each(f, conf_cb, &b, &last, cfg[i], cfl); sb_free(&b); sx_close(f); cypher_parser_config_free(NULL); } }
/* params: flags, number of free operations, then operations to begin with */
void configured(void) { ct = sx_text(0, &cn); cfl = sx_param(0); int k = sx_param(1), before = sx_live(); for (int i = 0; i < NCFG; i++) { cfg[i] = cypher_parser_new_config(); SX_ASSERT(cfg[i] != NULL); }
  for (int i = 2; i < sx_nparams(); i++) conf_op(sx_param(i));
  for (int i = 0; i < k; i++) { int o = sx_in(0, 12 * NCFG - 1); for (int j = 0; j < 12 * NCFG; j++) if (o == j) { conf_op(j); break; } }
  for (int i = 0; i < NCFG; i++) conf_same(i, cfg[i]); conf_same(-1, NULL);
  for (int i = 0; i < NCFG; i++) cypher_parser_config_free(cfg[i]); for (int a = 0; a < NP; a++) for (int b = 0; b < NO; b++) for (int c = 0; c < 3; c++) sb_free(&cref[a][b][c]);
  sx_assert(sx_live() == before, "memory remains"); sx_reach("configured"); sx_free(ct); }
