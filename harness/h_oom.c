/* P23: an allocation fails, at any one point or from any point on. */
#include "dump.h"
#include <errno.h>
struct got { struct sb b; int n; };
static int seg_cb(void *u, cypher_parse_segment_t *s) { struct got *g = u; g->n++; struct cypher_input_range r = cypher_parse_segment_get_range(s); D.base = 0; ser_pos(&g->b, r.start); ser_pos(&g->b, r.end);
  for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) dump(&g->b, cypher_parse_segment_get_root(s, i), S_RANGE | S_CHILD, 0);
  for (unsigned i = 0; i < cypher_parse_segment_nerrors(s); i++) { const cypher_parse_error_t *e = cypher_parse_segment_get_error(s, i); sb_s(&g->b, cypher_parse_error_message(e)); const char *c = cypher_parse_error_context(e); if (c) sb_s(&g->b, c); } return 0; }
static int qseg_cb(void *u, const cypher_quick_parse_segment_t *s) { struct got *g = u; g->n++; struct cypher_input_range r = cypher_quick_parse_segment_get_range(s); D.base = 0; ser_pos(&g->b, r.start); ser_pos(&g->b, r.end); size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n); sb_put(&g->b, t, n); return 0; }
static void handler(void *u, const cypher_astnode_t *n, void *a) { ++*(int *)u; }
static char *ts; static size_t tn;
/* the operation under test: 0 when it succeeded (its outcome in g), -1 when it reports failure */
static int op(int mode, struct got *g) { cypher_parse_result_t *r; int rc; FILE *f;
  switch (mode) {
    case 0: r = cypher_uparse(ts, tn, NULL, NULL, 0); if (!r) return -1; sx_oom(-1); dump_result(&g->b, r, S_RANGE | S_CHILD); cypher_parse_result_free(r); return 0;
    case 1: return cypher_uparse_each(ts, tn, seg_cb, g, NULL, NULL, 0);
    case 2: return cypher_quick_uparse(ts, tn, qseg_cb, g, 0);
    case 3: f = sx_infile(ts, tn, -1); r = cypher_fparse(f, NULL, NULL, 0); rc = errno; sx_close(f); errno = rc; if (!r) return -1; sx_oom(-1); dump_result(&g->b, r, S_RANGE | S_CHILD); cypher_parse_result_free(r); return 0;
    case 4: f = sx_infile(ts, tn, -1); rc = cypher_quick_fparse(f, qseg_cb, g, 0); { int e = errno; sx_close(f); errno = e; } return rc;
    case 5: { cypher_parser_config_t *c = cypher_parser_new_config(); if (!c) return -1; cypher_parser_config_set_error_colorization(c, cypher_parser_ansi_colorization); r = cypher_uparse(ts, tn, NULL, c, 0); int e = errno; cypher_parser_config_free(c); errno = e; if (!r) return -1; sx_oom(-1); dump_result(&g->b, r, S_RANGE | S_CHILD); cypher_parse_result_free(r); return 0; }
  } return 0; }
/* on a tree parsed beforehand: clone, print, annotate */
static int optree(int mode, struct got *g, cypher_parse_result_t *r) { int rc = 0;
  if (mode == 10) for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { cypher_astnode_t *c = cypher_ast_clone(cypher_parse_result_get_root(r, i)); if (!c) return -1; dump(&g->b, c, S_RANGE | S_CHILD, 0); cypher_ast_free(c); }
  if (mode == 11) { FILE *f = sx_outfile(-1); rc = cypher_parse_result_fprint_ast(r, f, 60, NULL, 0); int e = errno; if (!rc) { size_t m; char *o = sx_outdata(f, &m); sb_put(&g->b, o, m); } sx_close(f); errno = e; }
  if (mode == 12) { int rel = 0, ats = 0; cypher_ast_annotation_context_t *c = cypher_ast_annotation_context(); if (!c) return -1; cypher_ast_annotation_context_set_release_handler(c, handler, &rel);
    for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { N *x = cypher_parse_result_get_root(r, i); rc = cypher_astnode_attach_annotation(c, x, &ats, NULL); int e = errno; if (rc) { errno = e; break; } ats++; sx_assert(cypher_astnode_get_annotation(c, x) == &ats, "an attached annotation is not found"); }
    int e = errno; cypher_ast_annotation_context_free(c); errno = e; sx_assert(rel == ats, "annotations released differ from those attached"); if (!rc) sb_u(&g->b, rel); }
  if (mode == 13) { for (unsigned i = 0; i < cypher_parse_result_nerrors(r) && !rc; i++) { const cypher_parse_error_t *e = cypher_parse_result_get_error(r, i); FILE *f = sx_outfile(-1); (void)e; sx_close(f); } }
  return rc; }
/* params: mode, sticky */
void oom(void) { ts = sx_text(0, &tn); int mode = sx_param(0), sticky = sx_param(1); struct got a = {{0}}, b = {{0}}; cypher_parse_result_t *r = NULL; int before = sx_live();
  if (mode >= 10) { r = cypher_uparse(ts, tn, NULL, NULL, 0); SX_ASSERT(r != NULL); if (!r) return; }
  int live = sx_live(); int rc = mode >= 10 ? optree(mode, &a, r) : op(mode, &a); SX_ASSERT(rc == 0); sx_assert(sx_live() == live, "memory is not released when nothing fails");
  long k = sx_sym() + 256L * sx_in(0, 7); errno = 0; if (sticky) sx_oom_from(k); else sx_oom(k);
  rc = mode >= 10 ? optree(mode, &b, r) : op(mode, &b); int e = errno; int hit = sx_oom_hit(); sx_oom(-1);
  if (rc) { sx_assert(hit, "an operation fails although no allocation did"); sx_assert(e == ENOMEM, "a failed allocation is not reported as ENOMEM"); sx_reach("failed"); if (mode == 1 || mode == 2 || mode == 4) sx_assert(b.b.n <= a.b.n && (!b.b.n || !memcmp(a.b.p, b.b.p, b.b.n)), "what was delivered before a failed allocation differs"); }
  else { sx_assert(sb_eq(&a.b, &b.b), "a failed allocation changes the outcome silently"); sx_reach("ok"); }
  sx_trace(rc); sx_trace(e == ENOMEM); sx_assert(sx_live() == live, "memory is not released after a failed allocation");
  if (r) cypher_parse_result_free(r); sb_free(&a.b); sb_free(&b.b); sx_assert(sx_live() == before, "memory remains"); sx_free(ts); }
