/* P33: calls on separate objects, and calls that only read a shared tree, write nothing that another thread can see. */
#define DTLS __thread
#include "dump.h"
#include <stdlib.h>
void sx_freeze(int on); void sx_threads(void (*f)(int), int n);
static const char *ts; static size_t tn; static int tfl; static cypher_parse_result_t *shared; static FILE *tin[2]; static struct sb tout[2]; static int what; static cypher_ast_annotation_context_t *sctx, *sctx2;
static void mark(N *x) { cypher_astnode_attach_annotation(sctx, x, (void *)x, NULL); cypher_astnode_attach_annotation(sctx2, x, &sctx2, NULL); for (unsigned i = 0; i < cypher_astnode_nchildren(x); i++) mark(cypher_astnode_get_child(x, i)); }
static void marks(struct sb *o, N *x) { sb_u(o, cypher_astnode_get_annotation(sctx, x) == (void *)x && cypher_astnode_get_annotation(sctx2, x) == (void *)&sctx2); for (unsigned i = 0; i < cypher_astnode_nchildren(x); i++) marks(o, cypher_astnode_get_child(x, i)); }
static void text_of(struct sb *o, char **p, size_t *m, FILE *f) { fclose(f); sb_put(o, *p, *m); free(*p); *p = NULL; }
static int seg_cb(void *u, cypher_parse_segment_t *s) { struct sb *o = u; char *p; size_t m; FILE *f = open_memstream(&p, &m); if (!f) return -1; cypher_parse_segment_fprint_ast(s, f, 40, cypher_parser_ansi_colorization, CYPHER_PARSE_DEFAULT); text_of(o, &p, &m, f); for (unsigned i = 0; i < cypher_parse_segment_nerrors(s); i++) { const cypher_parse_error_t *e = cypher_parse_segment_get_error(s, i); sb_s(o, cypher_parse_error_message(e)); sb_s(o, cypher_parse_error_context(e)); } return 0; }
static int qs_cb(void *u, const cypher_quick_parse_segment_t *s) { size_t l; const char *p = cypher_quick_parse_segment_get_text(s, &l); sb_put(u, p, l); sb_s(u, cypher_quick_parse_segment_is_statement(s) ? ";" : ":"); return 0; }
static void reads(struct sb *o, const cypher_parse_result_t *r) { dump_result(o, r, S_RANGE | S_CHILD); char *p; size_t m; FILE *f = open_memstream(&p, &m); if (!f) return; cypher_parse_result_fprint_ast(r, f, 60, NULL, 0); text_of(o, &p, &m, f);
  for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { N *x = cypher_parse_result_get_root(r, i); cypher_astnode_t *c = cypher_ast_clone(x); if (c) { dump(o, c, 0, 0); cypher_ast_annotation_context_t *a = cypher_ast_annotation_context(); if (a) { cypher_astnode_attach_annotation(a, c, o, NULL); sb_u(o, cypher_astnode_get_annotation(a, c) == o); cypher_astnode_remove_annotation(a, c); cypher_ast_annotation_context_free(a); } cypher_ast_free(c); } } }
static void work(int t) { struct sb *o = &tout[t]; 
  if (what & 1) { reads(o, shared); for (unsigned i = 0; i < cypher_parse_result_nroots(shared); i++) marks(o, cypher_parse_result_get_root(shared, i)); }
  if (what & 2) { cypher_parser_config_t *c = cypher_parser_new_config(); cypher_parser_config_set_initial_ordinal(c, 3); cypher_parse_result_t *r = cypher_uparse(ts, tn, NULL, c, tfl); if (r) { reads(o, r); cypher_parse_result_free(r); } cypher_parser_config_free(c); }
  if (what & 4) { cypher_uparse_each(ts, tn, seg_cb, o, NULL, NULL, tfl); if (tin[t]) cypher_fparse_each(tin[t], seg_cb, o, NULL, NULL, tfl); cypher_quick_uparse(ts, tn, qs_cb, o, 0); } }
void threads(void) { size_t n; char *s = sx_text(0, &n); ts = s; tn = n; tfl = sx_param(0); what = sx_param(1); shared = cypher_uparse(s, n, NULL, NULL, tfl); SX_ASSERT(shared != NULL); if (!shared) return; tin[0] = sx_infile(s, n, -1); tin[1] = sx_infile(s, n, -1);
  sctx = cypher_ast_annotation_context(); sctx2 = cypher_ast_annotation_context(); SX_ASSERT(sctx && sctx2); for (unsigned i = 0; i < cypher_parse_result_nroots(shared); i++) mark(cypher_parse_result_get_root(shared, i));
  sx_freeze(1); sx_threads(work, 2); sx_freeze(0);
  sx_assert(sb_eq(&tout[0], &tout[1]), "two threads get different results for the same input"); sx_trace(tout[0].n); sx_reach("shared");
  for (int t = 0; t < 2; t++) { sb_free(&tout[t]); sx_close(tin[t]); } cypher_ast_annotation_context_free(sctx); cypher_ast_annotation_context_free(sctx2); cypher_parse_result_free(shared); sx_free(s); }
