/* P01, P02, P03, P04, P09, P10: one input, everything a caller can do with it. */
#include "dump.h"
#include <errno.h>
static const struct cypher_parser_colorization *color(int k) { return k ? cypher_parser_ansi_colorization : cypher_parser_no_colorization; }
static unsigned consume_node(N *n) { unsigned s = cypher_astnode_type(n); const char *t = cypher_astnode_typestr(cypher_astnode_type(n)); if (t) s += strlen(t); return s; }
static void consume_result(cypher_parse_result_t *r, unsigned w, int col) {
  struct sb b = {0}; dump_result(&b, r, S_RANGE | S_CHILD); sx_trace(b.n); sb_free(&b);
  for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) check_tree(cypher_parse_result_get_root(r, i), C_PAST, 0, 0, POS0);
  FILE *f = sx_outfile(-1); cypher_parse_result_fprint_ast(r, f, w, color(col), 0); size_t m; sx_outdata(f, &m); sx_trace(m); sx_close(f); }
struct segs { int n; };
static int seg_cb(void *u, cypher_parse_segment_t *s) { struct segs *g = u; g->n++;
  for (unsigned i = 0; i < cypher_parse_segment_nerrors(s); i++) { const cypher_parse_error_t *e = cypher_parse_segment_get_error(s, i); sx_trace(strlen(cypher_parse_error_message(e))); }
  N *d = cypher_parse_segment_get_directive(s); if (d) sx_trace(consume_node(d)); return 0; }
static int qseg_cb(void *u, const cypher_quick_parse_segment_t *s) { struct segs *g = u; g->n++; size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n); unsigned x = 0; for (size_t i = 0; i < n; i++) x ^= t[i]; sx_trace(n); return 0; }
void safe(void) { size_t n; char *s = sx_text(0, &n); int mode = sx_param(0); unsigned w = sx_param(1); int fl = sx_param(2);
  if (mode & 1) { cypher_parse_result_t *r = cypher_uparse(s, n, NULL, NULL, fl); sx_assert(r != NULL, "parsing fails although memory is available"); if (r) { sx_trace(cypher_parse_result_nerrors(r)); consume_result(r, w, mode >> 8 & 1);
      if (mode & 8) for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { cypher_astnode_t *c = cypher_ast_clone(cypher_parse_result_get_root(r, i)); if (c) cypher_ast_free(c); }
      cypher_parse_result_free(r); } }
  if (mode & 2) { struct segs g = {0}; cypher_parser_config_t *c = cypher_parser_new_config(); if (mode >> 8 & 1) cypher_parser_config_set_error_colorization(c, color(1)); struct cypher_input_position last = POS0; int rc = cypher_uparse_each(s, n, seg_cb, &g, &last, c, fl); sx_trace(rc); sx_trace(g.n); sx_trace(last.offset); cypher_parser_config_free(c); }
  if (mode & 4) { struct segs g = {0}; sx_trace(cypher_quick_uparse(s, n, qseg_cb, &g, fl)); sx_trace(g.n); }
  sx_reach("done"); sx_free(s); }
/* P02 */
static int keep_cb(void *u, cypher_parse_segment_t *s) { cypher_parse_segment_t **k = u; cypher_parse_segment_retain(s); for (int i = 0; i < 4; i++) if (!k[i]) { k[i] = s; return sx_param(3) == i + 1 ? (int)sx_param(4) : 0; } cypher_parse_segment_release(s); return 0; }
void leaks(void) { size_t n; char *s = sx_text(0, &n); int mode = sx_param(0); int before = sx_live();
  if (mode & 1) { cypher_parse_result_t *r = cypher_uparse(s, n, NULL, NULL, 0); if (r) { 
      if (mode & 16) { cypher_ast_annotation_context_t *a = cypher_ast_annotation_context(); int x; for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) cypher_astnode_attach_annotation(a, cypher_parse_result_get_root(r, i), &x, NULL); if (mode & 32) { cypher_parse_result_free(r); r = 0; } cypher_ast_annotation_context_free(a); }
      if (mode & 8) for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { cypher_astnode_t *c = cypher_ast_clone(cypher_parse_result_get_root(r, i)); if (c) cypher_ast_free(c); }
      if (r) { FILE *f = sx_outfile(-1); cypher_parse_result_fprint_ast(r, f, 0, NULL, 0); sx_close(f); cypher_parse_result_free(r); } } }
  if (mode & 2) { cypher_parse_segment_t *k[4] = {0}; cypher_parser_config_t *c = cypher_parser_new_config(); int rc = cypher_uparse_each(s, n, keep_cb, k, NULL, c, sx_param(5)); sx_trace(rc); cypher_parser_config_free(c);
    for (int i = 3; i >= 0; i--) if (k[i]) { N *d = cypher_parse_segment_get_directive(k[i]); if (d) sx_trace(consume_node(d)); cypher_parse_segment_release(k[i]); } }
  if (mode & 4) { struct segs g = {0}; sx_trace(cypher_quick_uparse(s, n, qseg_cb, &g, 0)); }
  sx_assert(sx_live() == before, "memory allocated by the library is not released"); sx_reach("done"); sx_free(s); }
/* P03 */
void ranges(void) { size_t n; char *s = sx_text(0, &n); cypher_parse_result_t *r = cypher_uparse(s, n, NULL, NULL, sx_param(0)); if (!r) return; size_t last = 0;
  for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { N *x = cypher_parse_result_get_root(r, i); check_tree(x, C_RANGE, s, n, POS0); size_t o = cypher_astnode_range(x).start.offset; sx_assert(o >= last, "roots are not in source order"); last = o; sx_trace(o); sx_reach("tree"); }
  cypher_parse_result_free(r); sx_free(s); }
/* P09: ordinals as the rendering shows them, and the node counts */
static size_t skip_line(const char *o, size_t m, size_t i) { while (i < m && o[i] != '\n') i++; return i + 1; }
static unsigned count_nodes(N *n) { unsigned c = 1; for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) c += count_nodes(cypher_astnode_get_child(n, i)); return c; }
static unsigned seg_nodes; static unsigned seg_first; static int seg_bad;
static int ord_cb(void *u, cypher_parse_segment_t *s) { unsigned c = 0; for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) c += count_nodes(cypher_parse_segment_get_root(s, i)); sx_assert(c == cypher_parse_segment_nnodes(s), "a segment's node count is not the number of its nodes");
  FILE *f = sx_outfile(-1); cypher_parse_segment_fprint_ast(s, f, 0, NULL, 0); size_t m; char *o = sx_outdata(f, &m); size_t i = 0; unsigned want = seg_first + seg_nodes; unsigned lines = 0;
  while (i < m) { size_t j = i; while (j < m && o[j] == ' ') j++; sx_assert(j < m && o[j] == '@', "a rendered line does not start with an ordinal"); j++; unsigned v = 0; while (j < m && o[j] >= '0' && o[j] <= '9') v = v * 10 + (o[j++] - '0'); sx_assert(v == want, "ordinals are not consecutive in preorder"); want++; lines++; i = skip_line(o, m, i); }
  sx_assert(lines == c, "the rendering does not have one line per node"); sx_close(f); seg_nodes += c; sx_reach("segment"); return 0; }
void ordinals(void) { size_t n; char *s = sx_text(0, &n); cypher_parser_config_t *c = cypher_parser_new_config(); seg_first = sx_param(0); seg_nodes = 0; cypher_parser_config_set_initial_ordinal(c, seg_first);
  int rc = cypher_uparse_each(s, n, ord_cb, NULL, NULL, c, 0); SX_ASSERT(rc == 0);
  cypher_parse_result_t *r = cypher_uparse(s, n, NULL, c, 0); if (r) { unsigned t = 0; for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) t += count_nodes(cypher_parse_result_get_root(r, i)); sx_assert(t == cypher_parse_result_nnodes(r), "a result's node count is not the number of its nodes"); sx_assert(t == seg_nodes, "the whole result has a different number of nodes from its segments"); sx_trace(t); cypher_parse_result_free(r); }
  cypher_parser_config_free(c); sx_free(s); }
/* P10 */
void types(void) { size_t n; char *s = sx_text(0, &n); cypher_parse_result_t *r = cypher_uparse(s, n, NULL, NULL, sx_param(0)); if (!r) return;
  for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { N *x = cypher_parse_result_get_root(r, i); sx_trace(check_tree(x, C_TYPE | C_PAST, s, n, POS0)); sx_reach("tree"); }
  sx_assert(cypher_parse_result_get_root(r, cypher_parse_result_nroots(r)) == NULL && cypher_parse_result_get_directive(r, cypher_parse_result_ndirectives(r)) == NULL && cypher_parse_result_get_error(r, cypher_parse_result_nerrors(r)) == NULL, "a result accessor past the end is not null");
  for (unsigned i = 0; i < cypher_parse_result_ndirectives(r); i++) { int k = kind_of(cypher_parse_result_get_directive(r, i)); sx_assert(k == K_STATEMENT || (k == K_COMMAND && !sx_param(0)), "a directive is neither a statement nor a command"); unsigned f = 0; for (unsigned j = 0; j < cypher_parse_result_nroots(r); j++) f += cypher_parse_result_get_root(r, j) == cypher_parse_result_get_directive(r, i); sx_assert(f == 1, "a directive is not one of the roots"); }
  for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { int k = kind_of(cypher_parse_result_get_root(r, i)); sx_assert(k == K_STATEMENT || k == K_COMMAND || k == K_LINE_COMMENT || k == K_BLOCK_COMMENT || k == K_ERROR, "a root has an unexpected type"); }
  cypher_parse_result_free(r); sx_free(s); }
/* P04 */
static struct { struct cypher_input_position at; size_t total; int n, eof; struct cypher_input_position last; } G;
static const char *gs; static size_t gn; static struct cypher_input_position g0;
static int tile_cb(void *u, cypher_parse_segment_t *s) { struct cypher_input_range r = cypher_parse_segment_get_range(s); struct cypher_input_position a = pos_of(gs, gn, G.at.offset - g0.offset, g0);
  sx_assert(r.start.offset == G.at.offset, "a segment does not start where the previous one ended"); sx_assert(r.start.line == a.line && r.start.column == a.column, "a segment's start line/column are wrong");
  sx_assert(r.end.offset > r.start.offset && r.end.offset <= g0.offset + gn, "a segment is empty or extends past the input"); a = pos_of(gs, gn, r.end.offset - g0.offset, g0); sx_assert(a.line == r.end.line && a.column == r.end.column, "a segment's end line/column are wrong");
  sx_assert(!G.eof, "a segment follows the final one"); G.eof = cypher_parse_segment_is_eof(s); G.at = r.end; G.n++;
  for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) { struct cypher_input_range q = cypher_astnode_range(cypher_parse_segment_get_root(s, i)); sx_assert(r.start.offset <= q.start.offset && q.end.offset <= r.end.offset, "a root lies outside its segment"); }
  for (unsigned i = 0; i < cypher_parse_segment_nerrors(s); i++) { struct cypher_input_position p = cypher_parse_error_position(cypher_parse_segment_get_error(s, i)); sx_assert(r.start.offset <= p.offset && p.offset <= g0.offset + gn, "an error lies before its segment or past the input"); }
  sx_assert(cypher_parse_segment_get_root(s, cypher_parse_segment_nroots(s)) == NULL && cypher_parse_segment_get_error(s, cypher_parse_segment_nerrors(s)) == NULL, "a segment accessor past the end is not null");
  sx_reach("segment"); return 0; }
void tiles(void) { gs = sx_text(0, &gn); cypher_parser_config_t *c = cypher_parser_new_config(); g0 = POS0; if (sx_nparams() > 1 && sx_param(1)) { g0.line = sx_param(1); g0.column = sx_param(2); g0.offset = sx_param(3); cypher_parser_config_set_initial_position(c, g0); } G.at = g0; G.n = 0; G.eof = 0;
  struct cypher_input_position last = { 0, 0, 999999 }; int rc = cypher_uparse_each(gs, gn, tile_cb, NULL, &last, c, sx_param(0)); sx_assert(rc == 0, "parsing fails although memory is available");
  sx_assert(G.at.offset == g0.offset + gn, "the segments do not cover the whole input"); if (G.n) { sx_assert(last.offset == G.at.offset && last.line == G.at.line && last.column == G.at.column, "the reported end position is not the end of the last segment"); }
  else sx_assert(last.offset == g0.offset && last.line == g0.line && last.column == g0.column, "the end position is not the initial one although nothing was consumed"); sx_trace(G.n); cypher_parser_config_free(c); sx_free((void *)gs); }
