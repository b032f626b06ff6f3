/* P05-P08, P11, P24, P25, P32: two ways of obtaining the same thing agree. */
#include "dump.h"
#include <errno.h>
/* everything observable about a parse, collected segment by segment; CTX: with error contexts */
enum { R_SEG = 1, R_ORD = 2, R_POS = 4 };
struct col { struct sb seg, roots, errs; int n, dirs, eof; unsigned nnodes; struct cypher_input_position end; int stop_at, stop_rc; };
static void col_free(struct col *c) { sb_free(&c->seg); sb_free(&c->roots); sb_free(&c->errs); }
static int with_context;
static void put_err(struct sb *b, const cypher_parse_error_t *e) { D.base = 0; sb_s(b, "!"); ser_pos(b, cypher_parse_error_position(e)); sb_s(b, " "); sb_s(b, cypher_parse_error_message(e)); if (with_context) { const char *c = cypher_parse_error_context(e); sb_s(b, " @"); sb_u(b, cypher_parse_error_context_offset(e)); sb_s(b, c ? " >" : " none"); if (c) sb_s(b, c); } sb_s(b, "\n"); }
static void put_root(struct sb *b, N *n, int dir) { sb_s(b, dir ? "*" : "-"); dump(b, n, S_RANGE | S_CHILD, 0); sb_s(b, "\n"); }
static int col_cb(void *u, cypher_parse_segment_t *s) { struct col *c = u; struct cypher_input_range r = cypher_parse_segment_get_range(s); D.base = 0; ser_pos(&c->seg, r.start); sb_s(&c->seg, ".."); ser_pos(&c->seg, r.end); sb_s(&c->seg, cypher_parse_segment_is_eof(s) ? "E\n" : "\n");
  N *d = cypher_parse_segment_get_directive(s); for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) { N *x = cypher_parse_segment_get_root(s, i); put_root(&c->roots, x, x == d); }
  for (unsigned i = 0; i < cypher_parse_segment_nerrors(s); i++) put_err(&c->errs, cypher_parse_segment_get_error(s, i));
  c->n++; c->dirs += d != NULL; if (d || cypher_parse_segment_nerrors(s)) c->eof = cypher_parse_segment_is_eof(s); c->nnodes += cypher_parse_segment_nnodes(s); c->end = r.end;
  return c->n == c->stop_at ? c->stop_rc : 0; }
static void col_result(struct col *c, const cypher_parse_result_t *r) {
  for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { N *n = cypher_parse_result_get_root(r, i); int d = 0; for (unsigned j = 0; j < cypher_parse_result_ndirectives(r); j++) if (cypher_parse_result_get_directive(r, j) == n) d = 1; put_root(&c->roots, n, d); }
  for (unsigned i = 0; i < cypher_parse_result_nerrors(r); i++) put_err(&c->errs, cypher_parse_result_get_error(r, i));
  c->dirs = cypher_parse_result_ndirectives(r); c->eof = cypher_parse_result_eof(r); c->nnodes = cypher_parse_result_nnodes(r); }
static void same(struct col *a, struct col *b, const char *roots, const char *errs) { sx_trace(a->roots.n); sx_trace(a->errs.n); sx_assert(sb_eq(&a->roots, &b->roots), roots); sx_assert(sb_eq(&a->errs, &b->errs), errs); }
static int pos_eq(struct cypher_input_position a, struct cypher_input_position b) { return a.line == b.line && a.column == b.column && a.offset == b.offset; }
static const struct cypher_input_position BAD0 = { 77, 77, 77777 };
struct qcol { struct sb b; int n; int stop_at, stop_rc; };
static int q_cb(void *u, const cypher_quick_parse_segment_t *s) { struct qcol *c = u; struct cypher_input_range r = cypher_quick_parse_segment_get_range(s); D.base = 0; size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n);
  sb_s(&c->b, cypher_quick_parse_segment_is_statement(s) ? "S" : cypher_quick_parse_segment_is_command(s) ? "C" : "?"); ser_pos(&c->b, r.start); sb_s(&c->b, ".."); ser_pos(&c->b, r.end); sb_s(&c->b, " > "); ser_pos(&c->b, cypher_quick_parse_segment_get_next(s)); sb_s(&c->b, cypher_quick_parse_segment_is_eof(s) ? " E " : " "); sb_put(&c->b, t, n); sb_s(&c->b, "\n"); c->n++; return c->n == c->stop_at ? c->stop_rc : 0; }
/* P05: a stream is parsed as the buffer holding the same bytes is */
/* the same for a C string (the text has no NUL) */
void string(void) { size_t n; char *s = sx_text(0, &n); int fl = sx_param(0); struct cypher_input_position l1 = BAD0, l2 = BAD0; for (size_t i = 0; i < n; i++) sx_assume(s[i] != 0); char *t = sx_alloc(n + 1, 1); memcpy(t, s, n); t[n] = 0;
  struct col a = {0}, b = {0}; int r1 = cypher_uparse_each(s, n, col_cb, &a, &l1, NULL, fl), r2 = cypher_parse_each(t, col_cb, &b, &l2, NULL, fl); SX_ASSERT(r1 == 0 && r2 == 0); same(&a, &b, "a string and a buffer give different trees", "a string and a buffer give different errors"); sx_assert(sb_eq(&a.seg, &b.seg), "a string and a buffer give different segments"); sx_assert(pos_eq(l1, l2), "a string and a buffer give different end positions"); col_free(&b);
  struct col c = {0}; cypher_parse_result_t *r = cypher_parse(t, &l2, NULL, fl); SX_ASSERT(r); if (r) { col_result(&c, r); same(&a, &c, "the result of parsing a string has different trees", "the result of parsing a string has different errors"); sx_assert(pos_eq(l1, l2), "parsing a string gives a different end position"); cypher_parse_result_free(r); } col_free(&c);
  struct qcol p = {{0}}, q = {{0}}; r1 = cypher_quick_uparse(s, n, q_cb, &p, fl); r2 = cypher_quick_parse(t, q_cb, &q, fl); SX_ASSERT(r1 == 0 && r2 == 0); sx_assert(sb_eq(&p.b, &q.b), "quick parsing a string and a buffer give different segments"); sx_trace(p.b.n); sb_free(&p.b); sb_free(&q.b); col_free(&a); sx_reach("compared"); sx_free(t); sx_free(s); }
void stream(void) { size_t n; char *s = sx_text(0, &n); int fl = sx_param(0); struct cypher_input_position l1 = BAD0, l2 = BAD0;
  struct col a = {0}, b = {0}; int r1 = cypher_uparse_each(s, n, col_cb, &a, &l1, NULL, fl); FILE *f = sx_infile(s, n, -1); int r2 = cypher_fparse_each(f, col_cb, &b, &l2, NULL, fl); sx_close(f);
  sx_assert(r1 == r2, "a stream and a buffer give different results"); same(&a, &b, "a stream and a buffer give different trees", "a stream and a buffer give different errors"); sx_assert(sb_eq(&a.seg, &b.seg), "a stream and a buffer give different segments"); sx_assert(pos_eq(l1, l2), "a stream and a buffer give different end positions"); col_free(&b);
  struct col c = {0}; f = sx_infile(s, n, -1); cypher_parse_result_t *r = cypher_fparse(f, &l2, NULL, fl); sx_close(f); sx_assert(r != NULL, "parsing a stream fails although memory is available"); if (r) { col_result(&c, r); same(&a, &c, "the result of parsing a stream has different trees", "the result of parsing a stream has different errors"); sx_assert(pos_eq(l1, l2), "parsing a stream gives a different end position"); cypher_parse_result_free(r); } col_free(&c);
  struct qcol p = {{0}}, q = {{0}}; r1 = cypher_quick_uparse(s, n, q_cb, &p, fl); f = sx_infile(s, n, -1); r2 = cypher_quick_fparse(f, q_cb, &q, fl); sx_close(f); sx_assert(r1 == 0 && r2 == 0, "quick parsing fails although memory is available"); sx_assert(sb_eq(&p.b, &q.b), "quick parsing a stream and a buffer give different segments"); sx_trace(p.b.n); sb_free(&p.b); sb_free(&q.b);
  col_free(&a); sx_reach("compared"); sx_free(s); }
/* P06 */
void each(void) { with_context = 1; size_t n; char *s = sx_text(0, &n); int fl = sx_param(0); struct cypher_input_position l1 = BAD0, l2 = BAD0;
  struct col a = {0}, b = {0}; int rc = cypher_uparse_each(s, n, col_cb, &a, &l1, NULL, fl); cypher_parse_result_t *r = cypher_uparse(s, n, &l2, NULL, fl); sx_assert(rc == 0 && r != NULL, "parsing fails although memory is available"); if (!r) return;
  col_result(&b, r); same(&a, &b, "the whole result's trees are not those of the segments", "the whole result's errors are not those of the segments"); sx_assert(a.dirs == b.dirs, "the whole result has another number of directives"); sx_assert(a.nnodes == b.nnodes, "the whole result has another number of nodes"); sx_assert(pos_eq(l1, l2), "the end positions differ");
  if (a.n) sx_assert(a.eof == b.eof, "end of input is reported differently"); sx_assert(n == 0 || a.n > 0, "no segment for a non-empty input");
  cypher_parse_result_free(r); col_free(&a); col_free(&b); sx_reach("compared"); sx_free(s); }
/* P07: one segment at a time, resuming where the previous call stopped */
void resume(void) { size_t n; char *s = sx_text(0, &n); int fl = sx_param(0); struct col a = {0}, b = {0}; int rc = cypher_uparse_each(s, n, col_cb, &a, NULL, NULL, fl); SX_ASSERT(rc == 0);
  struct cypher_input_position at = POS0; unsigned ord = 0; cypher_parser_config_t *c = cypher_parser_new_config(); int k = 0;
  while (at.offset < n && k++ < 1000) { struct cypher_input_position last = BAD0; cypher_parser_config_set_initial_position(c, at); cypher_parser_config_set_initial_ordinal(c, ord); int n0 = b.n; rc = cypher_uparse_each(s + at.offset, n - at.offset, col_cb, &b, &last, c, fl | CYPHER_PARSE_SINGLE); SX_ASSERT(rc == 0); sx_assert(b.n == n0 + 1, "parsing a single segment does not give exactly one"); sx_assert(last.offset > at.offset && last.offset <= n, "parsing a single segment does not advance"); sx_assert(pos_eq(last, b.end), "the end position is not the end of the segment"); if (last.offset <= at.offset) break; at = last; ord = b.nnodes; }
  sx_assume(k <= 1000); sx_assert(at.offset == n, "resuming does not reach the end of the input"); same(&a, &b, "resuming gives different trees from parsing everything", "resuming gives different errors from parsing everything"); sx_assert(a.nnodes == b.nnodes, "resuming gives another number of nodes");
  sx_assert(sb_eq(&a.seg, &b.seg), "resuming gives different segments");
  cypher_parser_config_free(c); col_free(&a); col_free(&b); sx_reach("compared"); sx_free(s); }
/* P08 */
static struct cypher_input_position P0; 
static int moved(struct cypher_input_position a, struct cypher_input_position b) { size_t d = (b.offset ^ (a.offset + P0.offset)) | (size_t)(b.line ^ (a.line + P0.line - 1)) | (size_t)(b.column ^ (a.line == 1 ? a.column + P0.column - 1 : a.column)); return d == 0; }
static int okn;
static void cmp_moved(N *a, N *b) { struct cypher_input_range p = cypher_astnode_range(a), q = cypher_astnode_range(b); okn &= moved(p.start, q.start) & moved(p.end, q.end); sx_assert(cypher_astnode_type(a) == cypher_astnode_type(b) && cypher_astnode_nchildren(a) == cypher_astnode_nchildren(b), "an initial position changes the trees"); for (unsigned i = 0; i < cypher_astnode_nchildren(a) && i < cypher_astnode_nchildren(b); i++) cmp_moved(cypher_astnode_get_child(a, i), cypher_astnode_get_child(b, i)); }
void translate(void) { okn = 1; size_t n; char *s = sx_text(0, &n); int fl = sx_param(0); P0.line = 1 + sx_sym() + 256 * sx_in(0, 3); P0.column = 1 + sx_sym(); P0.offset = sx_sym() + 256 * (size_t)sx_sym() + ((size_t)sx_param(1) << 31);
  struct cypher_input_position l1 = BAD0, l2 = BAD0; cypher_parse_result_t *a = cypher_uparse(s, n, &l1, NULL, fl); cypher_parser_config_t *c = cypher_parser_new_config(); cypher_parser_config_set_initial_position(c, P0); cypher_parse_result_t *b = cypher_uparse(s, n, &l2, c, fl); SX_ASSERT(a && b); if (!a || !b) return;
  unsigned k = cypher_parse_result_nroots(a); sx_assert(k == cypher_parse_result_nroots(b) && cypher_parse_result_nerrors(a) == cypher_parse_result_nerrors(b) && cypher_parse_result_ndirectives(a) == cypher_parse_result_ndirectives(b) && cypher_parse_result_eof(a) == cypher_parse_result_eof(b), "an initial position changes the result");
  for (unsigned i = 0; i < k && i < cypher_parse_result_nroots(b); i++) cmp_moved(cypher_parse_result_get_root(a, i), cypher_parse_result_get_root(b, i));
  sx_assert(okn, "an initial position does not just translate the positions of nodes");
  struct sb x = {0}, y = {0}; for (unsigned i = 0; i < k; i++) { dump(&x, cypher_parse_result_get_root(a, i), S_CHILD, 0); dump(&y, cypher_parse_result_get_root(b, i), S_CHILD, 0); } sx_assert(sb_eq(&x, &y), "an initial position changes the content of the trees"); sx_trace(x.n); sb_free(&x); sb_free(&y);
  for (unsigned i = 0; i < cypher_parse_result_nerrors(a) && i < cypher_parse_result_nerrors(b); i++) { const cypher_parse_error_t *e = cypher_parse_result_get_error(a, i), *f = cypher_parse_result_get_error(b, i); sx_assert(moved(cypher_parse_error_position(e), cypher_parse_error_position(f)), "an initial position does not just translate the positions of errors");
    sx_assert(!strcmp(cypher_parse_error_message(e), cypher_parse_error_message(f)) && !strcmp(cypher_parse_error_context(e), cypher_parse_error_context(f)) && cypher_parse_error_context_offset(e) == cypher_parse_error_context_offset(f), "an initial position changes the errors"); sx_reach("error"); }
  sx_assert(moved(l1, l2), "an initial position does not just translate the end position");
  cypher_parse_result_free(a); cypher_parse_result_free(b); cypher_parser_config_free(c); sx_reach("compared"); sx_free(s); }
/* P08: an initial ordinal shifts the ordinals of the rendering and nothing else */
static size_t put_shifted(struct sb *b, const char *o, size_t m, unsigned by) { for (size_t i = 0; i < m; i++) { if (o[i] == '@' && i + 1 < m && o[i+1] >= '0' && o[i+1] <= '9') { unsigned v = 0; size_t j = i + 1; while (j < m && o[j] >= '0' && o[j] <= '9') v = v * 10 + (o[j++] - '0'); sb_s(b, "@"); sb_u(b, v + by); i = j - 1; } else if (o[i] != ' ') sb_put(b, o + i, 1); } return 0; }
struct ro { struct sb b; unsigned by; int each; };
static int ro_cb(void *u, cypher_parse_segment_t *s) { struct ro *r = u; FILE *f = sx_outfile(-1); cypher_parse_segment_fprint_ast(s, f, 0, NULL, 0); size_t m; char *o = sx_outdata(f, &m); put_shifted(&r->b, o, m, r->by); sx_close(f); return 0; }
void ordshift(void) { size_t n; char *s = sx_text(0, &n); /* '@' is what ordinals are recognised by in the rendering */ for (size_t i = 0; i < n; i++) sx_assume(s[i] != '@'); unsigned k = sx_param(0); cypher_parser_config_t *c = cypher_parser_new_config(); cypher_parser_config_set_initial_ordinal(c, k); struct ro a = {{0}}, b = {{0}}; a.by = k;
  int r1 = cypher_uparse_each(s, n, ro_cb, &a, NULL, NULL, 0), r2 = cypher_uparse_each(s, n, ro_cb, &b, NULL, c, 0); SX_ASSERT(r1 == 0 && r2 == 0); sx_assert(sb_eq(&a.b, &b.b), "an initial ordinal does not just shift the ordinals"); sx_trace(a.b.n); sb_free(&a.b); sb_free(&b.b); cypher_parser_config_free(c); sx_reach("compared"); sx_free(s); }
/* P11 */
static cypher_astnode_t *gn1[20000]; static unsigned ng; static void gather1(N *x) { if (ng < 20000) gn1[ng++] = (cypher_astnode_t *)x; for (unsigned i = 0; i < cypher_astnode_nchildren(x); i++) gather1(cypher_astnode_get_child(x, i)); }
void cloned(void) { size_t n; char *s = sx_text(0, &n); int live0 = sx_live(); cypher_parse_result_t *r = cypher_uparse(s, n, NULL, NULL, 0); SX_ASSERT(r != NULL); if (!r) return; unsigned k = cypher_parse_result_nroots(r); cypher_astnode_t *cl[12]; struct sb a = {0}, b = {0}; if (k > 12) k = 12;
  for (unsigned i = 0; i < k; i++) { N *x = cypher_parse_result_get_root(r, i); dump(&a, x, S_RANGE | S_CHILD, 0); cl[i] = cypher_ast_clone(x); sx_assert(cl[i] != NULL, "cloning fails although memory is available"); struct sb t = {0}; struct sb t2 = {0}; dump(&t, x, S_RANGE | S_CHILD, 0); dump(&t2, x, S_RANGE | S_CHILD, 0); sx_assert(sb_eq(&t, &t2), "cloning changes the original"); sb_free(&t); sb_free(&t2); }
  if (sx_param(0)) { for (unsigned i = 0; i < k; i++) { N *x = cypher_parse_result_get_root(r, i); cypher_astnode_t *c2 = cl[i] ? cypher_ast_clone(cl[i]) : NULL; SX_ASSERT(c2 != NULL); cypher_ast_free(cl[i]); cl[i] = c2; (void)x; } }
  cypher_parse_result_free(r);
  for (unsigned i = 0; i < k; i++) if (cl[i]) { dump(&b, cl[i], S_RANGE | S_CHILD, 0); check_tree(cl[i], C_PAST, 0, 0, POS0); sx_reach("clone"); }
  sx_assert(sb_eq(&a, &b), "a clone differs from its original"); sx_trace(a.n);
  for (unsigned i = 0; i < k; i++) if (!sx_param(0) || i % 2) cypher_ast_free(cl[i]); else { ng = 0; gather1(cl[i]); for (unsigned j = 0; j < ng; j++) cypher_astnode_free(gn1[sx_param(0) == 2 ? j : ng - 1 - j]); }
  sb_free(&a); sb_free(&b); sx_assert(sx_live() == live0, "clones are not released"); sx_free(s); }
/* P24 */
void callback(void) { size_t n; char *s = sx_text(0, &n); int fl = sx_param(0), rc = sx_param(1); struct col a = {0}; int r = cypher_uparse_each(s, n, col_cb, &a, NULL, NULL, fl); SX_ASSERT(r == 0);
  for (int stop = 1; stop <= a.n && stop <= 3; stop++) { struct col b = {0}; struct cypher_input_position last = BAD0; b.stop_at = stop; b.stop_rc = rc; int live = sx_live(); r = cypher_uparse_each(s, n, col_cb, &b, &last, NULL, fl); sx_assert(b.n == stop, "parsing goes on after the callback asked to stop"); sx_assert(r == (rc > 0 ? 0 : rc), "the value a callback returns is not reported as documented"); sx_assert(pos_eq(last, b.end), "the end position is not that of the last segment delivered");
    sx_assert(b.seg.n <= a.seg.n && !memcmp(a.seg.p, b.seg.p, b.seg.n), "stopping early changes the earlier segments"); sx_assert(b.roots.n <= a.roots.n && (!b.roots.n || !memcmp(a.roots.p, b.roots.p, b.roots.n)), "stopping early changes the earlier trees"); col_free(&b); sx_assert(sx_live() == live, "stopping early leaves memory behind"); sx_reach("stopped"); }
  struct qcol p = {{0}}; r = cypher_quick_uparse(s, n, q_cb, &p, fl); SX_ASSERT(r == 0);
  for (int stop = 1; stop <= p.n && stop <= 3; stop++) { struct qcol q = {{0}}; q.stop_at = stop; q.stop_rc = rc; r = cypher_quick_uparse(s, n, q_cb, &q, fl); sx_assert(q.n == stop, "quick parsing goes on after the callback asked to stop"); sx_assert(r == (rc > 0 ? 0 : rc), "the value a quick callback returns is not reported as documented"); sx_assert(q.b.n <= p.b.n && !memcmp(p.b.p, q.b.p, q.b.n), "stopping early changes the earlier quick segments"); sb_free(&q.b); }
  sb_free(&p.b); col_free(&a); sx_free(s); }
/* P25: the same call gives the same answer whatever happened before */
static void all_of(struct sb *b, const char *s, size_t n, int fl) { cypher_parse_result_t *r = cypher_uparse(s, n, NULL, NULL, fl); SX_ASSERT(r != NULL); if (!r) return; dump_result(b, r, S_RANGE | S_CHILD); FILE *f = sx_outfile(-1); cypher_parse_result_fprint_ast(r, f, 60, NULL, 0); size_t m; char *o = sx_outdata(f, &m); sb_put(b, o, m); sx_close(f); cypher_parse_result_free(r); struct qcol q = {{0}}; int rc = cypher_quick_uparse(s, n, q_cb, &q, fl); SX_ASSERT(rc == 0); sb_put(b, q.b.p ? q.b.p : "", q.b.n); sb_free(&q.b); }
void again(void) { size_t n, m; char *s = sx_text(0, &n), *t = sx_text(1, &m); int fl = sx_param(0); struct sb a = {0}, b = {0}, o = {0}; all_of(&a, s, n, fl);
  if (sx_param(1)) { sx_oom_from(sx_param(1)); cypher_parse_result_t *r = cypher_uparse(t, m, NULL, NULL, fl); if (r) cypher_parse_result_free(r); sx_oom(-1); } else all_of(&o, t, m, fl);
  errno = 11; all_of(&b, s, n, fl); sx_assert(sb_eq(&a, &b), "the same input gives another result the second time"); sx_trace(a.n); sb_free(&a); sb_free(&b); sb_free(&o); sx_reach("compared"); sx_free(s); sx_free(t); }
/* two parses interleaved: an inner parse runs inside the callback of an outer one */
static const char *it; static size_t itn; static struct sb inner;
static int outer_cb(void *u, cypher_parse_segment_t *s) { struct col *c = u; inner.n = 0; all_of(&inner, it, itn, 0); return col_cb(c, s); }
void nested(void) { size_t n, m; char *s = sx_text(0, &n), *t = sx_text(1, &m); struct col a = {0}, b = {0}; struct sb x = {0}; int rc = cypher_uparse_each(s, n, col_cb, &a, NULL, NULL, 0); SX_ASSERT(rc == 0); all_of(&x, t, m, 0); it = t; itn = m; rc = cypher_uparse_each(s, n, outer_cb, &b, NULL, NULL, 0); SX_ASSERT(rc == 0);
  same(&a, &b, "a parse inside a callback changes the outer parse", "a parse inside a callback changes the outer parse's errors"); if (b.n) sx_assert(sb_eq(&x, &inner), "a parse inside a callback gives another result"); sb_free(&x); sb_free(&inner); col_free(&a); col_free(&b); sx_reach("compared"); sx_free(s); sx_free(t); }
/* P32: text 0 is a well-formed statement; text 1 something before it, ending in ';' (params: 0 flags, 1 at least one error expected in text 1) */
void independent(void) { size_t n, m; char *s = sx_text(0, &n), *t = sx_text(1, &m); char *w = sx_alloc(n + m + 1, 1); memcpy(w, t, m); memcpy(w + m, s, n); struct col a = {0}, b = {0}; int fl = sx_param(0); cypher_parser_config_t *c = cypher_parser_new_config();
  struct cypher_input_position p = pos_of(t, m, m, POS0); cypher_parser_config_set_initial_position(c, p); int rc = cypher_uparse_each(s, n, col_cb, &a, NULL, c, fl); SX_ASSERT(rc == 0); rc = cypher_uparse_each(w, m + n, col_cb, &b, NULL, NULL, fl); SX_ASSERT(rc == 0);
  if (sx_param(1)) sx_assert(b.errs.n > a.errs.n, "an ill-formed statement gives no error");
  sx_assert(b.roots.n >= a.roots.n && (!a.roots.n || !memcmp(b.roots.p + (b.roots.n - a.roots.n), a.roots.p, a.roots.n)), "a statement's tree depends on the statement before it"); sx_assert(b.errs.n >= a.errs.n && (!a.errs.n || !memcmp(b.errs.p + (b.errs.n - a.errs.n), a.errs.p, a.errs.n)), "a statement's errors depend on the statement before it");
  sx_trace(b.roots.n); sx_trace(b.errs.n); cypher_parser_config_free(c); col_free(&a); col_free(&b); sx_free(w); sx_reach("compared"); sx_free(s); sx_free(t); }
