/* P14: errors; P13: annotations. */
#include "dump.h"
static unsigned nerrnodes(N *n) { unsigned k = cypher_astnode_instanceof(n, CYPHER_AST_ERROR) ? 1 : 0; for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) k += nerrnodes(cypher_astnode_get_child(n, i)); return k; }
static void named(struct sb *b, char c, int end) { if (end) { sb_s(b, "at end of input"); return; } static const char e[] = "\aa\bb\ff\nn\rr\tt\vv''"; sb_s(b, "'"); for (const char *p = e; *p; p += 2) if (c == *p) { sb_s(b, "\\"); c = p[1]; break; } sb_put(b, &c, 1); sb_s(b, "'"); }
/* what is required of one error, apart from what follows "expected" */
static void one(const cypher_parse_error_t *e, const char *s, size_t n, const struct cypher_parser_colorization *k, long from) {
  sx_assert(e != NULL, "an error below the count is null"); if (!e) return;
  struct cypher_input_position p = cypher_parse_error_position(e); sx_assert(p.offset <= n, "an error lies outside the input"); if (p.offset > n) return;
  struct cypher_input_position q = pos_of(s, n, p.offset, POS0); sx_assert(p.line == q.line && p.column == q.column, "line/column of an error disagree with its offset");
  const char *m = cypher_parse_error_message(e), *c = cypher_parse_error_context(e); sx_assert(m != NULL, "an error has no message"); sx_assert(c != NULL, "an error has no context"); if (!m || !c) return;
  int end = p.offset == n; struct sb w = {0}; sb_s(&w, k->error[0]); sb_s(&w, "Invalid input"); sb_s(&w, k->error[1]); sb_s(&w, " "); sb_s(&w, k->error_token[0]); named(&w, end ? 0 : s[p.offset], end); sb_s(&w, k->error_token[1]); sb_s(&w, ": "); sb_s(&w, k->error_message[0]); sb_s(&w, "expected ");
  size_t l = strlen(m), z = strlen(k->error_message[1]); sx_assert(l > w.n + z && !memcmp(m, w.p, w.n), "the message does not name what is at the error's position"); if (l > w.n + z) { sx_assert(!memcmp(m + l - z, k->error_message[1], z), "the message is not wrapped in its colour"); char t = m[l - z - 1]; sx_assert(t != ' ' && t != ',', "the message ends in an empty expectation"); for (const char *x = m + w.n; *x; x++) sx_assert(!(x[0] == ' ' && (x[1] == ' ' || x[1] == ',')) && !(x[0] == ',' && x[1] == ','), "the message has an empty expectation"); }
  sb_free(&w);
  size_t o = cypher_parse_error_context_offset(e), cl = strlen(c); sx_assert(cl <= 80, "a context is longer than 80 bytes"); /* an error past the last character of its line is shown at or after the end of what is before it */ if (end || s[p.offset] == 10 || s[p.offset] == 13) sx_assert(1, ""); else { sx_assert(o < cl, "the context offset lies outside the context"); if (o >= cl) return; }
  for (size_t i = 0; i < cl; i++) sx_assert(c[i] != '\n' && c[i] != '\r', "a context spans lines");
  if (!end && s[p.offset] != '\n' && s[p.offset] != '\r') {
    sx_assert(o < cl && c[o] == s[p.offset], "the context offset does not point at the error"); sx_reach("char");
    for (size_t i = 0; i < cl; i++) { if (p.offset + i < o || p.offset + i - o >= n) { sx_assert(0, "a context is not part of the input"); break; } if ((i < 3 && o >= 3 && c[0] == '.' && c[1] == '.' && c[2] == '.') || (i + 3 >= cl && o + 3 < cl && c[cl - 1] == '.' && c[cl - 2] == '.' && c[cl - 3] == '.')) continue; sx_assert(c[i] == s[p.offset + i - o], "a context differs from the input"); }
    size_t a = p.offset - o; sx_assert(a == 0 || s[a - 1] == '\n' || s[a - 1] == '\r' || from < 0 || a == (size_t)from || (cl == 80 && !memcmp(c, "...", 3)), "a context starts inside the line without saying so"); }
  else { sx_reach("at a line end"); if (cl) { int found = 0; for (size_t i = 0; !found && i + cl <= n; i++) { size_t j = 0; while (j < cl && (c[j] == s[i + j] || (cl == 80 && (j < 3 || j + 3 >= cl)))) j++; found = j == cl; } sx_assert(found, "a context is not part of the input"); } }
  sx_trace(p.offset); sx_trace(o); sx_trace(l); }
static const struct cypher_parser_colorization MARKS = { .normal = {"", ""}, .error = {"<e>", "</e>"}, .error_token = {"<t>", "</t>"}, .error_message = {"<m>", "</m>"}, .ast_ordinal = {"", ""}, .ast_range = {"", ""}, .ast_indent = {"", ""}, .ast_type = {"", ""}, .ast_desc = {"", ""} };
static struct { const char *s; size_t n; const struct cypher_parser_colorization *k; } G;
static int seg(void *u, cypher_parse_segment_t *g) { unsigned k = cypher_parse_segment_nerrors(g), en = 0; struct cypher_input_range r = cypher_parse_segment_get_range(g); for (unsigned i = 0; i < k; i++) { one(cypher_parse_segment_get_error(g, i), G.s, G.n, G.k, r.start.offset); sx_assert(cypher_parse_error_position(cypher_parse_segment_get_error(g, i)).offset >= r.start.offset, "an error lies before its segment"); if (i) sx_assert(cypher_parse_error_position(cypher_parse_segment_get_error(g, i - 1)).offset < cypher_parse_error_position(cypher_parse_segment_get_error(g, i)).offset, "the errors of a segment are not in order"); }
  for (unsigned i = 0; i < cypher_parse_segment_nroots(g); i++) en += nerrnodes(cypher_parse_segment_get_root(g, i)); sx_assert(!en || k, "a segment has error nodes but no error"); sx_assert(!k || en, "a segment has errors but no error node"); sx_assert(cypher_parse_segment_get_error(g, k) == NULL && cypher_parse_segment_get_error(g, ~0u) == NULL, "an error past the end is not null"); sx_reach(k ? "errors" : "none"); return 0; }
/* params: 0 segments, 1 result; colours */
void errors(void) { size_t n; char *s = sx_text(0, &n); for (size_t i = 0; i < n; i++) sx_assume(s[i] != 0); G.s = s; G.n = n; G.k = cypher_parser_no_colorization; cypher_parser_config_t *cfg = cypher_parser_new_config(); if (sx_param(1)) { G.k = sx_param(1) == 1 ? cypher_parser_ansi_colorization : &MARKS; cypher_parser_config_set_error_colorization(cfg, G.k); }
  if (sx_param(0) == 0) { int rc = cypher_uparse_each(s, n, seg, NULL, NULL, cfg, 0); sx_assert(rc == 0, "parsing fails"); }
  else { cypher_parse_result_t *r = cypher_uparse(s, n, NULL, cfg, 0); sx_assert(r != NULL, "parsing fails"); if (r) { unsigned k = cypher_parse_result_nerrors(r), en = 0; for (unsigned i = 0; i < k; i++) one(cypher_parse_result_get_error(r, i), s, n, G.k, -1); for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) en += nerrnodes(cypher_parse_result_get_root(r, i)); sx_assert(!en == !k, "errors and error nodes disagree"); sx_assert(cypher_parse_result_get_error(r, k) == NULL, "an error past the end is not null"); sx_reach(k ? "errors" : "none"); cypher_parse_result_free(r); } }
  cypher_parser_config_free(cfg); sx_free(s); }
