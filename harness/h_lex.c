/* P16-P19, P22, P31: what the lexical level promises. */
#include "dump.h"
static cypher_parse_result_t *parse_(char *s, size_t n) { cypher_parse_result_t *r = cypher_uparse(s, n, NULL, NULL, 0); sx_assert(r != NULL, "parsing fails although memory is available"); return r; }
static int nroots(cypher_parse_result_t *r) { return cypher_parse_result_nroots(r); }
static void whole(struct sb *b, cypher_parse_result_t *r, int flags) { for (int i = 0; i < nroots(r); i++) { N *x = cypher_parse_result_get_root(r, i); if ((flags & S_KIDS) && cypher_astnode_instanceof(x, CYPHER_AST_COMMENT)) continue; dump(b, x, flags, 0); sb_s(b, "\n"); } D.base = 0; }
static unsigned ncomments(N *n) { unsigned c = cypher_astnode_instanceof(n, CYPHER_AST_COMMENT); for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) c += ncomments(cypher_astnode_get_child(n, i)); return c; }
/* the comment starting at offset o */
static N *comment_at(N *n, size_t o) { if (cypher_astnode_instanceof(n, CYPHER_AST_COMMENT) && cypher_astnode_range(n).start.offset == o) return n; for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) { N *c = comment_at(cypher_astnode_get_child(n, i), o); if (c) return c; } return NULL; }
/* P16: text 0 is text 1 with letters of keywords in either case */
void kwcase(void) { size_t n, m; char *s = sx_text(0, &n), *t = sx_text(1, &m); cypher_parse_result_t *a = parse_(s, n), *b = parse_(t, m); if (!a || !b) return; struct sb x = {0}, y = {0}; whole(&x, a, S_RANGE | S_CHILD); whole(&y, b, S_RANGE | S_CHILD);
  sx_assert(cypher_parse_result_nerrors(a) == cypher_parse_result_nerrors(b), "the case of a keyword makes a statement ill-formed"); for (size_t i = 0; i < x.n; i++) x.p[i] |= 32; for (size_t i = 0; i < y.n; i++) y.p[i] |= 32;
  sx_assert(sb_eq(&x, &y), "the case of a keyword changes the tree"); sx_trace(x.n); sx_reach("compared"); sb_free(&x); sb_free(&y); cypher_parse_result_free(a); cypher_parse_result_free(b); sx_free(s); sx_free(t); }
/* P17: text 1 is text 0 with white space or comments between tokens; params: comments added, offset and length of the text of one of them, 1 for a line comment */
void wspace(void) { size_t n, m; char *s = sx_text(0, &n), *t = sx_text(1, &m); int extra = sx_param(0); cypher_parse_result_t *a = parse_(s, n), *b = parse_(t, m); if (!a || !b) return; struct sb x = {0}, y = {0}; whole(&x, a, S_NOALIAS | S_KIDS); whole(&y, b, S_NOALIAS | S_KIDS);
  sx_assert(cypher_parse_result_nerrors(a) == cypher_parse_result_nerrors(b), "white space or a comment between tokens makes a statement ill-formed"); if (sx_native() && !sb_eq(&x, &y)) fprintf(stderr, "%.*s\n%.*s\n", (int)x.n, x.p, (int)y.n, y.p); sx_assert(sb_eq(&x, &y), "white space or a comment between tokens changes the tree"); 
  unsigned ca = 0, cb = 0; for (int i = 0; i < nroots(a); i++) ca += ncomments(cypher_parse_result_get_root(a, i)); for (int i = 0; i < nroots(b); i++) cb += ncomments(cypher_parse_result_get_root(b, i)); sx_assert(cb == ca + extra, "a comment is lost or duplicated");
  if (sx_nparams() > 1) { size_t o = sx_param(1), l = sx_param(2); N *c = NULL; for (int i = 0; i < nroots(b) && !c; i++) c = comment_at(cypher_parse_result_get_root(b, i), o); sx_assert(c != NULL, "a comment is not where its text is"); if (c) { int ln = kind_of(c) == K_LINE_COMMENT; sx_assert(ln == sx_param(3) && (ln || kind_of(c) == K_BLOCK_COMMENT), "a comment has the wrong type"); const char *v = ln ? cypher_ast_line_comment_get_value(c) : cypher_ast_block_comment_get_value(c); sx_assert(v && strlen(v) == l && !memcmp(v, t + o, l), "the text of a comment is not that of the source"); sx_assert(cypher_astnode_range(c).end.offset == o + l, "the range of a comment is not that of its text"); } sx_reach("comment"); }
  sx_trace(x.n); sx_reach("compared"); sb_free(&x); sb_free(&y); cypher_parse_result_free(a); cypher_parse_result_free(b); sx_free(s); sx_free(t); }
/* input: text 1 + text 0 + text 2 */
static char *inp; static size_t inpn; static char *body; static size_t bn, b0;
static void compose(const char *pre, const char *post) { size_t a, c; body = sx_text(0, &bn); char *p = sx_text(1, &a), *q = sx_text(2, &c); size_t e = strlen(pre), f = strlen(post); inpn = a + e + bn + f + c; inp = sx_alloc(inpn + 1, 1); memcpy(inp, p, a); memcpy(inp + a, pre, e); memcpy(inp + a + e, body, bn); memcpy(inp + a + e + bn, post, f); memcpy(inp + a + e + bn + f, q, c); b0 = a + e; if (p) sx_free(p); if (q) sx_free(q); }
/* the only node of kind k whose range starts at offset o */
static N *node_at(N *n, int k, size_t o) { N *f = NULL; if (kind_of(n) == k && cypher_astnode_range(n).start.offset == o) f = n; for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) { N *c = node_at(cypher_astnode_get_child(n, i), k, o); if (c) f = c; } return f; }
static N *find(cypher_parse_result_t *r, int k, size_t o) { for (int i = 0; i < nroots(r); i++) { N *c = node_at(cypher_parse_result_get_root(r, i), k, o); if (c) return c; } return NULL; }
static const char *value(N *n) { switch (kind_of(n)) { case K_STRING: return cypher_ast_string_get_value(n); case K_INTEGER: return cypher_ast_integer_get_valuestr(n); case K_FLOAT: return cypher_ast_float_get_valuestr(n); case K_IDENTIFIER: return cypher_ast_identifier_get_name(n); case K_PARAMETER: return cypher_ast_parameter_get_name(n); case K_LABEL: return cypher_ast_label_get_name(n); case K_RELTYPE: return cypher_ast_reltype_get_name(n); case K_PROP_NAME: return cypher_ast_prop_name_get_value(n); case K_FUNCTION_NAME: return cypher_ast_function_name_get_value(n); case K_INDEX_NAME: return cypher_ast_index_name_get_value(n); case K_PROC_NAME: return cypher_ast_proc_name_get_value(n); } return NULL; }
static int esc(int c) { switch (c) { case 'a': return 7; case 'b': return 8; case 'f': return 12; case 'n': return 10; case 'r': return 13; case 't': return 9; case 'v': return 11; case '\\': return '\\'; case '\'': return '\''; case '"': return '"'; case '?': return '?'; } return -1; }
static int strdec(struct sb *o, int q) { for (size_t i = 0; i < bn; i++) { int c = (unsigned char)body[i]; if (c == 0) return 0; if (c == '\\' && i + 1 < bn) { int e = esc((unsigned char)body[i + 1]); if (e >= 0) { char x = e; sb_put(o, &x, 1); i++; continue; } } else if (c == '\\') return 0; if (c == q) return 0; sb_put(o, body + i, 1); } return 1; }
static void expect(cypher_parse_result_t *r, int k, size_t at, size_t end, const struct sb *want, const char *msg) {
  sx_assert(cypher_parse_result_nerrors(r) == 0, "a well-formed text is not accepted"); N *x = find(r, k, at); sx_assert(x != NULL, "a literal or name does not give a node of its kind at its place"); if (!x) return;
  const char *v = value(x); sx_assert(v && strlen(v) == want->n && (!want->n || !memcmp(v, want->p, want->n)), msg); if (end) sx_assert(cypher_astnode_range(x).end.offset == end, "the range of a literal or name is not that of its text"); sx_trace(want->n); sx_reach("value"); if (sx_native() && v && strcmp(v, want->p ? want->p : "")) fprintf(stderr, "got %s\n", v); }
/* P18: text 0 is the body of a string literal; param 0 its quote */
void strlit(void) { int q = sx_param(0); char qs[2] = { q, 0 }; compose(qs, qs); struct sb w = {0}; int ok = strdec(&w, q); sx_assume(ok); cypher_parse_result_t *r = parse_(inp, inpn); if (!r) return; expect(r, K_STRING, b0 - 1, b0 + bn + 1, &w, "the value of a string literal is not its text with escapes decoded"); cypher_parse_result_free(r); sb_free(&w); sx_free(inp); sx_free(body); }
/* P19: text 0 is a name, possibly in backticks; param 0 the kind; param 1: 1 dotted names allowed, 2 a number allowed (parameter), 4 not next to words that mean something; param 2: how far before the name the node starts; param 3: the node ends that far after it (-1: not checked) */
static const char *const WORDS[] = { "or", "xor", "and", "not", "in", "is", "as", "asc", "desc", "end", "null", "true", "false", "all", "any", "case", "none", "single", "filter", "extract", "reduce", "set", "on", "with", "where", "skip", "limit", "rel", "node", "when", "then", "else", "yield", "from", "union", "merge", "match", "start", "ends", "call", "load", "create", "delete", "detach", "remove", "foreach", "return", "unwind", "using", "order", "starts", "contains", "distinct", "optional", "using", "ascending", "descending", "profile", "explain", "cypher", 0 };
static int isstart(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int ispart(int c) { return isstart(c) || (c >= '0' && c <= '9') || c == '$'; }
static int isword(const char *s, size_t n) { for (int i = 0; WORDS[i]; i++) { size_t l = strlen(WORDS[i]); if (l != n) continue; int eq = 1; for (size_t k = 0; k < l; k++) eq &= (s[k] | 32) == WORDS[i][k]; if (eq) return 1; } return 0; }
static int one_name(struct sb *o, size_t *i, int fl) { if (*i >= bn) return 0; int c = (unsigned char)body[*i];
  if (c == '`') { size_t s = ++*i; while (*i < bn && body[*i] != '`') { if (!body[*i]) return 0; ++*i; } if (*i >= bn) return 0; sb_put(o, body + s, *i - s); ++*i; return 1; }
  if ((fl & 2) && c >= '1' && c <= '9') { size_t s = *i; while (*i < bn && body[*i] >= '0' && body[*i] <= '9') ++*i; sb_put(o, body + s, *i - s); return 1; }
  if (!isstart(c)) return 0; size_t s = *i; while (*i < bn && ispart((unsigned char)body[*i])) ++*i; if ((fl & 4) && isword(body + s, *i - s)) return 0; sb_put(o, body + s, *i - s); return 1; }
static int wsc(int c) { return c == ' ' || c == '\t' || c == '\n'; }
static int names_(struct sb *o, int fl) { size_t i = 0; if (!one_name(o, &i, fl)) return 0; while (i < bn) { if (!(fl & 1)) return 0; while (i < bn && wsc((unsigned char)body[i])) i++; if (i >= bn || body[i] != '.') return 0; i++; while (i < bn && wsc((unsigned char)body[i])) i++; sb_s(o, "."); if (!one_name(o, &i, fl)) return 0; } return 1; }
void names(void) { compose("", ""); struct sb w = {0}; int ok = names_(&w, sx_param(1)); sx_assume(ok); cypher_parse_result_t *r = parse_(inp, inpn); if (!r) return; expect(r, sx_param(0), b0 - sx_param(2), sx_param(3) < 0 ? 0 : b0 + bn + sx_param(3), &w, "a name is not what the source says"); cypher_parse_result_free(r); sb_free(&w); sx_free(inp); sx_free(body); }
/* P19: the alias of a projection without one is its source text; text 0 is an expression without white space at its ends */
void alias(void) { compose("", ""); for (size_t i = 0; i < bn; i++) sx_assume(body[i] != 0); sx_assume(bn && !wsc(body[0]) && !wsc(body[bn - 1]) && body[bn - 1] != '\r' && !(bn == 1 && body[0] == '*')); cypher_parse_result_t *r = parse_(inp, inpn); if (!r) return; sx_assume(cypher_parse_result_nerrors(r) == 0); for (int i = 0; i < nroots(r); i++) sx_assume(ncomments(cypher_parse_result_get_root(r, i)) == 0); N *p = find(r, K_PROJECTION, b0); sx_assert(p != NULL, "no projection"); if (!p) return; sx_assume(cypher_parse_result_ndirectives(r) == 1); size_t pe = cypher_astnode_range(p).end.offset; sx_assume(pe >= b0 + bn); /* the whole text is one projection */
  N *e = cypher_ast_projection_get_expression(p), *a = cypher_ast_projection_get_alias(p); if (kind_of(e) == K_IDENTIFIER) sx_assert(a == NULL, "a projected identifier has an alias of its own"); else { sx_assert(a != NULL, "a projected expression has no alias"); if (a && cypher_astnode_range(a).start.offset == b0) { const char *v = cypher_ast_identifier_get_name(a); sx_assert(strlen(v) == bn && !memcmp(v, body, bn), "the implicit alias of a projection is not its source text"); sx_reach("value"); sx_trace(bn); } } cypher_parse_result_free(r); sx_free(inp); sx_free(body); }
/* P22: text 0 is a number in the sense of the language (any text of that shape) */
static int dig(size_t i) { return i < bn && body[i] >= '0' && body[i] <= '9'; }
static size_t parts(size_t i) { while (i < bn && ispart((unsigned char)body[i])) i++; return i; }
static int isfloat(void) { size_t i = 0; while (dig(i)) i++; size_t k = i; if (i) { if (i < bn && body[i] == '.') i++; while (dig(i)) i++; if (i < bn && (body[i] | 32) == 'e') { i++; if (i < bn && (body[i] == '-' || body[i] == '+')) i++; if (dig(i)) return parts(i) == bn ? 1 : -1; } } if (k < bn && body[k] == '.' && dig(k + 1)) return parts(k + 1) == bn ? 1 : -1; return 0; }
void numlit(void) { compose("", ""); int f = isfloat(); sx_assume(f >= 0 && (f || sx_param(0) != 1) && (!f || sx_param(0) != 2)); if (!f) sx_assume(dig(0) && parts(0) == bn); struct sb w = {0}; sb_put(&w, body, bn); cypher_parse_result_t *r = parse_(inp, inpn); if (!r) return; expect(r, f ? K_FLOAT : K_INTEGER, b0, b0 + bn, &w, "the text of a number is not that of the source"); sx_reach(f ? "float" : "integer"); cypher_parse_result_free(r); sb_free(&w); sx_free(inp); sx_free(body); }
/* P31: client commands. The reference splits the line as documented: words separated by blanks and block comments; quotes and escapes; a backslash before the line end continues it */
static size_t ci; static int cc(size_t i) { return i < inpn ? (unsigned char)inp[i] : -1; }
static int eol(size_t i) { return cc(i) == '\n' ? 1 : cc(i) == '\r' && cc(i + 1) == '\n' ? 2 : 0; }
static int blanks(void) { for (;;) { if (cc(ci) == ' ' || cc(ci) == '\t') ci++; else if (cc(ci) == '/' && cc(ci + 1) == '*') { size_t i = ci + 2; while (i < inpn && !(cc(i) == '*' && cc(i + 1) == '/')) i++; if (i >= inpn) return 1; ci = i + 2; } else return 1; } }
static int special(size_t i) { int c = cc(i); return c < 0 || c == '\'' || c == '"' || c == ' ' || c == '\t' || eol(i) || (c == '/' && (cc(i + 1) == '/' || cc(i + 1) == '*')) || c == '\\' || c == ';'; }
static int arg(struct sb *o) { int any = 0; for (;;) { int c = cc(ci);
    if (c == '\\') { int e = cc(ci + 1) < 0 ? -1 : esc(cc(ci + 1)); if (cc(ci + 1) == ';') e = ';'; if (e < 0) return any; char x = e; sb_put(o, &x, 1); ci += 2; any = 1; continue; }
    if (c == '\'' || c == '"') { size_t i = ci + 1; struct sb t = {0}; for (;;) { int d = cc(i); if (d < 0) { sb_free(&t); return any; } if (d == '\\') { int e = cc(i + 1) < 0 ? -1 : esc(cc(i + 1)); if (e >= 0) { char x = e; sb_put(&t, &x, 1); i += 2; continue; } } if (d == c) break; sb_put(&t, inp + i, 1); i++; } sb_put(o, t.p ? t.p : "", t.n); sb_free(&t); ci = i + 1; any = 1; continue; }
    if (special(ci)) return any; sb_put(o, inp + ci, 1); ci++; any = 1; } }
/* text 0 follows the colon; the first directive is compared */
void command(void) { compose(":", ""); for (size_t i = 0; i < inpn; i++) sx_assume(inp[i] != 0); ci = b0; struct sb w = {0}; int na = 0, ok = 0; blanks();
  for (;;) { size_t s = ci; struct sb a = {0}; if (arg(&a)) { sb_s(&w, na++ ? " <" : "<"); sb_put(&w, a.p ? a.p : "", a.n); sb_s(&w, ">"); sb_free(&a); blanks(); continue; } sb_free(&a); if (ci != s) break;
    if (na && cc(ci) == '\\') { size_t k = ci; ci++; blanks(); if (cc(ci) == '/' && cc(ci + 1) == '/') { while (ci < inpn && !eol(ci)) ci++; ci += eol(ci); } else if (eol(ci)) ci += eol(ci); else if (cc(ci) >= 0) { ci = k; break; } blanks(); continue; }
    if (cc(ci) == ';') { ci++; ok = 1; } else if (cc(ci) < 0) ok = 1; else if (eol(ci)) { ci += eol(ci); ok = 1; } else if (cc(ci) == '/' && cc(ci + 1) == '/') { while (ci < inpn && !eol(ci)) ci++; ci += eol(ci); ok = 1; } break; }
  sx_assume(ok && na); cypher_parse_result_t *r = parse_(inp, inpn); if (!r) return; sx_assert(cypher_parse_result_ndirectives(r) >= 1, "a command is not accepted"); if (cypher_parse_result_ndirectives(r) >= 1) { N *d = cypher_parse_result_get_directive(r, 0); for (unsigned i = 1; i < cypher_parse_result_ndirectives(r) && cypher_astnode_range(d).start.offset < b0 - 1; i++) d = cypher_parse_result_get_directive(r, i); sx_assert(kind_of(d) == K_COMMAND && cypher_astnode_range(d).start.offset == b0 - 1, "a command does not give a command"); struct sb g = {0}; if (kind_of(d) == K_COMMAND) { sb_s(&g, "<"); sb_s(&g, cypher_ast_string_get_value(cypher_ast_command_get_name(d))); sb_s(&g, ">"); for (unsigned i = 0; i < cypher_ast_command_narguments(d); i++) { sb_s(&g, " <"); sb_s(&g, cypher_ast_string_get_value(cypher_ast_command_get_argument(d, i))); sb_s(&g, ">"); } if (sx_native() && !sb_eq(&g, &w)) fprintf(stderr, "want %.*s got %.*s\n", (int)w.n, w.p, (int)g.n, g.p); sx_assert(sb_eq(&g, &w), "the name and arguments of a command are not those of the source"); sx_trace(g.n); sx_reach("value"); if (ci == inpn) sx_assert(cypher_parse_result_nerrors(r) == 0, "a well-formed command gives an error"); } sb_free(&g); } cypher_parse_result_free(r); sb_free(&w); sx_free(inp); sx_free(body); }
/* P16: the text, and the same with a keyword (params: offset, length) in small letters */
void kwfree(void) { size_t n; char *s = sx_text(0, &n), *t = sx_alloc(n + 1, 1); memcpy(t, s, n); for (long i = sx_param(0); i < sx_param(0) + sx_param(1); i++) t[i] |= 32; cypher_parse_result_t *a = parse_(s, n), *b = parse_(t, n); if (!a || !b) return; struct sb x = {0}, y = {0}; whole(&x, a, S_RANGE | S_CHILD); whole(&y, b, S_RANGE | S_CHILD);
  sx_assert(cypher_parse_result_nerrors(a) == cypher_parse_result_nerrors(b), "the case of a keyword makes a statement ill-formed"); if (cypher_parse_result_nerrors(a) == 0 || x.n == y.n) { for (size_t i = 0; i < x.n; i++) x.p[i] |= 32; for (size_t i = 0; i < y.n; i++) y.p[i] |= 32; }
  sx_assert(sb_eq(&x, &y), "the case of a keyword changes the tree"); sx_trace(x.n); sx_reach("compared"); sb_free(&x); sb_free(&y); cypher_parse_result_free(a); cypher_parse_result_free(b); sx_free(s); sx_free(t); }
