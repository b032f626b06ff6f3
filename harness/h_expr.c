/* P15: operator precedence and associativity, against a reference precedence parser of its own. */
#include "dump.h"
/* reference: tokens from text, trees as strings */
static const char *rs; static size_t rn, rp; static int bad;
enum { A_L, A_R, A_U };
struct rop { const char *t; int prec, assoc, cmp; };
static const struct rop INFIX[] = { {"OR",1,A_L,0}, {"XOR",2,A_L,0}, {"AND",3,A_L,0}, {"=~",11,A_L,0}, {"=",5,A_L,0}, {"<>",5,A_L,0}, {"<=",6,A_L,1}, {">=",6,A_L,1}, {"<",6,A_L,1}, {">",6,A_L,1}, {"+",7,A_L,0}, {"-",7,A_L,0}, {"*",8,A_L,0}, {"/",8,A_L,0}, {"%",8,A_L,0}, {"^",9,A_R,0}, {"IN",11,A_L,0}, {"CONTAINS",11,A_L,0}, {"STARTSWITH",11,A_L,0}, {"ENDSWITH",11,A_L,0} };
enum { NINFIX = sizeof INFIX / sizeof *INFIX };
static int at(size_t i) { return i < rn ? (unsigned char)rs[i] : 0; }
static int part(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '$'; }
static void ws(void) { for (;;) { int c = at(rp); if (c == ' ' || c == '\n' || c == '\t') rp++; else break; } if (at(rp) == '/' && (at(rp + 1) == '/' || at(rp + 1) == '*')) bad = 1; }
static int word(const char *w) { size_t i = 0; for (; w[i]; i++) if ((at(rp + i) | 32) != (w[i] | 32) || !part(at(rp + i))) return 0; if (part(at(rp + i))) return 0; return (int)i; }
/* two words with white space in between; white space after them consumed */
static int words(const char *a, const char *b) { size_t s = rp; int k = word(a); if (!k) return 0; rp += k; ws(); if (b) { k = word(b); if (!k) { rp = s; return 0; } rp += k; ws(); } return 1; }
static int infix(size_t save) { ws(); int c = at(rp), d = at(rp + 1);
  for (int i = 0; i < NINFIX; i++) { const char *t = INFIX[i].t; if (t[0] >= 'A' && t[0] <= 'Z') { const char *b = 0; if (t[0] == 'S' ) { t = "STARTS"; b = "WITH"; } if (t[0] == 'E') { t = "ENDS"; b = "WITH"; } if (words(t, b)) return i; }
    else if (c == t[0] && (!t[1] || d == t[1])) { rp += t[1] ? 2 : 1; return i; } }
  rp = save; return -1; }
static void expr(struct sb *o, int min);
static int name_(struct sb *o) { int c = at(rp); if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_')) return 0; size_t s = rp; while (part(at(rp))) rp++; sb_put(o, rs + s, rp - s); return 1; }
static void atom(struct sb *o) { ws(); int c = at(rp);
  if (c == '(') { rp++; expr(o, 0); ws(); if (at(rp) != ')') { bad = 1; return; } rp++; return; }
  if (c >= '1' && c <= '9') { size_t s = rp; while (at(rp) >= '0' && at(rp) <= '9') rp++; if (part(at(rp))) { bad = 1; return; } sb_s(o, "#"); sb_put(o, rs + s, rp - s); return; }
  if (c == '[') { rp++; expr(o, 0); ws(); if (at(rp) != ']') { bad = 1; return; } rp++; return; }
  if (word("NOT") || word("OR") || word("XOR") || word("AND") || word("IN") || word("IS") || word("NULL") || word("CASE")) { bad = 1; return; }
  if (!name_(o)) bad = 1; }
static void prefix(struct sb *o) { ws(); if (words("NOT", 0)) { sb_s(o, "(NOT "); expr(o, 4); sb_s(o, ")"); return; }
  int c = at(rp); if (c == '+' || c == '-') { rp++; sb_s(o, c == '+' ? "(u+ " : "(u- "); expr(o, 10); sb_s(o, ")"); return; } atom(o); }
static void wrap(struct sb *o, const char *head, const struct sb *tail) { struct sb n = {0}; sb_s(&n, "("); sb_s(&n, head); sb_s(&n, " "); sb_put(&n, o->p ? o->p : "", o->n); if (tail) { sb_s(&n, " "); if (tail->n) sb_put(&n, tail->p, tail->n); } sb_s(&n, ")"); sb_free(o); *o = n; }
static void expr(struct sb *o, int min) { struct sb l = {0}; prefix(&l);
  for (; !bad;) { size_t save = rp; ws(); if (bad) break; int c = at(rp);
    if (c == '.' && at(rp + 1) != '.') { if (13 < min) { rp = save; break; } rp++; ws(); struct sb t = {0}; if (!name_(&t)) { bad = 1; sb_free(&t); break; } ws(); if (at(rp) == '(') bad = 1; /* would be a function name */ wrap(&l, ".", &t); sb_free(&t); continue; }
    if (c == ':') { if (13 < min) { rp = save; break; } struct sb t = {0}; while (ws(), at(rp) == ':') { rp++; ws(); if (t.n) sb_s(&t, " "); if (!name_(&t)) { bad = 1; break; } } wrap(&l, ":", &t); sb_free(&t); continue; }
    if (c == '[') { if (12 < min) { rp = save; break; } rp++; struct sb t = {0}; ws(); int sl = 0; if (at(rp) == '.' && at(rp + 1) == '.') sb_s(&t, "_"); else { struct sb q = {0}; expr(&q, 0); sb_put(&t, q.p ? q.p : "", q.n); sb_free(&q); } ws(); if (at(rp) == '.' && at(rp + 1) == '.') { sl = 1; rp += 2; ws(); sb_s(&t, " "); if (at(rp) == ']') sb_s(&t, "_"); else { struct sb q = {0}; expr(&q, 0); sb_put(&t, q.p ? q.p : "", q.n); sb_free(&q); } ws(); } if (at(rp) != ']') bad = 1; else rp++; wrap(&l, sl ? "[..]" : "[]", &t); sb_free(&t); continue; }
    if (c == '{' || c == '(') { bad = 1; break; }
    if (word("IS")) { if (11 < min) { rp = save; break; } size_t s2 = rp; if (words("IS", "NULL")) { wrap(&l, "ISNULL", 0); continue; } rp = s2; words("IS", 0); if (words("NOT", "NULL")) { wrap(&l, "ISNOTNULL", 0); continue; } bad = 1; break; }
    int k = infix(save); if (bad || k < 0) { rp = save; break; } if (INFIX[k].prec < min) { rp = save; break; }
    if (INFIX[k].cmp) { struct sb t = {0}; int n = 0; for (;;) { if (n) sb_s(&t, " "); sb_s(&t, INFIX[k].t); sb_s(&t, " "); struct sb q = {0}; expr(&q, 7); sb_put(&t, q.p ? q.p : "", q.n); sb_free(&q); n++; size_t s3 = rp; k = infix(s3); if (bad || k < 0 || !INFIX[k].cmp) { rp = s3; break; } } wrap(&l, "cmp", &t); sb_free(&t); continue; }
    struct sb t = {0}; expr(&t, INFIX[k].assoc == A_L ? INFIX[k].prec + 1 : INFIX[k].prec); wrap(&l, INFIX[k].t, &t); sb_free(&t); }
  sb_put(o, l.p ? l.p : "", l.n); sb_free(&l); }
/* what the library made of it, through the accessors */
static void es(struct sb *o, N *n) { if (!n) { sb_s(o, "_"); return; }
  switch (kind_of(n)) {
    case K_IDENTIFIER: sb_s(o, cypher_ast_identifier_get_name(n)); return;
    case K_INTEGER: sb_s(o, "#"); sb_s(o, cypher_ast_integer_get_valuestr(n)); return;
    case K_BINARY_OPERATOR: sb_s(o, "("); sb_s(o, opname(cypher_ast_binary_operator_get_operator(n))); sb_s(o, " "); es(o, cypher_ast_binary_operator_get_argument1(n)); sb_s(o, " "); es(o, cypher_ast_binary_operator_get_argument2(n)); sb_s(o, ")"); return;
    case K_UNARY_OPERATOR: sb_s(o, "("); sb_s(o, opname(cypher_ast_unary_operator_get_operator(n))); sb_s(o, " "); es(o, cypher_ast_unary_operator_get_argument(n)); sb_s(o, ")"); return;
    case K_COMPARISON: { sb_s(o, "(cmp "); unsigned k = cypher_ast_comparison_get_length(n); es(o, cypher_ast_comparison_get_argument(n, 0)); for (unsigned i = 0; i < k; i++) { sb_s(o, " "); sb_s(o, opname(cypher_ast_comparison_get_operator(n, i))); sb_s(o, " "); es(o, cypher_ast_comparison_get_argument(n, i + 1)); } sb_s(o, ")"); return; }
    case K_PROPERTY_OPERATOR: sb_s(o, "(. "); es(o, cypher_ast_property_operator_get_expression(n)); sb_s(o, " "); sb_s(o, cypher_ast_prop_name_get_value(cypher_ast_property_operator_get_prop_name(n))); sb_s(o, ")"); return;
    case K_SUBSCRIPT_OPERATOR: sb_s(o, "([] "); es(o, cypher_ast_subscript_operator_get_expression(n)); sb_s(o, " "); es(o, cypher_ast_subscript_operator_get_subscript(n)); sb_s(o, ")"); return;
    case K_SLICE_OPERATOR: sb_s(o, "([..] "); es(o, cypher_ast_slice_operator_get_expression(n)); sb_s(o, " "); es(o, cypher_ast_slice_operator_get_start(n)); sb_s(o, " "); es(o, cypher_ast_slice_operator_get_end(n)); sb_s(o, ")"); return;
    case K_LABELS_OPERATOR: sb_s(o, "(: "); es(o, cypher_ast_labels_operator_get_expression(n)); for (unsigned i = 0; i < cypher_ast_labels_operator_nlabels(n); i++) { sb_s(o, " "); sb_s(o, cypher_ast_label_get_name(cypher_ast_labels_operator_get_label(n, i))); } sb_s(o, ")"); return;
    case K_COLLECTION: for (unsigned i = 0; i < cypher_ast_collection_length(n); i++) es(o, cypher_ast_collection_get(n, i)); return;
    default: sb_s(o, "<"); sb_s(o, kname[kind_of(n) < 0 ? 0 : kind_of(n)]); sb_s(o, ">"); } }
/* ranges of operator nodes: those of their operands together (prefix operators start before theirs) */
static void rg(N *n) { unsigned c = cypher_astnode_nchildren(n); int k = kind_of(n); struct cypher_input_range r = cypher_astnode_range(n);
  if (k == K_BINARY_OPERATOR || k == K_COMPARISON) { size_t lo = cypher_astnode_range(cypher_astnode_get_child(n, 0)).start.offset, hi = cypher_astnode_range(cypher_astnode_get_child(n, c - 1)).end.offset; sx_assert(r.start.offset <= lo && r.end.offset >= hi, "an operator's range does not cover its operands"); }
  for (unsigned i = 0; i < c; i++) rg(cypher_astnode_get_child(n, i)); }
/* text 0: the expression; it is parsed as RETURN <text>; */
void prec(void) { size_t n; char *s = sx_text(0, &n); rs = s; rn = n; rp = 0; bad = 0; struct sb want = {0}, got = {0};
  for (size_t i = 0; i < n; i++) { int c = (unsigned char)s[i]; sx_assume(c == ' ' || (c > 32 && c < 127)); }
  expr(&want, 0); ws(); sx_assume(!bad); sx_assume(rp == n);
  char *w = sx_alloc(n + 8, 1); memcpy(w, "RETURN ", 7); memcpy(w + 7, s, n); w[n + 7] = ';';
  cypher_parse_result_t *r = cypher_uparse(w, n + 8, NULL, NULL, 0); SX_ASSERT(r != NULL); if (!r) return;
  sx_assert(cypher_parse_result_nerrors(r) == 0 && cypher_parse_result_ndirectives(r) == 1, "a well-formed expression is not accepted");
  if (cypher_parse_result_ndirectives(r) == 1) { N *q = cypher_ast_statement_get_body(cypher_parse_result_get_directive(r, 0)); N *c = q && kind_of(q) == K_QUERY ? cypher_ast_query_get_clause(q, 0) : NULL; sx_assert(c && kind_of(c) == K_RETURN && cypher_ast_return_nprojections(c) == 1, "an expression does not give one projection");
    if (c && kind_of(c) == K_RETURN) { es(&got, cypher_ast_projection_get_expression(cypher_ast_return_get_projection(c, 0))); sx_assert(sb_eq(&want, &got), "operators bind otherwise than documented"); rg(c); sx_trace(got.n); if (sx_native() && !sb_eq(&want, &got)) fprintf(stderr, "want %.*s got %.*s\n", (int)want.n, want.p, (int)got.n, got.p); } }
  sx_reach("compared"); cypher_parse_result_free(r); sb_free(&want); sb_free(&got); sx_free(w); sx_free(s); }
