/* P12, P29: the rendering of trees, against an independent renderer driven by the table below. */
#define COLLECT
#include "dump.h"
int cypher_ast_fprintv(cypher_astnode_t * const *, unsigned, FILE *, unsigned, const struct cypher_parser_colorization *, uint_fast32_t);
/* @f: ordinal of part f; ~(f?...~) if f is there, ~(!f?...~) if not; ~[f] and ~<f> lists; ~:f; each after a colon; ~|f; types; ~T text; ~O operator; ~C comparison; ~P pairs; ~Q alternatives; ~E path; */
static const struct { int k; const char *type, *f; } FMT[] = {
 {K_STATEMENT, "statement", "~(option?options=~[option], ~)body=@body"}, {K_CYPHER_OPTION, "CYPHER", "~(version?version=@version~)~(param?~(version?, ~)params=~[param]~)"}, {K_CYPHER_OPTION_PARAM, "cypher parameter", "@name = @value"}, {K_EXPLAIN_OPTION, "EXPLAIN", ""}, {K_PROFILE_OPTION, "PROFILE", ""},
 {K_CREATE_NODE_PROPS_INDEX, "CREATE INDEX", "ON=:@label(~<prop_name>)"}, {K_DROP_NODE_PROPS_INDEX, "DROP INDEX", "ON=:@label(~<prop_name>)"},
 {K_CREATE_NODE_PROP_CONSTRAINT, "create node prop constraint", "ON=(@identifier:@label), expression=@expression~(is_unique?, IS UNIQUE~)"}, {K_DROP_NODE_PROP_CONSTRAINT, "drop node prop constraint", "ON=(@identifier:@label), expression=@expression~(is_unique?, IS UNIQUE~)"},
 {K_CREATE_REL_PROP_CONSTRAINT, "create rel prop constraint", "ON=(@identifier:@reltype), expression=@expression~(is_unique?, IS UNIQUE~)"}, {K_DROP_REL_PROP_CONSTRAINT, "drop rel prop constraint", "ON=(@identifier:@reltype), expression=@expression~(is_unique?, IS UNIQUE~)"},
 {K_QUERY, "query", "clauses=~[clause]"}, {K_USING_PERIODIC_COMMIT, "USING PERIODIC_COMMIT", "~(limit?limit=@limit~)"}, {K_LOAD_CSV, "LOAD CSV", "~(has_with_headers?WITH HEADERS, ~)url=@url, identifier=@identifier~(field_terminator?, field_terminator=@field_terminator~)"},
 {K_START, "START", "points=~[point]~(predicate?, WHERE=@predicate~)"}, {K_NODE_INDEX_LOOKUP, "node index lookup", "@identifier = node:@index_name(@prop_name = @lookup)"}, {K_NODE_INDEX_QUERY, "node index query", "@identifier = node:@index_name(@query)"}, {K_NODE_ID_LOOKUP, "node id lookup", "@identifier = node(~<id>)"}, {K_ALL_NODES_SCAN, "all nodes scan", "identifier=@identifier"},
 {K_REL_INDEX_LOOKUP, "rel index lookup", "@identifier = rel:@index_name(@prop_name = @lookup)"}, {K_REL_INDEX_QUERY, "rel index query", "@identifier = rel:@index_name(@query)"}, {K_REL_ID_LOOKUP, "rel id lookup", "@identifier = rel(~<id>)"}, {K_ALL_RELS_SCAN, "all rels scan", "identifier=@identifier"},
 {K_MATCH, "MATCH", "~(is_optional?OPTIONAL, ~)pattern=@pattern~(hint?, hints=~[hint]~)~(predicate?, where=@predicate~)"}, {K_USING_INDEX, "USING INDEX", "@identifier:@label(@prop_name)"}, {K_USING_JOIN, "USING JOIN", "on=~[identifier]"}, {K_USING_SCAN, "USING SCAN", "@identifier:@label"},
 {K_MERGE, "MERGE", "path=@pattern_path~(action?, action~[action]~)"}, {K_ON_MATCH, "ON MATCH", "items=~[item]"}, {K_ON_CREATE, "ON CREATE", "items=~[item]"}, {K_CREATE, "CREATE", "~(is_unique?UNIQUE, ~)pattern=@pattern"},
 {K_SET, "SET", "items=~[item]"}, {K_SET_PROPERTY, "set property", "@property = @expression"}, {K_SET_ALL_PROPERTIES, "set all properties", "@identifier = @expression"}, {K_MERGE_PROPERTIES, "merge properties", "@identifier += @expression"}, {K_SET_LABELS, "set labels", "@identifier~:label;"},
 {K_DELETE, "DELETE", "~(has_detach?DETACH, ~)expressions=~[expression]"}, {K_REMOVE, "REMOVE", "items=~[item]"}, {K_REMOVE_LABELS, "remove labels", "@identifier~:label;"}, {K_REMOVE_PROPERTY, "remove property", "prop=@property"}, {K_FOREACH, "FOREACH", "[@identifier IN @expression | ~<clause>]"},
 {K_WITH, "WITH", "~(is_distinct?DISTINCT, ~)~(has_include_existing?*, ~)projections=~[projection]~(order_by?, ORDER BY=@order_by~)~(skip?, SKIP=@skip~)~(limit?, LIMIT=@limit~)~(predicate?, WHERE=@predicate~)"}, {K_UNWIND, "UNWIND", "expression=@expression, alias=@alias"},
 {K_CALL, "CALL", "name=@proc_name~(argument?, args=~[argument]~)~(projection?, YIELD=~[projection]~)~(predicate?, WHERE=@predicate~)"}, {K_RETURN, "RETURN", "~(is_distinct?DISTINCT, ~)~(has_include_existing?*, ~)projections=~[projection]~(order_by?, ORDER BY=@order_by~)~(skip?, SKIP=@skip~)~(limit?, LIMIT=@limit~)"},
 {K_PROJECTION, "projection", "expression=@expression~(alias?, alias=@alias~)"}, {K_ORDER_BY, "ORDER BY", "items=~[item]"}, {K_SORT_ITEM, "sort item", "expression=@expression, ~(is_ascending?ASCENDING~)~(!is_ascending?DESCENDING~)"}, {K_UNION, "UNION", "~(has_all?ALL~)"},
 {K_UNARY_OPERATOR, "unary operator", "~O @argument"}, {K_BINARY_OPERATOR, "binary operator", "@argument1 ~O @argument2"}, {K_COMPARISON, "comparison", "~C"}, {K_APPLY_OPERATOR, "apply", "@func_name(~(get_distinct?DISTINCT ~)~<argument>)"}, {K_APPLY_ALL_OPERATOR, "apply all", "@func_name(~(get_distinct?DISTINCT ~)*)"},
 {K_PROPERTY_OPERATOR, "property", "@expression.@prop_name"}, {K_SUBSCRIPT_OPERATOR, "subscript", "@expression[@subscript]"}, {K_SLICE_OPERATOR, "slice", "@expression[~(start?@start~)..~(end?@end~)]"}, {K_MAP_PROJECTION, "map projection", "@expression{~<selector>}"}, {K_MAP_PROJECTION_LITERAL, "literal projection", "@prop_name: @expression"}, {K_MAP_PROJECTION_PROPERTY, "property projection", ".@prop_name"}, {K_MAP_PROJECTION_IDENTIFIER, "identifier projection", "@identifier"}, {K_MAP_PROJECTION_ALL_PROPERTIES, "all properties projection", ".*"}, {K_LABELS_OPERATOR, "has labels", "@expression~:label;"},
 {K_LIST_COMPREHENSION, "list comprehension", "[@identifier IN @expression~(predicate? WHERE @predicate~)~(eval? | @eval~)]"}, {K_PATTERN_COMPREHENSION, "pattern comprehension", "[~(identifier?@identifier = ~)@pattern ~(predicate?WHERE @predicate ~)| @eval]"}, {K_CASE, "case", "~(expression?expression=@expression, ~)alternatives=[~Q]~(default?, default=@default~)"},
 {K_FILTER, "filter", "[@identifier IN @expression~(predicate? WHERE @predicate~)]"}, {K_EXTRACT, "extract", "[@identifier IN @expression~(eval? | @eval~)]"}, {K_REDUCE, "reduce", "[@accumulator=@init, @identifier IN @expression~(eval? | @eval~)]"}, {K_ALL, "all", "[@identifier IN @expression~(predicate? WHERE @predicate~)]"}, {K_ANY, "any", "[@identifier IN @expression~(predicate? WHERE @predicate~)]"}, {K_SINGLE, "single", "[@identifier IN @expression~(predicate? WHERE @predicate~)]"}, {K_NONE, "none", "[@identifier IN @expression~(predicate? WHERE @predicate~)]"},
 {K_COLLECTION, "collection", "~[element]"}, {K_MAP, "map", "{~P}"}, {K_IDENTIFIER, "identifier", "`~T`"}, {K_PARAMETER, "parameter", "$`~T`"}, {K_STRING, "string", "\"~T\""}, {K_INTEGER, "integer", "~T"}, {K_FLOAT, "float", "~T"}, {K_TRUE, "TRUE", ""}, {K_FALSE, "FALSE", ""}, {K_NULL, "NULL", ""},
 {K_LABEL, "label", ":`~T`"}, {K_RELTYPE, "rel type", ":`~T`"}, {K_PROP_NAME, "prop name", "`~T`"}, {K_FUNCTION_NAME, "function name", "`~T`"}, {K_INDEX_NAME, "index name", "`~T`"}, {K_PROC_NAME, "proc name", "`~T`"}, {K_PATTERN, "pattern", "paths=~[path]"}, {K_NAMED_PATH, "named path", "@identifier = @path"}, {K_SHORTEST_PATH, "shortestPath", "single=~(is_single?true~)~(!is_single?false~), path=@path"}, {K_PATTERN_PATH, "pattern path", "~E"},
 {K_NODE_PATTERN, "node pattern", "(~(identifier?@identifier~)~:label;~(properties? {@properties}~))"}, {K_REL_PATTERN, "rel pattern", "~(in?<~)-[~(identifier?@identifier~)~|reltype;~(varlength?*@varlength~)~(properties? {@properties}~)]-~(out?>~)"}, {K_RANGE, "range", "*~(start?@start..~(end?@end~)~)~(!start?~(end?..@end~)~)"},
 {K_COMMAND, "command", "name=@name, args=~[argument]"}, {K_LINE_COMMENT, "line_comment", "//~T"}, {K_BLOCK_COMMENT, "block_comment", "/*~T*/"}, {K_ERROR, "error", ">>~T<<"} };
#define NFMT (sizeof FMT / sizeof *FMT)
/* parts of the current node, collected through the table of accessors */
static struct { const char *name; N *n[1400]; unsigned c; int elts; } PF[12]; static int npf; static const char *ptext; static const cypher_operator_t *pop[1400]; static unsigned npop;
static N **all; static unsigned nall, ord0;
static unsigned ord(N *n) { static unsigned at; if (at >= nall) at = 0; for (unsigned i = at; i < nall; i++) if (all[i] == n) return ord0 + (at = i); for (unsigned i = at; i-- > 0;) if (all[i] == n) return ord0 + (at = i); sx_assert(0, "a part of a node is not in the tree"); return 0; }
static void flatten(N *n) { if (nall < 6000) all[nall++] = n; for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) flatten(cypher_astnode_get_child(n, i)); }
static void col_node(const char *name, N *v) { PF[npf].name = name; PF[npf].c = 1; PF[npf].n[0] = v; PF[npf++].elts = 0; }
static void col_seq(const char *name) { PF[npf].name = name; PF[npf].c = 0; PF[npf].n[0] = NULL; PF[npf++].elts = 1; }
static void col_elt(N *v) { int p = npf - 1; if (PF[p].c < 1400) PF[p].n[PF[p].c++] = v; }
static void col_flag(const char *name, int v, N *cur) { col_node(name, v ? cur : NULL); }
static void col_text(const char *s) { ptext = s ? s : "(null)"; }
static void col_op(const cypher_operator_t *o) { if (npop < 1400) pop[npop++] = o; }
static int part(const char *s, size_t l) { for (int i = 0; i < npf; i++) if (strlen(PF[i].name) == l && !memcmp(PF[i].name, s, l)) return i; return -1; }
static size_t identl(const char *f) { size_t l = 0; while ((f[l] >= 'a' && f[l] <= 'z') || f[l] == '_' || (f[l] >= '0' && f[l] <= '9')) l++; return l; }
static void put_ord(struct sb *o, N *n) { sb_s(o, "@"); sb_u(o, ord(n)); }
static const char *opstr(const cypher_operator_t *p) { const char *s = opname(p); return !strcmp(s, "u+") ? "+" : !strcmp(s, "u-") ? "-" : !strcmp(s, "STARTSWITH") ? "STARTS WITH" : !strcmp(s, "ENDSWITH") ? "ENDS WITH" : !strcmp(s, "ISNULL") ? "IS NULL" : !strcmp(s, "ISNOTNULL") ? "IS NOT NULL" : s; }
static const char *fmt(struct sb *o, const char *f, int on) {
  while (*f) {
    if (*f == '@' && identl(f + 1)) { size_t l = identl(f + 1); if (on) { int p = part(f + 1, l); sx_assert(p >= 0 && PF[p].n[0], "a mandatory part is missing"); if (p >= 0) put_ord(o, PF[p].n[0]); } f += 1 + l; continue; }
    if (*f != '~') { if (on) sb_put(o, f, 1); f++; continue; }
    f++; char c = *f++; if (c == ')') return f;
    if (c == '(') { int neg = *f == '!'; f += neg; size_t l = identl(f); int p = part(f, l); int has = p >= 0 && PF[p].n[0]; f = fmt(o, f + l + 1, on && has != neg); continue; }
    if (c == '[' || c == '<' || c == ':' || c == '|') { size_t l = identl(f); int p = part(f, l); if (on) { if (c == '[') sb_s(o, "["); for (unsigned i = 0; p >= 0 && i < PF[p].c; i++) { if (c == ':') sb_s(o, ":"); else if (c == '|') sb_s(o, i ? "|:" : ":"); else if (i) sb_s(o, ", "); put_ord(o, PF[p].n[i]); } if (c == '[') sb_s(o, "]"); } f += l + 1; continue; }
    if (!on) continue;
    if (c == 'T') sb_s(o, ptext); else if (c == 'O') sb_s(o, opstr(pop[0]));
    else if (c == 'C') { put_ord(o, PF[0].n[0]); for (unsigned i = 0; i < npop; i++) { sb_s(o, " "); sb_s(o, opstr(pop[i])); sb_s(o, " "); put_ord(o, PF[0].n[i + 1]); } }
    else if (c == 'E') for (unsigned i = 0; i < PF[0].c; i++) { sb_s(o, i % 2 ? "-[" : "("); put_ord(o, PF[0].n[i]); sb_s(o, i % 2 ? "]-" : ")"); }
    else if (c == 'P' || c == 'Q') { int p = part(c == 'P' ? "entry" : "alternative", c == 'P' ? 5 : 11); for (unsigned i = 0; p >= 0 && i + 1 < PF[p].c; i += 2) { if (i) sb_s(o, ", "); if (c == 'Q') sb_s(o, "("); put_ord(o, PF[p].n[i]); sb_s(o, ":"); put_ord(o, PF[p].n[i + 1]); if (c == 'Q') sb_s(o, ")"); } } }
  return f; }
static int fmt_of(N *n) { int k = kind_of(n); for (unsigned i = 0; i < NFMT; i++) if (FMT[i].k == k) return i; sx_assert(0, "unknown node type"); return 0; }
static void detail(struct sb *o, N *n) { npf = 0; npop = 0; ptext = ""; D.collect = 1; D.b = NULL; D.check = 0; D.cur = n; kvisit(n, kind_of(n)); D.collect = 0; fmt(o, FMT[fmt_of(n)].f, 1); }
static unsigned dw(size_t n) { unsigned w = 1; while (n > 9) { n /= 10; w++; } return w; }
static void pad(struct sb *o, int n) { while (n-- > 0) sb_s(o, " "); }
static void num(struct sb *o, size_t v, unsigned w, int left) { struct sb t = {0}; sb_u(&t, v); if (!left) pad(o, w - t.n); sb_put(o, t.p, t.n); if (left) pad(o, w - t.n); sb_free(&t); }
struct widths { size_t o, s, e, name; };
static void measure(N *n, unsigned depth, struct widths *w) { size_t s = cypher_astnode_range(n).start.offset, e = cypher_astnode_range(n).end.offset, t = strlen(FMT[fmt_of(n)].type) + 2 * depth; if (s > w->s) w->s = s; if (e > w->e) w->e = e; if (t > w->name) w->name = t; if (ord(n) > w->o) w->o = ord(n); for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) measure(cypher_astnode_get_child(n, i), depth + 1, w); }
static void lines(struct sb *o, N *n, unsigned depth, const struct widths *w, unsigned width, const struct cypher_parser_colorization *c) {
  sb_s(o, c->ast_ordinal[0]); pad(o, dw(w->o) - dw(ord(n))); put_ord(o, n); sb_s(o, c->ast_ordinal[1]); sb_s(o, "  "); sb_s(o, c->ast_range[0]); num(o, cypher_astnode_range(n).start.offset, dw(w->s), 0); sb_s(o, ".."); num(o, cypher_astnode_range(n).end.offset, dw(w->e), 1); sb_s(o, c->ast_range[1]); sb_s(o, "  "); sb_s(o, c->ast_indent[0]); for (unsigned i = 0; i < depth; i++) sb_s(o, "> "); sb_s(o, c->ast_indent[1]);
  const char *t = FMT[fmt_of(n)].type; sb_s(o, c->ast_type[0]); sb_s(o, t); sb_s(o, c->ast_type[1]); struct sb d = {0}; detail(&d, n);
  if (d.n) { unsigned off = w->name + dw(w->s) + dw(w->e) + dw(w->o) + 9, room = width <= off ? 10 : width - off, k = 0; pad(o, w->name + 2 - strlen(t) - 2 * depth); sb_s(o, c->ast_desc[0]);
    for (size_t i = 0; i < d.n; i++) { char x[2] = { '\\', 0 }; int m = 2; switch (d.p[i]) { case 7: x[1] = 'a'; break; case 8: x[1] = 'b'; break; case 12: x[1] = 'f'; break; case 10: x[1] = 'n'; break; case 13: x[1] = 'r'; break; case 9: x[1] = 't'; break; case 11: x[1] = 'v'; break; default: x[0] = d.p[i]; m = 1; }
      for (int j = 0; j < m; j++) { sb_put(o, x + j, 1); if (width && ++k == room) { k = 0; if (i + 1 < d.n) { sb_s(o, "\n"); pad(o, off); } } } }
    sb_s(o, "\n"); sb_s(o, c->ast_desc[1]); } else sb_s(o, "\n");
  sb_free(&d); for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) lines(o, cypher_astnode_get_child(n, i), depth + 1, w, width, c); }
static const struct cypher_parser_colorization MARKS = { .normal = {"", ""}, .error = {"<e>", "</e>"}, .error_token = {"<t>", "</t>"}, .error_message = {"<m>", "</m>"}, .ast_ordinal = {"<o>", "</o>"}, .ast_range = {"<r>", "</r>"}, .ast_indent = {"<i>", "</i>"}, .ast_type = {"<y>", "</y>"}, .ast_desc = {"<d>", "</d>"} };
static void same(FILE *f, const struct sb *want) { size_t m; char *g = sx_outdata(f, &m); if (sx_native() && (m != want->n || memcmp(g, want->p, m))) fprintf(stderr, "got:\n%.*swant:\n%.*s\n", (int)m, g, (int)want->n, want->p); sx_assert(m == want->n && !memcmp(g, want->p ? want->p : "", m), "the rendering is not that of the tree"); sx_trace(m); sx_reach("compared"); }
/* params: API (0 result, 1 each root on its own, 2 array of roots, 3 segments), width, colours, width symbolic */
static const struct cypher_parser_colorization *pcol; static unsigned pw;
static int seg(void *u, cypher_parse_segment_t *s) { struct widths w = {0}; struct sb o = {0}; FILE *f = sx_outfile(-1); nall = 0; for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) flatten(cypher_parse_segment_get_root(s, i)); for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) measure(cypher_parse_segment_get_root(s, i), 0, &w); for (unsigned i = 0; i < cypher_parse_segment_nroots(s); i++) lines(&o, cypher_parse_segment_get_root(s, i), 0, &w, pw, pcol ? pcol : cypher_parser_no_colorization); sx_assert(cypher_parse_segment_fprint_ast(s, f, pw, pcol, 0) == 0, "rendering fails"); same(f, &o); sx_close(f); ord0 += nall; sb_free(&o); return 0; }
void render(void) { size_t n; char *s = sx_text(0, &n); int api = sx_param(0), c = sx_param(2); pw = sx_param(1); if (sx_param(3)) pw = sx_in(0, 255); pcol = c == 2 ? &MARKS : c == 1 ? cypher_parser_ansi_colorization : NULL; const struct cypher_parser_colorization *cc = pcol ? pcol : cypher_parser_no_colorization; all = sx_alloc(6000 * sizeof *all, 1); nall = 0; ord0 = 0;
  cypher_parser_config_t *cfg = NULL; if (sx_param(4)) { static const size_t OB[] = { 0, 0, 90, 990, 99990, 0xfffffff0u, 999999999990u }; static const unsigned UB[] = { 0, 90, 0, 9990, 4294960000u, 990, 99990 }; cfg = cypher_parser_new_config(); SX_ASSERT(cfg); int kb = sx_param(4) & 7, k = sx_param(4) & 8 ? 3 : sx_conc(sx_in(0, 15)); struct cypher_input_position p = { 7, 3, OB[kb] + k }; cypher_parser_config_set_initial_position(cfg, p); ord0 = UB[kb] + 15 - k; cypher_parser_config_set_initial_ordinal(cfg, ord0); sx_reach("numbers"); }
  if (api == 3) { cypher_uparse_each(s, n, seg, NULL, NULL, cfg, 0); cypher_parser_config_free(cfg); sx_free(all); sx_free(s); return; }
  cypher_parse_result_t *r = cypher_uparse(s, n, NULL, cfg, 0); cypher_parser_config_free(cfg); if (!r) return; unsigned k = cypher_parse_result_nroots(r); struct widths w = {0}; struct sb o = {0}; for (unsigned i = 0; i < k; i++) flatten(cypher_parse_result_get_root(r, i));
  if (api != 1) { for (unsigned i = 0; i < k; i++) measure(cypher_parse_result_get_root(r, i), 0, &w); for (unsigned i = 0; i < k; i++) lines(&o, cypher_parse_result_get_root(r, i), 0, &w, pw, cc); FILE *f = sx_outfile(-1); int rc;
    if (api == 0) rc = cypher_parse_result_fprint_ast(r, f, pw, pcol, 0); else { cypher_astnode_t **a = sx_alloc((k + 1) * sizeof *a, 1); for (unsigned i = 0; i < k; i++) a[i] = (cypher_astnode_t *)cypher_parse_result_get_root(r, i); rc = cypher_ast_fprintv(a, k, f, pw, pcol, 0); sx_free(a); }
    sx_assert(rc == 0, "rendering fails"); same(f, &o); sx_close(f); sb_free(&o); }
  else for (unsigned i = 0; i < k; i++) { struct widths v = {0}; struct sb q = {0}; FILE *f = sx_outfile(-1); N *x = cypher_parse_result_get_root(r, i); measure(x, 0, &v); lines(&q, x, 0, &v, pw, cc); sx_assert(cypher_ast_fprint(x, f, pw, pcol, 0) == 0, "rendering fails"); same(f, &q); sx_close(f); sb_free(&q); }
  cypher_parse_result_free(r); sx_free(all); sx_free(s); }
/* a description about as long as the space first set aside for one (1024): the ordinal of the first node decides its exact length; params: API (0 or 2), width, by how much it is off */
void edge(void) { size_t n; char *s = sx_text(0, &n); pw = sx_param(1); all = sx_alloc(6000 * sizeof *all, 1); nall = 0; ord0 = 0; cypher_parser_config_t *cfg = cypher_parser_new_config(); SX_ASSERT(cfg);
  cypher_parse_result_t *r = cypher_uparse(s, n, NULL, cfg, 0); if (!r) return; for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) flatten(cypher_parse_result_get_root(r, i)); unsigned big = 0; size_t best = 0; struct sb d = {0}; ord0 = 10000;
  for (unsigned i = 0; i < nall; i++) { d.n = 0; detail(&d, all[i]); if (d.n > best) { best = d.n; big = i; } }
  unsigned lo = 9999 - nall, hi = 10000; while (lo < hi) { unsigned m = (lo + hi) / 2; ord0 = m; d.n = 0; detail(&d, all[big]); if (d.n >= 1019) hi = m; else lo = m + 1; }
  ord0 = lo; d.n = 0; detail(&d, all[big]); sx_assert(d.n >= 1019 && d.n <= 1034, "the template misses the boundary"); cypher_parse_result_free(r);
  unsigned o = lo + sx_conc(sx_in(0, sx_param(2))); cypher_parser_config_set_initial_ordinal(cfg, o); r = cypher_uparse(s, n, NULL, cfg, 0); if (!r) return; ord0 = o; nall = 0; unsigned k = cypher_parse_result_nroots(r); struct widths w = {0}; struct sb q = {0}; for (unsigned i = 0; i < k; i++) flatten(cypher_parse_result_get_root(r, i)); d.n = 0; detail(&d, all[big]); sx_trace(d.n);
  const struct cypher_parser_colorization *cc = cypher_parser_no_colorization; for (unsigned i = 0; i < k; i++) measure(cypher_parse_result_get_root(r, i), 0, &w); for (unsigned i = 0; i < k; i++) lines(&q, cypher_parse_result_get_root(r, i), 0, &w, pw, cc); FILE *f = sx_outfile(-1); sx_assert(cypher_parse_result_fprint_ast(r, f, pw, NULL, 0) == 0, "rendering fails"); same(f, &q); sx_close(f);
  if (d.n == 1023 || d.n == 1024) sx_reach("edge"); sb_free(&q); sb_free(&d); cypher_parse_result_free(r); cypher_parser_config_free(cfg); sx_free(all); sx_free(s); }
