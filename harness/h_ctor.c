/* P27: every constructor accepts exactly the documented parts, and the node answers them. */
#define COLLECT
#include "dump.h"
#include <errno.h>
struct a { int k, min, t1, t2, t3; cypher_astnode_t *v[8], *w[4]; unsigned n; const cypher_operator_t *ops[4]; unsigned char flag; char *s; };
static struct { int kind; struct a a[8]; int na; const int *order; int norder; cypher_astnode_t *kids[40]; unsigned nkids; struct cypher_input_range range; } C;
static void arg(int k, int min, int t1, int t2, int t3) { struct a *x = &C.a[C.na++]; memset(x, 0, sizeof *x); x->k = k; x->min = min; x->t1 = t1; x->t2 = t2; x->t3 = t3; }
#include "ctor_table.h"
/* what the accessors answer */
static struct { const void *p; long v; } G[40]; static int ng;
static void g(const void *p, long v) { if (ng < 40) { G[ng].p = p; G[ng].v = v; } ng++; }
static void col_node(const char *name, N *v) { (void)name; g(v, 0); }
static void col_seq(const char *name) { (void)name; }
static void col_elt(N *v) { g(v, 0); }
static void col_flag(const char *name, int v, N *cur) { (void)cur; if (!strcmp(name, "in")) v = CYPHER_REL_INBOUND; else if (!strcmp(name, "out")) v = CYPHER_REL_OUTBOUND; else if (!strcmp(name, "both")) v = CYPHER_REL_BIDIRECTIONAL; g(NULL, v); }
static void col_text(const char *s) { g(s, 0); }
static void col_op(const cypher_operator_t *o) { g(o, 0); }
static const char *const rich[] = {
  "MATCH p = (a:A {x: 1}), s = shortestPath((a)-[r:R*1..2]->(b)) USING INDEX a:A(x) USING SCAN b:B USING JOIN ON a, b WHERE a.x RETURN 1.5, 'q', true, false, null, {a: 1}, $p, l[1], l[1..2], NOT a, a + b, a < b, count(DISTINCT *), f(1), a:B, n {.a, .*, b, c: 2}, [x IN l WHERE x | y], [(a)--(b) | 1], CASE WHEN a THEN b END, filter(x IN l WHERE y), extract(x IN l | y), reduce(a = 0, x IN l | x), all(x IN l WHERE y), any(x IN l WHERE y), none(x IN l WHERE y), single(x IN l WHERE y), [1] AS z ORDER BY a UNION RETURN 1;",
  "START n = node:i(p = 'v'), m = node(1), a = node(*), q = node:i('q'), r = rel(*), s = rel(1), t = rel:j('q'), u = rel:j(p = 'q') WITH 1 AS a CALL a.b(1) YIELD d AS e UNWIND l AS x MERGE (a) ON CREATE SET a.x = 1, a += {}, a:L, a = b ON MATCH SET a.x = 1 SET a.x = 1 REMOVE a:L, a.x DELETE a FOREACH (x IN l | CREATE (x));",
  "CYPHER 3.0 planner=cost USING PERIODIC COMMIT 10 LOAD CSV FROM 'f' AS l RETURN 1; EXPLAIN RETURN 1; PROFILE RETURN 1; // c\n/* d */ :cmd a\nCREATE INDEX ON :L(a); DROP INDEX ON :L(a); CREATE CONSTRAINT ON (n:L) ASSERT n.b IS UNIQUE; DROP CONSTRAINT ON (n:L) ASSERT n.b IS UNIQUE; CREATE CONSTRAINT ON ()-[r:R]-() ASSERT r.p IS UNIQUE; DROP CONSTRAINT ON ()-[r:R]-() ASSERT exists(r.p); RETURN ^;" };
static N *pool[K_COUNT]; static cypher_parse_result_t *res[3];
static void gather(N *n) { int k = kind_of(n); if (k >= 0 && (!pool[k] || cypher_astnode_nchildren(n) < cypher_astnode_nchildren(pool[k]))) pool[k] = n; for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) gather(cypher_astnode_get_child(n, i)); }
static int used[K_COUNT];
/* a fresh node of kind k, or of one that is a k */
static cypher_astnode_t *fresh(int k) { int turn = used[k]++; for (int pass = 0; pass < 2; pass++) for (int j = 0; j < K_COUNT; j++) if (pool[j] && kanc(j, k) && (pass || turn-- == 0)) { cypher_astnode_t *c = cypher_ast_clone(pool[j]); sx_assert(c != NULL, "a node cannot be cloned"); return c; } sx_assert(0, "no node of this kind"); return NULL; }
static void kid(cypher_astnode_t *x) { if (x) C.kids[C.nkids++] = x; }
static struct cypher_input_position spos(void) { struct cypher_input_position p; p.line = sx_sym() + 1000u * sx_sym(); p.column = sx_sym() * 70001u; p.offset = ((size_t)sx_sym() << 35) + sx_sym(); return p; }
static int same(struct cypher_input_position a, struct cypher_input_position b) { return (a.line == b.line) & (a.column == b.column) & (a.offset == b.offset); }
static int eqr(struct cypher_input_range a, struct cypher_input_range b) { return same(a.start, b.start) & same(a.end, b.end); }
static int fits(const struct a *a, unsigned j, int k) { int t = a->t3 >= 0 && j % 2 ? a->t3 : a->t1; return kanc(k, t) || (t == a->t1 && kanc(k, a->t2)); }
static unsigned len(const struct a *a) { return a->k == 'd' || a->k == 'm' ? 2 * a->n : a->k == 'c' ? a->n + 1 : a->k == 'n' || a->k == 'o' ? 1 : a->n; }
static cypher_astnode_t **slot(struct a *a, unsigned j) { return a->k == 'm' && j % 2 ? &a->w[j / 2] : a->k == 'm' ? &a->v[j / 2] : &a->v[j]; }
static void expect(int ord) { struct a *a = &C.a[ord]; unsigned n = len(a);
  if (a->k == 'c') { g(a->v[0], 0); for (unsigned i = 0; i < a->n; i++) { g(a->ops[i], 0); g(a->v[i + 1], 0); } }
  else if (strchr("novdmp", a->k)) for (unsigned j = 0; j < n; j++) g(*slot(a, j), 0); else if (a->k == 'b' || a->k == 'r') g(NULL, a->flag); else if (a->k == 'x') g(a->ops[0], 0); }
/* parameters: constructor, varied argument (-1: none), its element, length of arrays, mask of absent optional parts, order of the children */
void ctor(void) {
  int c = sx_param(0), va = sx_param(1), ve = sx_param(2), nl = sx_param(3), absent = sx_param(4), rev = sx_param(5);
  for (int i = 0; i < 3; i++) { res[i] = cypher_parse(rich[i], NULL, NULL, 0); if (!res[i]) return; for (unsigned j = 0; j < cypher_parse_result_nroots(res[i]); j++) gather(cypher_parse_result_get_root(res[i], j)); }
  for (int i = 0; i < K_COUNT; i++) sx_assert(pool[i] != NULL || i == K_STATEMENT_OPTION || i == K_SCHEMA_COMMAND || i == K_QUERY_OPTION || i == K_QUERY_CLAUSE || i == K_START_POINT || i == K_MATCH_HINT || i == K_MERGE_ACTION || i == K_SET_ITEM || i == K_REMOVE_ITEM || i == K_EXPRESSION || i == K_MAP_PROJECTION_SELECTOR || i == K_BOOLEAN || i == K_COMMENT || (i >= K_CREATE_NODE_PROPS_INDEX && i < K_QUERY), kname[i]);
  describe(c); C.range.start = spos(); C.range.end = spos(); int base = sx_live();
  const cypher_operator_t *ops[] = { CYPHER_OP_PLUS, CYPHER_OP_LT, CYPHER_OP_NOT, CYPHER_OP_AND };
  char *text = NULL; size_t tn = 0; int valid = 1;
  for (int i = 0; i < C.na; i++) { struct a *a = &C.a[i];
    if (a->k == 'b') { a->flag = sx_sym(); sx_assume(a->flag <= 1); } else if (a->k == 'r') { a->flag = sx_in(0, 2); } else if (a->k == 'x') a->ops[0] = ops[sx_conc(sx_in(0, 3))];
    else if (a->k == 's') { text = sx_text(0, &tn); for (size_t z = 0; z < tn; z++) sx_assume(text[z] != 0); a->s = text; a->n = tn; }
    else if (a->k == 'o' && (absent >> i & 1)) a->v[0] = NULL;
    else { a->n = a->k == 'p' ? 2 * nl + 1 : a->k == 'n' || a->k == 'o' ? 1 : nl; if (a->k == 'c') for (int j = 0; j < nl; j++) a->ops[j] = ops[sx_conc(sx_in(0, 1)) * 2 + j % 2];
      if ((a->k == 'v' || a->k == 'c') && (int)a->n < a->min) valid = 0;
      for (unsigned j = 0; j < len(a); j++) *slot(a, j) = fresh(a->t3 >= 0 && j % 2 ? a->t3 : j % 3 == 1 ? a->t2 : a->t1); } }
  int w = K_WITH == C.kind || K_RETURN == C.kind; if (w && nl == 0 && !C.a[1].flag) valid = 0;
  /* one part, symbolic: of any kind, absent, not among the children, or the same as another */
  cypher_astnode_t *out = NULL; 
  if (va >= 0) { struct a *a = &C.a[va]; cypher_astnode_t **s = slot(a, ve); int k = sx_conc(sx_in(0, K_COUNT + 1));
    if (k < K_COUNT) { if (!pool[k]) return; if (*s) cypher_ast_free(*s); *s = cypher_ast_clone(pool[k]); if (!fits(a, ve, k)) valid = 0; sx_reach(valid ? "right kind" : "wrong kind"); }
    else if (k == K_COUNT) { if (*s) cypher_ast_free(*s); *s = NULL; if (a->k != 'o') valid = 0; sx_reach("absent"); }
    else { out = *s; valid = out == NULL && valid; sx_reach("not a child"); } }
  /* children: comments before, between and after the parts */
  if (!nokids(c)) { kid(fresh(K_BLOCK_COMMENT));
    for (int i = 0; i < C.na; i++) { struct a *a = &C.a[rev ? C.na - 1 - i : i]; if (!strchr("novdmpc", a->k)) continue; for (unsigned j = 0; j < len(a); j++) { cypher_astnode_t *x = *slot(a, rev ? len(a) - 1 - j : j); if (x && x != out) kid(x); } }
    kid(fresh(K_LINE_COMMENT)); }
  struct cypher_input_range R = C.range; cypher_astnode_t *K[40]; for (unsigned i = 0; i < C.nkids; i++) K[i] = C.kids[i];
  errno = 0; cypher_astnode_t *n = construct(c); int e = errno;
  sx_trace(n != NULL);
  if (!valid) { sx_assert(n == NULL, "a constructor accepts parts other than the documented ones"); sx_assert(n != NULL || e == EINVAL, "a constructor that rejects its parts does not set errno to EINVAL"); }
  else sx_assert(n != NULL, "a constructor rejects documented parts");
  if (n && valid) {
    sx_reach("constructed");
    /* the expected answers, before the caller's arrays change */
    ng = 0; for (int i = 0; i < C.norder; i++) { if (C.na == 0) break; if (C.order[i] < 0) g(NULL, 0); else expect(C.order[i]); }
    struct { const void *p; long v; } X[40]; int nx = ng; for (int i = 0; i < nx && i < 40; i++) { X[i].p = G[i].p; X[i].v = G[i].v; }
    char T[16]; for (size_t i = 0; i < tn && i < 16; i++) { T[i] = text[i]; text[i] = '#'; }
    for (int i = 0; i < C.na; i++) { struct a *a = &C.a[i]; memset(a->v, 0, sizeof a->v); memset(a->w, 0, sizeof a->w); memset(a->ops, 0, sizeof a->ops); } memset(C.kids, 0, sizeof C.kids);
    sx_assert(kind_of(n) == C.kind, "the node is of another type"); sx_assert(!strcmp(cypher_astnode_typestr(cypher_astnode_type(n)), cypher_astnode_typestr(ktype(C.kind))), "typestr");
    for (int k = 0; k < K_COUNT; k++) sx_assert(cypher_astnode_instanceof(n, ktype(k)) == kanc(C.kind, k), "the node is an instance of other types than documented");
    sx_assert(eqr(cypher_astnode_range(n), R), "the node has another range");
    sx_assert(cypher_astnode_nchildren(n) == C.nkids, "the node has another number of children"); for (unsigned i = 0; i < C.nkids; i++) sx_assert(cypher_astnode_get_child(n, i) == K[i], "the node has other children");
    cypher_astnode_t *two[2]; two[0] = n; two[1] = cypher_ast_clone(n); sx_assert(two[1] != NULL, "the node cannot be cloned");
    for (int t = 0; t < 2; t++) { N *m = two[t]; ng = 0; D.collect = 1; D.cur = m; kvisit(m, C.kind); D.collect = 0;
      sx_assert(cypher_astnode_nchildren(m) == C.nkids, "the clone has another number of children");
      if (text) { const char *v = (const char *)G[0].p; sx_assert(v != NULL && ng == 1, "no text"); for (size_t i = 0; i < tn; i++) { sx_assert(v[i] == T[i], "the text of the node differs from that given"); } sx_assert(v[tn] == 0, "the text of the node is longer than that given"); continue; }
      sx_assert(ng >= nx && (ng == nx || C.kind == K_NAMED_PATH || C.kind == K_SHORTEST_PATH), "the accessors answer another number of parts"); if (ng < nx) return;
      for (int i = 0; i < nx; i++) { const void *want = X[i].p, *got = G[i].p; sx_assert(X[i].v == G[i].v, "a flag of the node differs from that given");
        if (t) for (unsigned j = 0; j < C.nkids; j++) if (want == K[j]) { want = cypher_astnode_get_child(m, j); break; }
        sx_assert(got == want, t ? "a part of the clone is not the clone of the part" : "a part of the node is not that given"); }
      for (int i = nx; i < ng; i++) { N *p = (N *)X[nx - 1].p; if (t) for (unsigned j = 0; j < C.nkids; j++) if (p == K[j]) { p = cypher_astnode_get_child(m, j); break; } sx_assert(G[i].p == cypher_ast_pattern_path_get_element(p, i - nx), "the elements of a path are not those of the path within"); } }
    cypher_ast_free(two[1]); cypher_ast_free(n);
    if (out) cypher_ast_free(out);
  } else if (!n) { for (unsigned i = 0; i < C.nkids; i++) { sx_assert(C.kids[i] == K[i], "the array of the caller was changed"); sx_assert(kind_of(K[i]) >= 0, "a child was released"); cypher_ast_free(K[i]); } if (out) cypher_ast_free(out); }
  sx_assert(sx_live() == base, "memory is left over");
  for (int i = 0; i < 3; i++) cypher_parse_result_free(res[i]);
  if (text) sx_free(text);
}
