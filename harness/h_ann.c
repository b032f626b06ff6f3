/* P13: annotations against a map kept here. */
#include "dump.h"
enum { NC = 3, NN = 3, NV = 64 };
static cypher_ast_annotation_context_t *C[NC]; static cypher_astnode_t *X[NN];
static int want[NC][NN] /* value + 1 attached */, handler[NC]; static char val[NV]; static int nv, released[NV], expected[NV];
static struct { int c, v; N *n; } last[24]; static int nlast;
static int ud[NC];
static void rel(void *u, N *n, void *a) { int v = (char *)a - val; sx_assert(v >= 0 && v < nv, "the release handler is given something never attached"); if (v < 0 || v >= nv) return; sx_assert(!released[v], "an annotation is released twice"); released[v] = 1; int c = u == &ud[0] ? 0 : u == &ud[1] ? 1 : u == &ud[2] ? 2 : -1; sx_assert(c >= 0, "the release handler is given the wrong userdata"); if (nlast < 24) { last[nlast].c = c; last[nlast].v = v; last[nlast++].n = n; } }
static void build(int i) { static const struct cypher_input_range r = { { 1, 1, 0 }, { 1, 2, 1 } };
  if (i < 2) { X[0] = cypher_ast_identifier("a", 1, r); X[1] = cypher_ast_unary_operator(CYPHER_OP_NOT, X[0], &X[0], 1, r); } else X[2] = cypher_ast_integer("1", 1, r); }
static void agree(void) { for (int c = 0; c < NC; c++) for (int n = 0; n < NN; n++) { void *g = cypher_astnode_get_annotation(C[c], X[n]); sx_assert(g == (want[c][n] ? &val[want[c][n] - 1] : NULL), "the annotation of a node in a context is not the one last attached"); } }
/* the annotations that must have been handed to the handler by the operation just done */
static int gone(int c, int n, N *node) { if (!want[c][n]) return 0; int v = want[c][n] - 1, f = 0; want[c][n] = 0; if (!handler[c]) { sx_assert(!released[v], "released without a handler"); return 0; } for (int i = 0; i < nlast; i++) if (last[i].v == v) { f = 1; sx_assert(last[i].c == c && last[i].n == node, "the release handler is given the wrong node or userdata"); } sx_assert(f, "an annotation is not released"); return 1; }
static void attach(int c, int n) { if (nv >= NV) return; void *prev = &prev; int v = nv++; int rc = cypher_astnode_attach_annotation(C[c], X[n], &val[v], v % 3 == 2 ? NULL : &prev); sx_assert(rc == 0, "attaching fails"); if (v % 3 != 2) sx_assert(prev == (want[c][n] ? &val[want[c][n] - 1] : NULL), "the previous annotation is not reported"); want[c][n] = v + 1; }
/* operations, M = NC * NN: attach, remove, free a context, free a tree, free its nodes one by one, set a handler, clear it */
enum { M = NC * NN, FREEC = 2 * M, TREE = FREEC + NC, SETH = TREE + 4, CLRH = SETH + NC, NOPS = CLRH + NC };
static void step(int op) { nlast = 0; int k = 0;
  if (op < M) attach(op / NN, op % NN);
  else if (op < FREEC) { op -= M; void *g = cypher_astnode_remove_annotation(C[op / NN], X[op % NN]); sx_assert(g == (want[op / NN][op % NN] ? &val[want[op / NN][op % NN] - 1] : NULL), "removing does not answer the annotation"); want[op / NN][op % NN] = 0; }
  else if (op < TREE) { int c = op - FREEC; cypher_ast_annotation_context_free(C[c]); for (int n = 0; n < NN; n++) k += gone(c, n, X[n]); C[c] = cypher_ast_annotation_context(); handler[c] = 0; }
  else if (op == TREE) { N *a = X[0], *b = X[1]; cypher_ast_free(X[1]); for (int c = 0; c < NC; c++) k += gone(c, 0, a) + gone(c, 1, b); build(0); }
  else if (op == TREE + 1) { N *a = X[2]; cypher_ast_free(X[2]); for (int c = 0; c < NC; c++) k += gone(c, 2, a); build(2); }
  else if (op == TREE + 2) { N *a = X[0], *b = X[1]; cypher_astnode_free(X[1]); for (int c = 0; c < NC; c++) k += gone(c, 1, b); sx_assert(nlast == k, "an annotation of another node is released"); for (int c = 0; c < NC; c++) sx_assert(cypher_astnode_get_annotation(C[c], a) == (want[c][0] ? &val[want[c][0] - 1] : NULL), "the annotation of a child is lost with its parent"); cypher_astnode_free(X[0]); for (int c = 0; c < NC; c++) k += gone(c, 0, a); build(0); }
  else if (op == TREE + 3) { N *a = X[2]; cypher_astnode_free(X[2]); for (int c = 0; c < NC; c++) k += gone(c, 2, a); build(2); }
  else if (op < CLRH) { int c = op - SETH; handler[c] = 1; cypher_ast_annotation_context_set_release_handler(C[c], rel, &ud[c]); }
  else { int c = op - CLRH; handler[c] = 0; cypher_ast_annotation_context_set_release_handler(C[c], NULL, &ud[c]); }
  sx_assert(nlast == k, "an annotation is released that should not be"); agree(); }
/* params: number of free operations; which context outlives the nodes; operations done first; then a prefix: 0 none, 1 handlers and all pairs attached, 2 the same in another order, 3 one context, 4 in a third order */
void annops(void) { int before = sx_live(); for (int c = 0; c < NC; c++) { C[c] = cypher_ast_annotation_context(); handler[c] = 0; for (int n = 0; n < NN; n++) want[c][n] = 0; } build(0); build(2); nv = 0; for (int i = 0; i < NV; i++) released[i] = 0;
  int p = sx_param(1); if (p) for (int c = 0; c < NC; c++) step(SETH + c); if (p == 1) for (int i = 0; i < M; i++) step(i); if (p == 2 || p == 4) { for (int i = 0; i < M; i++) step((i * (p == 2 ? 4 : 7) + 2) % M); } if (p == 3) { step(0); step(1); step(2); }
  for (int i = 3; i < sx_nparams(); i++) step(sx_param(i));
  for (int i = sx_param(0); i > 0; i--) { long op = sx_conc(sx_in(0, NOPS - 1)); sx_trace(op); step(op); }
  for (int c = 0; c < NC; c++) if (c != sx_param(2)) step(FREEC + c); step(TREE); step(TREE + 1); for (int c = 0; c < NC; c++) cypher_ast_annotation_context_free(C[c]); cypher_ast_free(X[1]); cypher_ast_free(X[2]); sx_assert(sx_live() == before, "memory is not released"); sx_reach("history"); }
/* every node of a parsed tree annotated; params: order of release: 0 result first, 1 context first, 2 removed by hand; second context */
static unsigned nn; static N *at[300]; static int seen[300]; static void rel2(void *u, N *n, void *a) { unsigned i = (unsigned)((char *)a - (char *)at) / sizeof *at; sx_assert(u == seen && i < nn && at[i] == n, "the release handler is given the wrong arguments"); if (i < nn) seen[i]++; }
static void gather(N *n) { if (nn < 300) at[nn++] = n; for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) gather(cypher_astnode_get_child(n, i)); }
void anntree(void) { size_t n; char *s = sx_text(0, &n); int before = sx_live(); cypher_parse_result_t *r = cypher_uparse(s, n, NULL, NULL, 0); if (!r) return; nn = 0; for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) gather(cypher_parse_result_get_root(r, i));
  cypher_ast_annotation_context_t *a = cypher_ast_annotation_context(), *b = cypher_ast_annotation_context(); cypher_ast_annotation_context_set_release_handler(a, rel2, seen);
  for (unsigned i = 0; i < nn; i++) { seen[i] = 0; int x = 0; SX_ASSERT(cypher_astnode_attach_annotation(i % 2 ? a : b, at[i], i % 2 ? (void *)&at[i] : (void *)&x, NULL) == 0); SX_ASSERT(cypher_astnode_attach_annotation(i % 2 ? b : a, at[i], i % 2 ? (void *)&x : (void *)&at[i], NULL) == 0); }
  for (unsigned i = 0; i < nn; i++) sx_assert(cypher_astnode_get_annotation(a, at[i]) == (void *)&at[i], "the annotation of a node is not the one attached");
  int o = sx_param(0); if (o == 2) for (unsigned i = 0; i < nn; i++) { unsigned j = i % 2 ? nn - 1 - i / 2 : i / 2; sx_assert(cypher_astnode_remove_annotation(a, at[j]) == (void *)&at[j], "removing does not answer the annotation"); sx_assert(cypher_astnode_get_annotation(a, at[j]) == NULL, "a removed annotation is still there"); }
  if (o == 1) cypher_ast_annotation_context_free(a);
  cypher_parse_result_free(r); for (unsigned i = 0; i < nn; i++) sx_assert(seen[i] == (o != 2), "an annotation is not released exactly once"); if (o != 1) cypher_ast_annotation_context_free(a); for (unsigned i = 0; i < nn; i++) sx_assert(seen[i] == (o != 2), "an annotation is released again"); cypher_ast_annotation_context_free(b);
  sx_free(s); sx_assert(sx_live() == before - 0, "memory is not released"); sx_trace(nn); sx_reach("tree"); }
/* many contexts on one node, and many nodes of one context; params: contexts, nodes, how it ends: 0 the tree first, 1 the contexts first, forwards, 2 backwards */
enum { MC = 300 }; static cypher_ast_annotation_context_t *mc[MC]; static N *mn[MC]; static int mrel[MC]; static char mv[MC];
static void rel3(void *u, N *n, void *a) { unsigned i = (char *)a - mv; sx_assert(i < MC && u == &mrel[i], "the release handler is given the wrong arguments"); if (i < MC) mrel[i]++; }
void annmany(void) { int before = sx_live(); unsigned k = sx_param(0), m = sx_param(1); int o = sx_param(2); static const struct cypher_input_range r = { { 1, 1, 0 }, { 1, 2, 1 } };
  for (unsigned i = 0; i < m; i++) { mn[i] = cypher_ast_identifier("a", 1, r); if (!mn[i]) return; }
  N *top = cypher_ast_collection(mn, m, mn, m, r); if (!top) return;
  unsigned c = k > m ? k : m; /* pair i: context i % k, node i % m */
  for (unsigned i = 0; i < k; i++) { mc[i] = cypher_ast_annotation_context(); if (!mc[i]) return; }
  for (unsigned i = 0; i < c; i++) { mrel[i] = 0; if (i < k) cypher_ast_annotation_context_set_release_handler(mc[i], k == 1 ? NULL : rel3, &mrel[i]); }
  for (unsigned i = 0; i < c; i++) sx_assert(cypher_astnode_attach_annotation(mc[i % k], mn[i % m], &mv[i], NULL) == 0, "attaching fails");
  unsigned x = sx_conc(sx_in(0, c - 1)), y = sx_conc(sx_in(0, 2)); void *prev = NULL; sx_trace(x);
  if (y == 0) sx_assert(cypher_astnode_remove_annotation(mc[x % k], mn[x % m]) == &mv[x], "removing does not answer the annotation");
  if (y == 1) { sx_assert(cypher_astnode_attach_annotation(mc[x % k], mn[x % m], &mv[x], &prev) == 0, "attaching again fails"); sx_assert(prev == &mv[x], "the previous annotation is not reported"); }
  for (unsigned i = 0; i < c; i++) { sx_assert(cypher_astnode_get_annotation(mc[i % k], mn[i % m]) == (i == x && y == 0 ? NULL : &mv[i]), "the annotation of a node in a context is not the one last attached"); }
  int r0[MC]; for (unsigned i = 0; i < c; i++) r0[i] = mrel[i];
  if (o == 0) cypher_ast_free(top); for (unsigned i = 0; i < k; i++) cypher_ast_annotation_context_free(mc[o == 2 ? k - 1 - i : i]); if (o) cypher_ast_free(top);
  if (k > 1) for (unsigned i = 0; i < c; i++) sx_assert(mrel[i] == r0[i] + (i < k && !(i == x && y == 0)), "an annotation is not released exactly once");
  sx_assert(sx_live() == before, "memory is not released"); sx_reach("many"); }
