/* Observes an AST through the public API only: a serialiser (for equality and for comparison with expected trees)
 * and a checker of the structural guarantees. */
#pragma once
#include "sx.h"
#include <cypher-parser.h>
#include <string.h>
#include <stdbool.h>
typedef const cypher_astnode_t N;
struct sb { char *p; size_t n, cap; };
static void sb_put(struct sb *b, const char *s, size_t n) {
  if (b->n + n + 1 > b->cap) { size_t c = b->cap ? b->cap : 512; while (c < b->n + n + 1) c *= 4; char *q = sx_alloc(c, 1); if (b->n) memcpy(q, b->p, b->n); if (b->p) sx_free(b->p); b->p = q; b->cap = c; }
  for (size_t i = 0; i < n; i++) b->p[b->n + i] = s[i];
  b->n += n; }
static void sb_s(struct sb *b, const char *s) { sb_put(b, s, strlen(s)); }
static void sb_u(struct sb *b, size_t v) { char t[24]; int k = 24; do { t[--k] = '0' + v % 10; v /= 10; } while (v); sb_put(b, t + k, 24 - k); }
static void sb_free(struct sb *b) { if (b->p) sx_free(b->p); b->p = 0; b->n = b->cap = 0; }
static int sb_eq(const struct sb *a, const struct sb *b) { if (a->n != b->n) return 0; return a->n == 0 || memcmp(a->p, b->p, a->n) == 0; }
static void sb_trace(const struct sb *b) { sx_trace(b->n); for (size_t i = 0; i < b->n; i++) sx_trace(b->p[i]); }

enum { S_NOALIAS = 16 /* without an alias that starts where its projection does */, S_KIDS = 32 /* kinds of the children that are not comments */, S_RANGE = 1, S_CHILD = 2, S_ORD = 4, S_REL = 8 /* ranges relative to the base offset, no line/column */ };
enum { C_RANGE = 1, C_ORD = 2, C_TYPE = 4, C_PAST = 8 };
#ifndef DTLS
#define DTLS
#endif
static DTLS struct { struct sb *b; int flags; int check; N *cur; int ck; size_t base; const char *txt; size_t txtn; struct cypher_input_position pos0; int depth, collect; } D;

static int kind_of(N *n); static void ser(N *n);
/* a harness that defines COLLECT gets the parts of a node instead (D.collect) */
#ifdef COLLECT
static void col_node(const char *name, N *v); static void col_seq(const char *name); static void col_elt(N *v); static void col_flag(const char *name, int v, N *cur); static void col_text(const char *s); static void col_op(const cypher_operator_t *o);
#define COL(x) if (D.collect) { x; return; }
#else
#define COL(x)
#endif
static void F_key(const char *k) { if (D.b) { sb_s(D.b, " "); sb_s(D.b, k); sb_s(D.b, "="); } }
static int is_child(N *p, N *c) { unsigned k = cypher_astnode_nchildren(p); for (unsigned i = 0; i < k; i++) if (cypher_astnode_get_child(p, i) == c) return 1; return 0; }
static void F_type(N *v, int k);
static void F_node(const char *name, N *v, int k, int optional) {
  COL(col_node(name, v)) if (v == NULL) { if (D.check & C_TYPE) sx_assert(optional, "a mandatory part of a node is missing"); if (D.b && !optional) { F_key(name); sb_s(D.b, "NONE"); } return; }
  if (D.check & C_TYPE) { sx_assert(is_child(D.cur, v), "a part of a node is not among its children"); if (k >= 0) F_type(v, k); }
  if ((D.flags & S_NOALIAS) && D.b && cypher_astnode_type(D.cur) == CYPHER_AST_PROJECTION && cypher_astnode_type(v) == CYPHER_AST_IDENTIFIER && cypher_astnode_range(v).start.offset == cypher_astnode_range(D.cur).start.offset) { F_key(name); sb_s(D.b, "implicit"); return; }
  F_key(name); if (D.b) { N *c = D.cur; ser(v); D.cur = c; } }
static void F_seq(const char *name, unsigned c) { COL(col_seq(name)) if (D.b && c) { F_key(name); sb_s(D.b, "#"); sb_u(D.b, c); } }
static void F_elt2(N *v, int k, int child) {
  COL(col_elt(v)) if (D.check & C_TYPE) { sx_assert(v != NULL, "an element below the count is missing"); if (!v) return; if (child) sx_assert(is_child(D.cur, v), "an element of a node is not among its children"); if (k >= 0) F_type(v, k); }
  if (D.b) { sb_s(D.b, " "); if (!v) { sb_s(D.b, "NONE"); return; } N *c = D.cur; ser(v); D.cur = c; } }
static void F_elt(N *v, int k) { F_elt2(v, k, 1); }
static void F_past(int ok) { COL((void)ok) if (D.check & C_PAST) sx_assert(ok, "an accessor given an index past the end does not answer null"); }
static void F_flag(const char *name, bool v) { COL(col_flag(name, v, D.cur)) if (D.b && v) { sb_s(D.b, " "); sb_s(D.b, name); } }
static void F_text(const char *s) { COL(col_text(s)) if (D.check & C_TYPE) sx_assert(s != NULL, "a text accessor answers null"); if (D.b) { sb_s(D.b, " \""); if (s) sb_s(D.b, s); sb_s(D.b, "\""); } }
static const struct { const cypher_operator_t *const *o; const char *n; } OPS[] = {
  {&CYPHER_OP_OR, "OR"}, {&CYPHER_OP_XOR, "XOR"}, {&CYPHER_OP_AND, "AND"}, {&CYPHER_OP_NOT, "NOT"}, {&CYPHER_OP_EQUAL, "="}, {&CYPHER_OP_NEQUAL, "<>"}, {&CYPHER_OP_LT, "<"}, {&CYPHER_OP_GT, ">"}, {&CYPHER_OP_LTE, "<="}, {&CYPHER_OP_GTE, ">="},
  {&CYPHER_OP_PLUS, "+"}, {&CYPHER_OP_MINUS, "-"}, {&CYPHER_OP_MULT, "*"}, {&CYPHER_OP_DIV, "/"}, {&CYPHER_OP_MOD, "%"}, {&CYPHER_OP_POW, "^"}, {&CYPHER_OP_UNARY_PLUS, "u+"}, {&CYPHER_OP_UNARY_MINUS, "u-"}, {&CYPHER_OP_REGEX, "=~"}, {&CYPHER_OP_IN, "IN"},
  {&CYPHER_OP_STARTS_WITH, "STARTSWITH"}, {&CYPHER_OP_ENDS_WITH, "ENDSWITH"}, {&CYPHER_OP_CONTAINS, "CONTAINS"}, {&CYPHER_OP_IS_NULL, "ISNULL"}, {&CYPHER_OP_IS_NOT_NULL, "ISNOTNULL"}, {&CYPHER_OP_MAP_PROJECTION, "{"}, {&CYPHER_OP_SUBSCRIPT, "["}, {&CYPHER_OP_PROPERTY, "."}, {&CYPHER_OP_LABEL, ":"} };
static const char *opname(const cypher_operator_t *o) { for (unsigned i = 0; i < sizeof OPS / sizeof *OPS; i++) if (*OPS[i].o == o) return OPS[i].n; return "?"; }
static void F_op(const cypher_operator_t *o) { COL(col_op(o)) if (D.check & C_TYPE) sx_assert(opname(o)[0] != '?', "an operator accessor answers an unknown operator"); if (D.b) { sb_s(D.b, " "); sb_s(D.b, opname(o)); } }
static void F_dir(enum cypher_rel_direction d) { COL(col_flag(d == CYPHER_REL_INBOUND ? "in" : d == CYPHER_REL_OUTBOUND ? "out" : "both", 1, D.cur)) if (D.b) sb_s(D.b, d == CYPHER_REL_INBOUND ? " <--" : d == CYPHER_REL_OUTBOUND ? " -->" : d == CYPHER_REL_BIDIRECTIONAL ? " <-->" : " ??"); }
static void F_pathelt(N *v, unsigned i);
#include "dump_table.h"
static int kind_of(N *n) { cypher_astnode_type_t t = cypher_astnode_type(n); for (int k = 0; k < K_COUNT; k++) if (ktype(k) == t) return k; return -1; }
static void F_type(N *v, int k) { int kk = kind_of(v); sx_assert(kk >= 0 && kanc(kk, k), "a part of a node has a type other than the documented one"); }
static void F_pathelt(N *v, unsigned i) { N *c = D.cur; int pp = kind_of(c) == K_PATTERN_PATH; F_elt2(v, i % 2 ? K_REL_PATTERN : K_NODE_PATTERN, pp); }
static void ser_pos(struct sb *b, struct cypher_input_position p) { sb_u(b, p.line); sb_s(b, ":"); sb_u(b, p.column); sb_s(b, ":"); sb_u(b, p.offset - D.base); }
static void ser(N *n) {
  int k = kind_of(n); if (D.depth > 120) { sb_s(D.b, "..."); return; } D.depth++;
  sb_s(D.b, "("); sb_s(D.b, k < 0 ? "?" : kname[k]);
  struct cypher_input_range r = cypher_astnode_range(n);
  if (D.flags & S_RANGE) { sb_s(D.b, "@"); if (D.flags & S_REL) { sb_u(D.b, r.start.offset - D.base); sb_s(D.b, ".."); sb_u(D.b, r.end.offset - D.base); } else { ser_pos(D.b, r.start); sb_s(D.b, ".."); ser_pos(D.b, r.end); } }
  D.cur = n; if (k >= 0) kvisit(n, k);
  if (D.flags & S_CHILD) { unsigned c = cypher_astnode_nchildren(n); if (c) { sb_s(D.b, " /"); sb_u(D.b, c); for (unsigned i = 0; i < c; i++) { N *ch = cypher_astnode_get_child(n, i); sb_s(D.b, " "); if (ch) { if (cypher_astnode_instanceof(ch, CYPHER_AST_COMMENT) || cypher_astnode_instanceof(ch, CYPHER_AST_ERROR)) ser(ch); else sb_s(D.b, kname[kind_of(ch) < 0 ? 0 : kind_of(ch)]); } } } }
  if (D.flags & S_KIDS) { unsigned c = cypher_astnode_nchildren(n), any = 0; for (unsigned i = 0; i < c; i++) { N *ch = cypher_astnode_get_child(n, i); if (ch && !cypher_astnode_instanceof(ch, CYPHER_AST_COMMENT)) { sb_s(D.b, any++ ? "," : " /"); sb_s(D.b, kname[kind_of(ch) < 0 ? 0 : kind_of(ch)]); } } }
  sb_s(D.b, ")"); D.depth--; }
static void dump(struct sb *b, N *n, int flags, size_t base) { D.b = b; D.flags = flags; D.check = 0; D.base = base; D.depth = 0; ser(n); D.b = NULL; }

/* position of byte `off` of the text, computed independently: lines end at \n (also when preceded by \r) */
static struct cypher_input_position pos_of(const char *s, size_t n, size_t off, struct cypher_input_position p0) {
  struct cypher_input_position p = p0; for (size_t i = 0; i < off && i < n; i++) { p.offset++; if (s[i] == '\n') { p.line++; p.column = 1; } else p.column++; } return p; }
static void ck_rec(N *n, N *parent, unsigned *ord) {
  struct cypher_input_range r = cypher_astnode_range(n);
  if (D.check & C_RANGE) {
    sx_assert(r.start.offset <= r.end.offset, "a node's range ends before it starts");
    sx_assert(r.start.offset >= D.pos0.offset && r.end.offset <= D.pos0.offset + D.txtn, "a node's range is outside the input");
    if (parent) { struct cypher_input_range q = cypher_astnode_range(parent); sx_assert(q.start.offset <= r.start.offset && r.end.offset <= q.end.offset, "a node's range is not within its parent's"); }
    if (r.start.offset >= D.pos0.offset && r.end.offset <= D.pos0.offset + D.txtn) {
      struct cypher_input_position a = pos_of(D.txt, D.txtn, r.start.offset - D.pos0.offset, D.pos0), b = pos_of(D.txt, D.txtn, r.end.offset - D.pos0.offset, D.pos0);
      sx_assert(a.line == r.start.line && a.column == r.start.column, "line/column of a node's start disagree with its offset");
      sx_assert(b.line == r.end.line && b.column == r.end.column, "line/column of a node's end disagree with its offset"); } }
  int k = kind_of(n);
  if (D.check & C_TYPE) {
    sx_assert(k >= 0, "a node has an unknown type");
    if (k >= 0) { for (int a = 0; a < K_COUNT; a++) sx_assert(cypher_astnode_instanceof(n, ktype(a)) == (bool)kanc(k, a), "instanceof disagrees with the documented hierarchy");
      sx_assert(cypher_astnode_typestr(ktype(k)) != NULL, "a type has no name"); } }
  if ((D.check & (C_TYPE | C_PAST)) && k >= 0) { D.b = NULL; D.cur = n; kvisit(n, k); }
  ++*ord; unsigned c = cypher_astnode_nchildren(n);
  if (D.check & C_PAST) sx_assert(cypher_astnode_get_child(n, c) == NULL && cypher_astnode_get_child(n, ~0u) == NULL, "a child past the end is not null");
  size_t last = r.start.offset;
  for (unsigned i = 0; i < c; i++) { N *ch = cypher_astnode_get_child(n, i); sx_assert(ch != NULL, "a child below the count is null"); if (!ch) continue;
    if (D.check & C_RANGE) { struct cypher_input_range q = cypher_astnode_range(ch); /* the alias a projection gets from its own text spans the projection and comes last */ if (k == K_PROJECTION && i == c - 1 && kind_of(ch) == K_IDENTIFIER && q.start.offset == r.start.offset) { ck_rec(ch, n, ord); continue; } sx_assert(q.start.offset >= last, "siblings are not in source order"); last = q.start.offset; }
    ck_rec(ch, n, ord); } }
/* checks one tree; returns its node count */
static unsigned check_tree(N *n, int what, const char *s, size_t len, struct cypher_input_position p0) {
  D.b = NULL; D.check = what; D.txt = s; D.txtn = len; D.pos0 = p0; unsigned c = 0; ck_rec(n, NULL, &c); D.check = 0; return c; }
static void dump_errors_r(struct sb *b, const cypher_parse_result_t *r, size_t base) {
  for (unsigned i = 0; i < cypher_parse_result_nerrors(r); i++) { const cypher_parse_error_t *e = cypher_parse_result_get_error(r, i); D.base = base; sb_s(b, "!"); ser_pos(b, cypher_parse_error_position(e)); sb_s(b, " "); sb_s(b, cypher_parse_error_message(e)); sb_s(b, "|"); const char *c = cypher_parse_error_context(e); sb_s(b, c ? c : "-"); sb_s(b, "|"); sb_u(b, cypher_parse_error_context_offset(e)); sb_s(b, "\n"); } }
static void dump_result(struct sb *b, const cypher_parse_result_t *r, int flags) {
  sb_s(b, "eof="); sb_u(b, cypher_parse_result_eof(r)); sb_s(b, " nnodes="); sb_u(b, cypher_parse_result_nnodes(r)); sb_s(b, " ndirectives="); sb_u(b, cypher_parse_result_ndirectives(r)); sb_s(b, "\n");
  for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { N *n = cypher_parse_result_get_root(r, i); int d = 0; for (unsigned j = 0; j < cypher_parse_result_ndirectives(r); j++) if (cypher_parse_result_get_directive(r, j) == n) d = 1; sb_s(b, d ? "*" : "-"); dump(b, n, flags, 0); sb_s(b, "\n"); }
  dump_errors_r(b, r, 0); }
static const struct cypher_input_position POS0 = { 1, 1, 0 };
