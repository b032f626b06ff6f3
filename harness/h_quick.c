/* P20: the quick parser against a scanner; P21: against the full parser. */
#include "dump.h"
static const char *S; static size_t L; static int only;
struct q { int stmt, eof; size_t b, e, next; };
static struct q Q[64]; static unsigned nq;
static int at(size_t i, const char *w) { size_t l = strlen(w); if (i + l > L) return 0; for (size_t j = 0; j < l; j++) if (S[i + j] != w[j]) return 0; return 1; }
static size_t eol(size_t i) { return at(i, "\n") ? 1 : at(i, "\r\n") ? 2 : 0; }
static size_t lcom(size_t i) { while (i < L && !eol(i)) i++; return i + eol(i); }
static size_t bcom(size_t i) { /* past the comment, or 0 if it is not closed */ for (i += 2; i < L; i++) if (at(i, "*/")) return i + 2; return 0; }
static size_t hws(size_t i) { for (;;) { size_t k; if (i < L && (S[i] == ' ' || S[i] == '\t')) i++; else if (at(i, "/*") && (k = bcom(i))) i = k; else return i; } }
static size_t ws(size_t i) { for (;;) { size_t k = hws(i); if (eol(k)) k += eol(k); else if (at(k, "//")) k = lcom(k); if (k == i) return i; i = k; } }
static size_t esc(size_t i) { return i + 1 < L && S[i] == '\\' && S[i + 1] && strchr("abfnrtv\"'?\\", S[i + 1]) ? 2 : 0; }
static size_t quote(size_t i) { char q = S[i++]; while (i < L && S[i] != q) i += q != '`' && esc(i) ? 2 : 1; return i < L ? i + 1 : L; }
/* where a segment that starts at *p ends; 0 if nothing is left */
static int next_ref(size_t *p, struct q *o) { if (*p >= L) return 0; size_t i = ws(*p), k; o->stmt = only || i >= L || S[i] != ':'; o->b = o->e = i; o->eof = 0;
  if (o->stmt) { while (i < L && S[i] != ';') { size_t z = ws(i); if (z > i) { i = z; continue; } if (S[i] == '\'' || S[i] == '"' || S[i] == '`') i = quote(i); else if (at(i, "/*")) i = L; else i += esc(i) ? 2 : 1; o->e = i; }
    o->eof = i >= L; o->next = i < L ? i + 1 : L; }
  else for (i++;;) { size_t z = hws(i); o->e = i; if (z >= L) { o->eof = 1; o->next = L; break; } if (S[z] == ';') { o->next = z + 1; break; } if (eol(z)) { o->next = z + eol(z); break; } if (at(z, "//")) { o->next = lcom(z); o->eof = o->next == L && !(L && S[L - 1] == '\n'); break; }
    if (S[i] == '\\') { if (esc(i) || at(i, "\\;")) { i += 2; continue; } k = hws(i + 1); if (k >= L) { i = L; continue; } if (eol(k)) { i = k + eol(k); continue; } if (at(k, "//")) { i = lcom(k); continue; } i++; }
    else if (S[i] == '\'' || S[i] == '"') i = quote(i); else if (at(i, "/*")) { k = bcom(i); i = k ? k : L; } else i++; }
  *p = o->next; return 1; }
static size_t rp; static int done;
static int scan_cb(void *u, const cypher_quick_parse_segment_t *s) { struct q w; if (!next_ref(&rp, &w)) { sx_assert(0, "a segment too many"); return 0; } sx_assert(!done, "a segment follows the last one");
  size_t n; const char *t = cypher_quick_parse_segment_get_text(s, &n); struct cypher_input_range r = cypher_quick_parse_segment_get_range(s); struct cypher_input_position x = cypher_quick_parse_segment_get_next(s);
  sx_assert(cypher_quick_parse_segment_is_statement(s) == w.stmt && cypher_quick_parse_segment_is_command(s) == !w.stmt, "a segment is of the wrong kind");
  sx_assert(n == w.e - w.b, "a segment's text has the wrong length"); if (n == w.e - w.b) for (size_t i = 0; i < n; i++) sx_assert(t[i] == S[w.b + i], "a segment's text differs from the input");
  sx_assert(r.start.offset == w.b && r.end.offset == w.e, "a segment's range is wrong"); sx_assert(x.offset == w.next, "the next position is wrong"); sx_assert(cypher_quick_parse_segment_is_eof(s) == w.eof, "the end of input is not told as it is");
  struct cypher_input_position a = pos_of(S, L, w.b, POS0), b = pos_of(S, L, w.e, POS0), c = pos_of(S, L, w.next, POS0); sx_assert(a.line == r.start.line && a.column == r.start.column, "line/column of a segment's start disagree with its offset"); sx_assert(b.line == r.end.line && b.column == r.end.column, "line/column of a segment's end disagree with its offset"); sx_assert(c.line == x.line && c.column == x.column, "line/column of the next position disagree with its offset");
  if (sx_param(2) || w.eof) done = 1; sx_trace(w.b); sx_trace(w.e); sx_reach(w.stmt ? "statement" : "command"); return 0; }
/* params: flags; 1 from a stream; single */
void qscan(void) { S = sx_text(0, &L); only = sx_param(0) & 2 /* CYPHER_PARSE_ONLY_STATEMENTS */ ? 1 : 0; int fl = (only ? CYPHER_PARSE_ONLY_STATEMENTS : 0) | (sx_param(2) ? CYPHER_PARSE_SINGLE : 0); rp = 0; done = 0; int rc;
  if (sx_param(1)) { FILE *f = sx_infile(S, L, -1); rc = cypher_quick_fparse(f, scan_cb, NULL, fl); sx_close(f); } else rc = cypher_quick_uparse(S, L, scan_cb, NULL, fl);
  sx_assert(rc == 0, "quick parsing fails"); struct q w; if (!sx_param(2)) sx_assert(done || !next_ref(&rp, &w), "a segment is missing"); sx_reach("end"); sx_free((void *)S); }
static struct q F[64]; static unsigned nf; static int ferr;
static int full_cb(void *u, cypher_parse_segment_t *s) { if (cypher_parse_segment_nerrors(s)) ferr = 1; N *d = cypher_parse_segment_get_directive(s); if (d && nf < 64) { struct q *x = &F[nf++]; x->stmt = kind_of(d) == K_STATEMENT; x->b = cypher_astnode_range(d).start.offset; x->e = cypher_astnode_range(d).end.offset; x->next = cypher_parse_segment_get_range(s).end.offset; } return 0; }
static int quick_cb(void *u, const cypher_quick_parse_segment_t *s) { size_t n; cypher_quick_parse_segment_get_text(s, &n); if (n && nq < 64) { struct q *x = &Q[nq++]; x->stmt = cypher_quick_parse_segment_is_statement(s); x->b = cypher_quick_parse_segment_get_range(s).start.offset; x->e = cypher_quick_parse_segment_get_range(s).end.offset; x->next = cypher_quick_parse_segment_get_next(s).offset; } return 0; }
/* params: flags; 1 from a stream */
void qagree(void) { S = sx_text(0, &L); uint_fast32_t fl = sx_param(0) & 2 ? CYPHER_PARSE_ONLY_STATEMENTS : 0; nf = nq = 0; ferr = 0; SX_ASSERT(cypher_uparse_each(S, L, full_cb, NULL, NULL, NULL, fl) == 0); if (ferr) { sx_reach("erroneous"); sx_free((void *)S); return; }
  if (sx_param(1)) { FILE *f = sx_infile(S, L, -1); SX_ASSERT(cypher_quick_fparse(f, quick_cb, NULL, fl) == 0); sx_close(f); } else SX_ASSERT(cypher_quick_uparse(S, L, quick_cb, NULL, fl) == 0);
  sx_assert(nq == nf, "the quick parser delivers another number of statements and commands"); for (unsigned i = 0; i < nq && i < nf; i++) { sx_assert(Q[i].stmt == F[i].stmt, "the quick parser tells another kind"); sx_assert(Q[i].b == F[i].b, "the quick parser's segment starts elsewhere"); sx_assert(Q[i].next == F[i].next, "the quick parser's segment ends elsewhere"); sx_assert(Q[i].e <= F[i].e || !F[i].stmt, "the quick parser's text goes beyond the statement"); sx_trace(Q[i].b); }
  sx_trace(nq); sx_reach("agree"); sx_free((void *)S); }
