/* Is text t, or what is missing of it, acceptable at offset p of s? */
#include <cypher-parser.h>
#include <string.h>
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int wordc(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '$' || c >= 128 || c < 0; }
static size_t xblank(const char *s, size_t i, size_t n) { for (;;) { if (i < n && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) i++; else if (i + 1 < n && s[i] == '/' && s[i+1] == '*') { i += 2; while (i + 1 < n && !(s[i] == '*' && s[i+1] == '/')) i++; i = i + 2 > n ? n : i + 2; } else if (i + 1 < n && s[i] == '/' && s[i+1] == '/') { while (i < n && s[i] != '\n') i++; } else return i; } }
/* how many bytes of t s[q..p) already spells, or -1 */
static int begun(const char *s, size_t q, size_t p, const char *t) { size_t k = 0, tl = strlen(t); int first = 1;
  while (q < p) { size_t z = first ? q : xblank(s, q, p); first = 0; if (z > q) { q = z; if (q >= p) break; } while (k < tl && t[k] == ' ' && s[q] != ' ') k++; if (k < tl && lower(s[q]) == lower(t[k])) { q++; k++; } else return -1; }
  return k; }
/* the input up to q followed by t has no error before its end */
static int accepted(char *w, const char *s, size_t q, const char *t, int blank) { memcpy(w, s, q); size_t k = q; if (blank) w[k++] = ' '; size_t tl = strlen(t); memcpy(w + k, t, tl); k += tl;
  cypher_parse_result_t *r = cypher_uparse(w, k, NULL, NULL, 0); if (!r) return 0; const cypher_parse_error_t *e = cypher_parse_result_get_error(r, 0); int ok = !e || cypher_parse_error_position(e).offset >= k; cypher_parse_result_free(r); return ok; }
static const char *const XT[][5] = { {"an identifier", "x", "`x`"}, {"an integer", "1"}, {"a float", "1.5", "1e1", ".5", "1.5e-1"}, {"\"...string...\"", "'s'", "\"s\""}, {"a parameter", "$p", "{p}"}, {"a label", ":L", ":`L`"}, {"a relationship type", ":T", ":`T`"}, {"a relationship type name", "T", "`T`"}, {"a property name", "p", "`p`"}, {"a function name", "f", "`f`"}, {"an index name", "i", "`i`"}, {"a procedure name", "p", "`p`"}, {"a command name", "c"}, {"a version number", "2.3"}, {"a statement option", "EXPLAIN", "PROFILE"}, {"a schema command", "CREATE INDEX ON :L(p)", "DROP INDEX ON :L(p)", "CREATE CONSTRAINT ON (x:L) ASSERT x.p IS UNIQUE", "DROP CONSTRAINT ON (x:L) ASSERT x.p IS UNIQUE"}, {"a query hint", "USING PERIODIC COMMIT"}, {"a clause", "RETURN 1"} };
static int one_ok(char *w, const char *s, size_t n, size_t p, const char *t) { size_t lo = p > 60 ? p - 60 : 0; (void)n;
  for (size_t q = p + 1; q-- > lo; ) { if (q < p && begun(s, q, p, t) < 0) continue;
    int b = q && wordc(s[q - 1]) && (wordc(*t) || *t == '`'); if (accepted(w, s, q, t, b)) return 1;
    if (q == p) continue; /* already spelt: what is missing */ int k = begun(s, q, p, t); if (accepted(w, s, p, t + k, 0) || accepted(w, s, p, t + k, 1)) return 1; }
  return 0; }
static int digitsy(int c) { return (c >= '0' && c <= '9') || c == '.' || c == 'e' || c == 'E' || c == '-' || c == '+'; }
/* w holds at least n + 80 bytes */
static int acceptable(char *w, const char *s, size_t n, size_t p, const char *l, size_t ll) { char t[48]; 
  for (unsigned i = 0; i < sizeof XT / sizeof *XT; i++) if (strlen(XT[i][0]) == ll && !memcmp(XT[i][0], l, ll)) { for (int j = 1; j < 5 && XT[i][j]; j++) if (one_ok(w, s, n, p, XT[i][j])) return 1; if (p && (!memcmp(l, "a float", 7)) && digitsy(s[p-1])) return accepted(w, s, p, "1", 0); return 0; }
  if (ll > 2 && ll < 40 && l[0] == '\'' && l[ll-1] == '\'') { l++; ll -= 2; }
  if (ll >= 40) return 0; memcpy(t, l, ll); t[ll] = 0; return one_ok(w, s, n, p, t); }
/* words that are read as keywords although a name could stand there: what could follow the name is mentioned, too */
static int word_at(const char *s, size_t i, size_t n, const char *w) { size_t k = strlen(w); if (i + k > n || (i && wordc(s[i-1])) || (i + k < n && wordc(s[i+k]))) return 0; for (size_t j = 0; j < k; j++) if (lower(s[i+j]) != w[j]) return 0; return 1; }
static int ambiguous(const char *s, size_t p) { for (size_t i = 0; i < p; i++) if (word_at(s, i, p, "cypher") || (word_at(s, i, p, "distinct") && xblank(s, i + 8, p) == p) || (word_at(s, i, p, "not") && xblank(s, i + 3, p) == p)) return 1; return 0; }
/* after which nothing but the rest of a string, a quoted name or a comment can follow */
static int open_ended(const char *l, size_t n) { return (n == 1 && (*l == '\'' || *l == '"' || *l == '`')) || (n == 2 && l[0] == '*' && l[1] == '/') || (n == 14 && !memcmp(l, "a command name", 14)); }
/* what is missing where a word, a command or an operator of several signs is incomplete is not the place for others */
static int incomplete(const char *s, size_t p) { return p && (wordc(s[p-1]) || s[p-1] == '\\' || s[p-1] == ':' || s[p-1] == '<' || s[p-1] == '>' || s[p-1] == '=' || s[p-1] == '+' || s[p-1] == '.'); }
static const char *const XC[][2] = { {"')'", ")"}, {"']'", "]"}, {"'}'", "}"}, {"','", ","}, {"'|'", "|"}, {"';'", ";"}, {"'='", "="}, {"'+'", "+"}, {"'%'", "%"}, {"'('", "("}, {"'['", "["} };
