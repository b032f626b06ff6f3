/* P36: what an error says is expected. */
#include "dump.h"
#include "expect.h"
void expected(void) { size_t n; char *s = sx_text(0, &n); int fl = sx_param(0); (void)fl; cypher_parse_result_t *r = cypher_uparse(s, n, NULL, NULL, 0); SX_ASSERT(r != NULL); if (!r) return; const cypher_parse_error_t *e = cypher_parse_result_get_error(r, 0);
  if (e) { size_t p = cypher_parse_error_position(e).offset; const char *m = cypher_parse_error_message(e), *x = m ? strstr(m, "expected ") : NULL; sx_trace(p); sx_assert(x != NULL, "an error does not say what is expected");
    if (x && p <= n && !ambiguous(s, p)) { char *w = sx_alloc(n + 200, 1); const char *ls[100]; size_t ln[100]; int k = 0; x += 9;
      while (x && *x && k < 100) { const char *a = strstr(x, ", "), *b = strstr(x, " or "), *z = a && (!b || a < b) ? a : b; ls[k] = x; ln[k] = z ? (size_t)(z - x) : strlen(x); k++; x = z ? z + (z == a ? 2 : 4) : NULL; }
      sx_trace(k); int open = 0, plus = 0;
      for (int i = 0; i < k; i++) { for (int j = 0; j < i; j++) sx_assert(ln[i] != ln[j] || memcmp(ls[i], ls[j], ln[i]), "an alternative is mentioned twice"); open |= open_ended(ls[i], ln[i]); plus |= ln[i] == 3 && !memcmp(ls[i], "'+'", 3); sx_assert(acceptable(w, s, n, p, ls[i], ln[i]), "what is said to be expected is not accepted"); }
      if (!open && !incomplete(s, p) && !accepted(w, s, p, "\1", 0)) for (unsigned i = 0; i < sizeof XC / sizeof *XC; i++) { int f = 0; size_t l = strlen(XC[i][0]); for (int j = 0; j < k; j++) f |= ln[j] >= l && !memcmp(ls[j], XC[i][0], l - 1); if (XC[i][1][0] == ',' && !plus) continue; /* between patterns the comma is not mentioned */ if (!f) sx_assert(!accepted(w, s, p, XC[i][1], 0), "what would be accepted is not mentioned"); }
      sx_reach("expected"); sx_free(w); } else sx_reach("passed over"); }
  else sx_reach("none"); cypher_parse_result_free(r); sx_free(s); }
