/* P28: cypher-lint, against the library. */
#include "sx.h"
#include <cypher-parser.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <getopt.h>
int cypher_lint_main(int argc, char *argv[]);
struct cfg { int flags, ast, stream, co, ce; unsigned width; };
static void errs(FILE *e, const char *file, const cypher_parse_error_t *x) {
  struct cypher_input_position p = cypher_parse_error_position(x); fprintf(e, "%s:%u:%u: %s\n%s\n", file ? file : "<stdin>", p.line, p.column, cypher_parse_error_message(x), cypher_parse_error_context(x));
  for (size_t i = cypher_parse_error_context_offset(x); i; i--) fputc(' ', e); fputs("^\n", e); }
static FILE *xo, *xe; static struct cfg *K; static const char *Fn; static int nerr;
static const struct cypher_parser_colorization *oc(void) { return K->co ? cypher_parser_ansi_colorization : NULL; }
static int cb(void *u, cypher_parse_segment_t *s) { for (unsigned i = 0; i < cypher_parse_segment_nerrors(s); i++, nerr++) errs(xe, Fn, cypher_parse_segment_get_error(s, i)); if (K->ast) return cypher_parse_segment_fprint_ast(s, xo, K->width, oc(), 0) < 0 ? -1 : 0; return 0; }
/* what the linter is to write about one input; -1: the input cannot be read to its end */
static int model(const char *t, size_t n, long rf, const char *file) {
  FILE *in = sx_infile(t, n, rf); cypher_parser_config_t *c = cypher_parser_new_config(); int r = 0; nerr = 0; Fn = file; if (K->ce) cypher_parser_config_set_error_colorization(c, cypher_parser_ansi_colorization);
  errno = 0;
  if (K->stream || !K->ast) { if (cypher_fparse_each(in, cb, NULL, NULL, c, K->flags)) { fprintf(xe, "cypher_fparse_each: %s\n", strerror(errno)); r = -1; } }
  else { cypher_parse_result_t *p = cypher_fparse(in, NULL, c, K->flags); if (!p) { fprintf(xe, "cypher_fparse: %s\n", strerror(errno)); r = -1; } else {
      for (unsigned i = 0; i < cypher_parse_result_nerrors(p); i++, nerr++) errs(xe, file, cypher_parse_result_get_error(p, i));
      if (file) fprintf(xo, "%s:\n", file); cypher_parse_result_fprint_ast(p, xo, K->width, oc(), 0); cypher_parse_result_free(p); } }
  cypher_parser_config_free(c); sx_close(in); return r < 0 ? r : nerr != 0; }
/* parameters: options (1 -1, 2 -a, 4 only-statements, 8 stream, 16 colorize, 32 no-colorize after, 64 no-colorize before, 128 joined short options, 256 options after the files, 512 --ast for -a), files (0 none, 1 "-", 2 f, 3 f g, 4 f -, 5 f missing g, 6 "--" f, 7 - f), width (0: not given), terminals, read error at, input it is in */
void lint(void) {
  int o = sx_param(0), lay = sx_param(1), w = sx_param(2), tty = sx_param(3); long rf = sx_nparams() > 4 ? sx_param(4) : -1; int rfin = sx_param(5);
  size_t n[2]; char *t[2]; t[0] = sx_text(0, &n[0]); t[1] = sx_text(1, &n[1]); if (!t[1]) { t[1] = sx_alloc(1, 1); n[1] = 0; }
  char *av[20]; int ac = 0; static char name[] = "/usr/bin/cypher-lint", wb[40]; av[ac++] = name; char *opt[12]; int no = 0;
  if ((o & 130) == 130 && (o & 1)) opt[no++] = o & 512 ? "-1a" : "-a1"; else { if (o & 2) opt[no++] = o & 512 ? "--ast" : "-a"; if (o & 1) opt[no++] = "-1"; }
  if (o & 4) opt[no++] = "--only-statements"; if (o & 8) opt[no++] = "--stream"; if (o & 64) opt[no++] = "--no-colorize"; if (o & 16) opt[no++] = o & 128 ? "--colourise" : "--colorize"; if (o & 32) opt[no++] = o & 128 ? "--no-colorise" : "--no-colorize";
  if (w) { if (o & 512) { snprintf(wb, sizeof wb, "--output-width=%d", w); opt[no++] = wb; } else { snprintf(wb, sizeof wb, "%d", w); opt[no++] = "--output-width"; opt[no++] = wb; } }
  static const char *const L[][4] = { { 0 }, { "-" }, { "f" }, { "f", "g" }, { "f", "-" }, { "f", "missing", "g" }, { "--", "f" }, { "-", "f" } }; const char *const *l = L[lay];
  int late = (o & 256) && lay != 6; if (!late) for (int i = 0; i < no; i++) av[ac++] = opt[i]; for (int i = 0; l[i]; i++) av[ac++] = (char *)l[i]; if (late) for (int i = 0; i < no; i++) av[ac++] = opt[i]; av[ac] = NULL;
  struct cfg c; memset(&c, 0, sizeof c); K = &c; c.flags = (o & 1 ? CYPHER_PARSE_SINGLE : 0) | (o & 4 ? CYPHER_PARSE_ONLY_STATEMENTS : 0); c.ast = !!(o & 2); c.stream = !!(o & 8); c.width = w;
  c.co = tty >> 1 & 1; c.ce = tty >> 2 & 1; if (o & 64) c.co = c.ce = 0; if (o & 16) c.co = c.ce = 1; if (o & 32) c.co = c.ce = 0;
  /* which input each file is: "-" and none are text 0 (text 1 after f), f is 0 (1 after -), g is 1 */
  int si = lay == 4 ? 1 : 0, fi = lay == 7 ? 1 : 0;
  xo = sx_outfile(-1); xe = sx_outfile(-1); int want = 0, fatal = 0;
  if (!l[0]) { want = model(t[0], n[0], rfin == 0 ? rf : -1, NULL); }
  else for (int i = lay == 6; l[i] && !fatal; i++) { int k = !strcmp(l[i], "-") ? si : !strcmp(l[i], "f") ? fi : 1; int r; if (!strcmp(l[i], "missing")) { fprintf(xe, "cypher-lint: missing: No such file or directory\n"); r = -1; } else r = model(t[k], n[k], k == rfin ? rf : -1, !strcmp(l[i], "-") ? "<stdin>" : l[i]); want |= r; if (r < 0 && strcmp(l[i], "-")) fatal = 1; }
  FILE *in = sx_infile(t[si], n[si], si == rfin ? rf : -1), *out = sx_outfile(-1), *err = sx_outfile(-1), *f = sx_infile(t[fi], n[fi], fi == rfin ? rf : -1), *g = sx_infile(t[1], n[1], 1 == rfin ? rf : -1); FILE *so = stdout, *se = stderr, *sin = stdin;
  sx_file("f", f); sx_file("g", g); sx_stdio(in, out, err); sx_tty(tty); optind = 0; int base = sx_live();
  int rc = cypher_lint_main(ac, av); fflush(out); fflush(err); sx_stdio(sin, so, se); sx_tty(0);
  size_t a, b; char *p = sx_outdata(out, &a), *q = sx_outdata(xo, &b); sx_trace(rc); sx_trace(a);
  sx_assert((rc == 0) == (want == 0), want ? "the linter exits with success although there are errors" : "the linter exits with failure although there are no errors"); sx_reach(want == 0 ? "clean" : want < 0 ? "unreadable" : "errors");
  sx_assert(a == b && (!a || !memcmp(p, q, a)), "standard output is not exactly what was asked for");
  p = sx_outdata(err, &a); q = sx_outdata(xe, &b); sx_trace(a); if (want < 0) sx_assert(a > 0, "an input that cannot be read is not reported"); else sx_assert(a == b && (!a || !memcmp(p, q, a)), "standard error does not report exactly the errors");
  sx_assert(sx_live() == base, "memory is left over");
  sx_close(xo); sx_close(xe); sx_close(in); sx_close(out); sx_close(err); sx_close(f); sx_close(g); sx_free(t[0]); sx_free(t[1]); }
/* parameter: 0 -h, 1 --help, 2 --version, 3 an unknown long option, 4 an unknown short option, 5 --output-width without argument */
void lintinfo(void) { int k = sx_param(0); static const char *const A[] = { "-h", "--help", "--version", "--nonesuch", "-q", "--output-width" }; char *av[4] = { "cypher-lint", (char *)A[k], NULL, NULL };
  FILE *in = sx_infile("x", 1, -1), *out = sx_outfile(-1), *err = sx_outfile(-1), *so = stdout, *se = stderr, *si = stdin; sx_stdio(in, out, err); optind = 0; int rc = cypher_lint_main(2, av); sx_stdio(si, so, se);
  size_t a, b; char *p = sx_outdata(out, &a), *q = sx_outdata(err, &b); (void)p; sx_assert((rc == 0) == (k < 3), "the exit status of an informative option or of an unknown one"); sx_assert(k < 3 ? a > 0 && b == 0 : a == 0 && b > 0, "usage goes to standard output if asked for, and else to standard error"); (void)q;
  sx_reach("usage"); sx_close(in); sx_close(out); sx_close(err); }
