/* P26: the tree, written out again token by token, is the source. */
#include "dump.h"
static const char *S; static size_t L, I, E; static int bad;
static void miss(const char *what) { if (!bad) sx_assert(0, what); bad = 1; }
static size_t skip(size_t i, int paren) { for (;;) { if (i < L && (S[i] == ' ' || S[i] == '\t' || S[i] == '\n' || (paren && (S[i] == '(' || S[i] == ')')))) i++; else if (i + 1 < L && S[i] == '\r' && S[i + 1] == '\n') i += 2; else if (i + 1 < L && S[i] == '/' && S[i + 1] == '*') { size_t k = i + 2; while (k + 1 < L && !(S[k] == '*' && S[k + 1] == '/')) k++; if (k + 1 >= L) return i; i = k + 2; } else if (i + 1 < L && S[i] == '/' && S[i + 1] == '/') { while (i < L && S[i] != '\n') i++; } else return i; } }
static size_t skipws(size_t i) { return skip(i, 1); }
static int wordc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '$'; }
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
/* a keyword, or symbols (which may be apart); 0 if it is not there */
static int have(const char *w) { size_t i = skipws(I); int word = wordc(*w) && *w != '$'; for (; *w; w++) { if (!word) i = skipws(i); if (i >= E || up(S[i]) != *w) return 0; i++; } if (word && i < L && wordc(S[i])) return 0; I = i; return 1; }
static void tok(const char *w) { /* several words apart by blanks */ char t[40]; while (*w && !bad) { int k = 0; while (*w && *w != ' ') t[k++] = *w++; t[k] = 0; while (*w == ' ') w++; if (!have(t)) miss("the source does not have the keyword or sign that the tree stands for"); } }
static void opt(const char *w) { if (!bad) have(w); }
static int alldigits(const char *v) { while (*v) { if (*v < '0' || *v > '9') return 0; v++; } return 1; }
static void name(const char *v) { const char *v0 = v; if (bad) return; if (!v) { miss("a name is null"); return; } for (;;) { size_t i = skipws(I); if (i < E && S[i] == '`') { i++; while (i < E && S[i] != '`') { if (*v != S[i]) { miss("a name differs from the source"); return; } v++; i++; } i++; } else while (*v && *v != '.') { if (i >= E || S[i] != *v) { miss("a name differs from the source"); return; } i++; v++; } I = i; if (!*v) { if (i < L && S[i - 1] != '`' && wordc(S[i]) && !(S[i - 1] >= '0' && S[i - 1] <= '9' && alldigits(v0))) miss("a name is only part of that in the source"); return; } i = skipws(i); if (i >= E || S[i] != '.' || *v != '.') { miss("a name differs from the source"); return; } I = i + 1; v++; } }
static void raw(const char *v, int word) { if (bad) return; if (!v) { miss("a value is null"); return; } size_t i = skip(I, *v != '(' && *v != ')'); for (; *v; v++, i++) if (i >= E || S[i] != *v) { miss("a value differs from the source"); return; } if (word && i < L && wordc(S[i])) { miss("a value is only part of that in the source"); return; } I = i; }
static void str(const char *v) { if (bad) return; size_t i = skipws(I); if (i >= E || (S[i] != '\'' && S[i] != '"')) { miss("a string is not one in the source"); return; } char q = S[i++]; static const char e[] = "a\ab\bf\fn\nr\rt\tv\v\\\\''\"\"??"; for (; i < E && S[i] != q; i++, v++) { char c = S[i]; if (c == '\\' && i + 1 < E) for (const char *p = e; *p; p += 2) if (S[i + 1] == *p) { c = p[1]; i++; break; } if (*v != c) { miss("a string differs from the source"); return; } } if (*v) { miss("a string differs from the source"); return; } I = i + 1; }
static void un(N *n);
#define SEQ(T, m, g, sep) for (unsigned i = 0; i < m(n) && !bad; i++) { if (i) tok(sep); un(g(n, i)); }
static void un_opt(const char *kw, N *x) { if (x) { if (kw) tok(kw); un(x); } }
static void in(N *id, N *e) { un(id); tok("IN"); un(e); }
static void lc(N *n, const char *kw) { if (kw) tok(kw); else tok("["); in(cypher_ast_list_comprehension_get_identifier(n), cypher_ast_list_comprehension_get_expression(n)); un_opt("WHERE", cypher_ast_list_comprehension_get_predicate(n)); un_opt("|", cypher_ast_list_comprehension_get_eval(n)); if (!kw) tok("]"); }
static void oper(const cypher_operator_t *o) { const char *s = opname(o); if (!strcmp(s, "u+")) s = "+"; if (!strcmp(s, "u-")) s = "-"; if (!strcmp(s, "STARTSWITH")) s = "STARTS WITH"; if (!strcmp(s, "ENDSWITH")) s = "ENDS WITH"; if (!strcmp(s, "ISNULL")) s = "IS NULL"; if (!strcmp(s, "ISNOTNULL")) s = "IS NOT NULL"; tok(s); }
static void labels(N *n, unsigned (*c)(N *), N *(*g)(N *, unsigned)) { for (unsigned i = 0; i < c(n) && !bad; i++) un(g(n, i)); }
static void range(N *n) { N *a = cypher_ast_range_get_start(n), *b = cypher_ast_range_get_end(n); tok("*"); if (a) un(a); if (b && a && cypher_astnode_range(a).start.offset == cypher_astnode_range(b).start.offset) return; if (!bad && have("..")) { un_opt(NULL, b); return; } if (a || b) miss("a range differs from the source"); }
static void rel(N *n) { enum cypher_rel_direction d = cypher_ast_rel_pattern_get_direction(n); if (d == CYPHER_REL_INBOUND) tok("<"); int both = d == CYPHER_REL_BIDIRECTIONAL && have("<"); tok("-"); int sq = have("["); un_opt(NULL, cypher_ast_rel_pattern_get_identifier(n));
  for (unsigned i = 0; i < cypher_ast_rel_pattern_nreltypes(n) && !bad; i++) { if (i) tok("|"); opt(":"); un(cypher_ast_rel_pattern_get_reltype(n, i)); } un_opt(NULL, cypher_ast_rel_pattern_get_varlength(n)); un_opt(NULL, cypher_ast_rel_pattern_get_properties(n)); if (sq) tok("]"); tok("-"); if (d == CYPHER_REL_OUTBOUND || both) tok(">"); }
static void point(N *n, int r, const char *what, N *id, N *idx, N *prop, N *val) { un(id); tok("="); if (r) { if (!have("RELATIONSHIP")) tok("REL"); } else tok("NODE"); if (idx) { tok(":"); un(idx); } if (prop) { un(prop); tok("="); } un_opt(NULL, val); if (what) tok(what); }
static void proj(N *n, int clause) { N *e = cypher_ast_projection_get_expression(n), *a = cypher_ast_projection_get_alias(n); un(e); if (!a) return; if (cypher_astnode_range(a).start.offset <= cypher_astnode_range(e).start.offset) { if (cypher_astnode_instanceof(e, CYPHER_AST_IDENTIFIER)) miss("an identifier is given an alias of its own"); return; } tok("AS"); un(a); }
static void un(N *n) {
  if (bad) return; if (!n) { miss("a mandatory part is missing"); return; } int k = kind_of(n);
  switch (k) {
  case K_STATEMENT: for (unsigned i = 0; i < cypher_ast_statement_noptions(n); i++) un(cypher_ast_statement_get_option(n, i)); un(cypher_ast_statement_get_body(n)); break;
  case K_CYPHER_OPTION: tok("CYPHER"); un_opt(NULL, cypher_ast_cypher_option_get_version(n)); for (unsigned i = 0; i < cypher_ast_cypher_option_nparams(n); i++) un(cypher_ast_cypher_option_get_param(n, i)); break;
  case K_CYPHER_OPTION_PARAM: un(cypher_ast_cypher_option_param_get_name(n)); tok("="); un(cypher_ast_cypher_option_param_get_value(n)); break;
  case K_EXPLAIN_OPTION: tok("EXPLAIN"); break; case K_PROFILE_OPTION: tok("PROFILE"); break;
  case K_CREATE_NODE_PROPS_INDEX: tok("CREATE INDEX ON"); un(cypher_ast_create_node_props_index_get_label(n)); SEQ(n, cypher_ast_create_node_props_index_nprops, cypher_ast_create_node_props_index_get_prop_name, ",") break;
  case K_DROP_NODE_PROPS_INDEX: tok("DROP INDEX ON"); un(cypher_ast_drop_node_props_index_get_label(n)); SEQ(n, cypher_ast_drop_node_props_index_nprops, cypher_ast_drop_node_props_index_get_prop_name, ",") break;
  case K_CREATE_NODE_PROP_CONSTRAINT: tok("CREATE CONSTRAINT ON"); un(cypher_ast_create_node_prop_constraint_get_identifier(n)); un(cypher_ast_create_node_prop_constraint_get_label(n)); tok("ASSERT"); un(cypher_ast_create_node_prop_constraint_get_expression(n)); if (cypher_ast_create_node_prop_constraint_is_unique(n)) tok("IS UNIQUE"); break;
  case K_DROP_NODE_PROP_CONSTRAINT: tok("DROP CONSTRAINT ON"); un(cypher_ast_drop_node_prop_constraint_get_identifier(n)); un(cypher_ast_drop_node_prop_constraint_get_label(n)); tok("ASSERT"); un(cypher_ast_drop_node_prop_constraint_get_expression(n)); if (cypher_ast_drop_node_prop_constraint_is_unique(n)) tok("IS UNIQUE"); break;
  case K_CREATE_REL_PROP_CONSTRAINT: tok("CREATE CONSTRAINT ON"); opt("<"); tok("- ["); un(cypher_ast_create_rel_prop_constraint_get_identifier(n)); tok(":"); un(cypher_ast_create_rel_prop_constraint_get_reltype(n)); tok("] -"); opt(">"); tok("ASSERT"); un(cypher_ast_create_rel_prop_constraint_get_expression(n)); if (cypher_ast_create_rel_prop_constraint_is_unique(n)) tok("IS UNIQUE"); break;
  case K_DROP_REL_PROP_CONSTRAINT: tok("DROP CONSTRAINT ON"); opt("<"); tok("- ["); un(cypher_ast_drop_rel_prop_constraint_get_identifier(n)); tok(":"); un(cypher_ast_drop_rel_prop_constraint_get_reltype(n)); tok("] -"); opt(">"); tok("ASSERT"); un(cypher_ast_drop_rel_prop_constraint_get_expression(n)); if (cypher_ast_drop_rel_prop_constraint_is_unique(n)) tok("IS UNIQUE"); break;
  case K_QUERY: for (unsigned i = 0; i < cypher_ast_query_noptions(n); i++) un(cypher_ast_query_get_option(n, i)); for (unsigned i = 0; i < cypher_ast_query_nclauses(n); i++) un(cypher_ast_query_get_clause(n, i)); break;
  case K_USING_PERIODIC_COMMIT: tok("USING PERIODIC COMMIT"); un_opt(NULL, cypher_ast_using_periodic_commit_get_limit(n)); break;
  case K_LOAD_CSV: tok("LOAD CSV"); if (cypher_ast_load_csv_has_with_headers(n)) tok("WITH HEADERS"); tok("FROM"); un(cypher_ast_load_csv_get_url(n)); tok("AS"); un(cypher_ast_load_csv_get_identifier(n)); un_opt("FIELDTERMINATOR", cypher_ast_load_csv_get_field_terminator(n)); break;
  case K_START: tok("START"); SEQ(n, cypher_ast_start_npoints, cypher_ast_start_get_point, ",") un_opt("WHERE", cypher_ast_start_get_predicate(n)); break;
  case K_NODE_INDEX_LOOKUP: point(n, 0, NULL, cypher_ast_node_index_lookup_get_identifier(n), cypher_ast_node_index_lookup_get_index_name(n), cypher_ast_node_index_lookup_get_prop_name(n), cypher_ast_node_index_lookup_get_lookup(n)); break;
  case K_NODE_INDEX_QUERY: point(n, 0, NULL, cypher_ast_node_index_query_get_identifier(n), cypher_ast_node_index_query_get_index_name(n), NULL, cypher_ast_node_index_query_get_query(n)); break;
  case K_NODE_ID_LOOKUP: point(n, 0, NULL, cypher_ast_node_id_lookup_get_identifier(n), NULL, NULL, NULL); SEQ(n, cypher_ast_node_id_lookup_nids, cypher_ast_node_id_lookup_get_id, ",") break;
  case K_ALL_NODES_SCAN: point(n, 0, "*", cypher_ast_all_nodes_scan_get_identifier(n), NULL, NULL, NULL); break;
  case K_REL_INDEX_LOOKUP: point(n, 1, NULL, cypher_ast_rel_index_lookup_get_identifier(n), cypher_ast_rel_index_lookup_get_index_name(n), cypher_ast_rel_index_lookup_get_prop_name(n), cypher_ast_rel_index_lookup_get_lookup(n)); break;
  case K_REL_INDEX_QUERY: point(n, 1, NULL, cypher_ast_rel_index_query_get_identifier(n), cypher_ast_rel_index_query_get_index_name(n), NULL, cypher_ast_rel_index_query_get_query(n)); break;
  case K_REL_ID_LOOKUP: point(n, 1, NULL, cypher_ast_rel_id_lookup_get_identifier(n), NULL, NULL, NULL); SEQ(n, cypher_ast_rel_id_lookup_nids, cypher_ast_rel_id_lookup_get_id, ",") break;
  case K_ALL_RELS_SCAN: point(n, 1, "*", cypher_ast_all_rels_scan_get_identifier(n), NULL, NULL, NULL); break;
  case K_MATCH: if (cypher_ast_match_is_optional(n)) tok("OPTIONAL"); tok("MATCH"); un(cypher_ast_match_get_pattern(n)); for (unsigned i = 0; i < cypher_ast_match_nhints(n); i++) un(cypher_ast_match_get_hint(n, i)); un_opt("WHERE", cypher_ast_match_get_predicate(n)); break;
  case K_USING_INDEX: tok("USING INDEX"); un(cypher_ast_using_index_get_identifier(n)); un(cypher_ast_using_index_get_label(n)); un(cypher_ast_using_index_get_prop_name(n)); break;
  case K_USING_JOIN: tok("USING JOIN ON"); SEQ(n, cypher_ast_using_join_nidentifiers, cypher_ast_using_join_get_identifier, ",") break;
  case K_USING_SCAN: tok("USING SCAN"); un(cypher_ast_using_scan_get_identifier(n)); un(cypher_ast_using_scan_get_label(n)); break;
  case K_MERGE: tok("MERGE"); un(cypher_ast_merge_get_pattern_path(n)); for (unsigned i = 0; i < cypher_ast_merge_nactions(n); i++) un(cypher_ast_merge_get_action(n, i)); break;
  case K_ON_MATCH: tok("ON MATCH SET"); SEQ(n, cypher_ast_on_match_nitems, cypher_ast_on_match_get_item, ",") break;
  case K_ON_CREATE: tok("ON CREATE SET"); SEQ(n, cypher_ast_on_create_nitems, cypher_ast_on_create_get_item, ",") break;
  case K_CREATE: tok("CREATE"); if (cypher_ast_create_is_unique(n)) tok("UNIQUE"); un(cypher_ast_create_get_pattern(n)); break;
  case K_SET: tok("SET"); SEQ(n, cypher_ast_set_nitems, cypher_ast_set_get_item, ",") break;
  case K_SET_PROPERTY: un(cypher_ast_set_property_get_property(n)); tok("="); un(cypher_ast_set_property_get_expression(n)); break;
  case K_SET_ALL_PROPERTIES: un(cypher_ast_set_all_properties_get_identifier(n)); tok("="); un(cypher_ast_set_all_properties_get_expression(n)); break;
  case K_MERGE_PROPERTIES: un(cypher_ast_merge_properties_get_identifier(n)); tok("+="); un(cypher_ast_merge_properties_get_expression(n)); break;
  case K_SET_LABELS: un(cypher_ast_set_labels_get_identifier(n)); labels(n, cypher_ast_set_labels_nlabels, cypher_ast_set_labels_get_label); break;
  case K_DELETE: if (cypher_ast_delete_has_detach(n)) tok("DETACH"); tok("DELETE"); SEQ(n, cypher_ast_delete_nexpressions, cypher_ast_delete_get_expression, ",") break;
  case K_REMOVE: tok("REMOVE"); SEQ(n, cypher_ast_remove_nitems, cypher_ast_remove_get_item, ",") break;
  case K_REMOVE_LABELS: un(cypher_ast_remove_labels_get_identifier(n)); labels(n, cypher_ast_remove_labels_nlabels, cypher_ast_remove_labels_get_label); break;
  case K_REMOVE_PROPERTY: un(cypher_ast_remove_property_get_property(n)); break;
  case K_FOREACH: tok("FOREACH"); in(cypher_ast_foreach_get_identifier(n), cypher_ast_foreach_get_expression(n)); tok("|"); for (unsigned i = 0; i < cypher_ast_foreach_nclauses(n); i++) un(cypher_ast_foreach_get_clause(n, i)); break;
  case K_WITH: tok("WITH"); if (cypher_ast_with_is_distinct(n)) tok("DISTINCT"); if (cypher_ast_with_has_include_existing(n)) tok("*"); for (unsigned i = 0; i < cypher_ast_with_nprojections(n); i++) { if (i || cypher_ast_with_has_include_existing(n)) tok(","); un(cypher_ast_with_get_projection(n, i)); } un_opt("ORDER BY", cypher_ast_with_get_order_by(n)); un_opt("SKIP", cypher_ast_with_get_skip(n)); un_opt("LIMIT", cypher_ast_with_get_limit(n)); un_opt("WHERE", cypher_ast_with_get_predicate(n)); break;
  case K_UNWIND: tok("UNWIND"); un(cypher_ast_unwind_get_expression(n)); tok("AS"); un(cypher_ast_unwind_get_alias(n)); break;
  case K_CALL: tok("CALL"); un(cypher_ast_call_get_proc_name(n)); SEQ(n, cypher_ast_call_narguments, cypher_ast_call_get_argument, ",") if (cypher_ast_call_nprojections(n)) { tok("YIELD"); SEQ(n, cypher_ast_call_nprojections, cypher_ast_call_get_projection, ",") } else if (!bad && have("YIELD")) tok("-"); un_opt("WHERE", cypher_ast_call_get_predicate(n)); break;
  case K_RETURN: tok("RETURN"); if (cypher_ast_return_is_distinct(n)) tok("DISTINCT"); if (cypher_ast_return_has_include_existing(n)) tok("*"); for (unsigned i = 0; i < cypher_ast_return_nprojections(n); i++) { if (i || cypher_ast_return_has_include_existing(n)) tok(","); un(cypher_ast_return_get_projection(n, i)); } un_opt("ORDER BY", cypher_ast_return_get_order_by(n)); un_opt("SKIP", cypher_ast_return_get_skip(n)); un_opt("LIMIT", cypher_ast_return_get_limit(n)); break;
  case K_PROJECTION: proj(n, 0); break;
  case K_ORDER_BY: SEQ(n, cypher_ast_order_by_nitems, cypher_ast_order_by_get_item, ",") break;
  case K_SORT_ITEM: un(cypher_ast_sort_item_get_expression(n)); if (bad) break; if (cypher_ast_sort_item_is_ascending(n)) { if (!have("ASCENDING")) opt("ASC"); } else if (!have("DESCENDING")) tok("DESC"); break;
  case K_UNION: tok("UNION"); if (cypher_ast_union_has_all(n)) tok("ALL"); break;
  case K_UNARY_OPERATOR: { const cypher_operator_t *o = cypher_ast_unary_operator_get_operator(n); int post = o == CYPHER_OP_IS_NULL || o == CYPHER_OP_IS_NOT_NULL; if (!post) oper(o); un(cypher_ast_unary_operator_get_argument(n)); if (post) oper(o); break; }
  case K_BINARY_OPERATOR: un(cypher_ast_binary_operator_get_argument1(n)); oper(cypher_ast_binary_operator_get_operator(n)); un(cypher_ast_binary_operator_get_argument2(n)); break;
  case K_COMPARISON: { unsigned m = cypher_ast_comparison_get_length(n); for (unsigned i = 0; i <= m && !bad; i++) { if (i) oper(cypher_ast_comparison_get_operator(n, i - 1)); un(cypher_ast_comparison_get_argument(n, i)); } break; }
  case K_APPLY_OPERATOR: un(cypher_ast_apply_operator_get_func_name(n)); if (cypher_ast_apply_operator_get_distinct(n)) tok("DISTINCT"); SEQ(n, cypher_ast_apply_operator_narguments, cypher_ast_apply_operator_get_argument, ",") break;
  case K_APPLY_ALL_OPERATOR: un(cypher_ast_apply_all_operator_get_func_name(n)); if (cypher_ast_apply_all_operator_get_distinct(n)) tok("DISTINCT"); tok("*"); break;
  case K_PROPERTY_OPERATOR: un(cypher_ast_property_operator_get_expression(n)); tok("."); un(cypher_ast_property_operator_get_prop_name(n)); break;
  case K_SUBSCRIPT_OPERATOR: un(cypher_ast_subscript_operator_get_expression(n)); tok("["); un(cypher_ast_subscript_operator_get_subscript(n)); tok("]"); break;
  case K_SLICE_OPERATOR: un(cypher_ast_slice_operator_get_expression(n)); tok("["); un_opt(NULL, cypher_ast_slice_operator_get_start(n)); tok(".."); un_opt(NULL, cypher_ast_slice_operator_get_end(n)); tok("]"); break;
  case K_MAP_PROJECTION: un(cypher_ast_map_projection_get_expression(n)); tok("{"); SEQ(n, cypher_ast_map_projection_nselectors, cypher_ast_map_projection_get_selector, ",") tok("}"); break;
  case K_MAP_PROJECTION_LITERAL: un(cypher_ast_map_projection_literal_get_prop_name(n)); tok(":"); un(cypher_ast_map_projection_literal_get_expression(n)); break;
  case K_MAP_PROJECTION_PROPERTY: tok("."); un(cypher_ast_map_projection_property_get_prop_name(n)); break;
  case K_MAP_PROJECTION_IDENTIFIER: un(cypher_ast_map_projection_identifier_get_identifier(n)); break; case K_MAP_PROJECTION_ALL_PROPERTIES: tok(".*"); break;
  case K_LABELS_OPERATOR: un(cypher_ast_labels_operator_get_expression(n)); labels(n, cypher_ast_labels_operator_nlabels, cypher_ast_labels_operator_get_label); break;
  case K_LIST_COMPREHENSION: lc(n, NULL); break; case K_FILTER: lc(n, "FILTER"); break; case K_EXTRACT: lc(n, "EXTRACT"); break; case K_ALL: lc(n, "ALL"); break; case K_ANY: lc(n, "ANY"); break; case K_SINGLE: lc(n, "SINGLE"); break; case K_NONE: lc(n, "NONE"); break;
  case K_PATTERN_COMPREHENSION: tok("["); if (cypher_ast_pattern_comprehension_get_identifier(n)) { un(cypher_ast_pattern_comprehension_get_identifier(n)); tok("="); } un(cypher_ast_pattern_comprehension_get_pattern(n)); un_opt("WHERE", cypher_ast_pattern_comprehension_get_predicate(n)); tok("|"); un(cypher_ast_pattern_comprehension_get_eval(n)); tok("]"); break;
  case K_CASE: tok("CASE"); un_opt(NULL, cypher_ast_case_get_expression(n)); for (unsigned i = 0; i < cypher_ast_case_nalternatives(n); i++) { tok("WHEN"); un(cypher_ast_case_get_predicate(n, i)); tok("THEN"); un(cypher_ast_case_get_value(n, i)); } un_opt("ELSE", cypher_ast_case_get_default(n)); tok("END"); break;
  case K_REDUCE: tok("REDUCE"); un(cypher_ast_reduce_get_accumulator(n)); tok("="); un(cypher_ast_reduce_get_init(n)); tok(","); in(cypher_ast_reduce_get_identifier(n), cypher_ast_reduce_get_expression(n)); un_opt("|", cypher_ast_reduce_get_eval(n)); break;
  case K_COLLECTION: tok("["); SEQ(n, cypher_ast_collection_length, cypher_ast_collection_get, ",") tok("]"); break;
  case K_MAP: tok("{"); for (unsigned i = 0; i < cypher_ast_map_nentries(n); i++) { if (i) tok(","); un(cypher_ast_map_get_key(n, i)); tok(":"); un(cypher_ast_map_get_value(n, i)); } tok("}"); break;
  case K_IDENTIFIER: name(cypher_ast_identifier_get_name(n)); break;
  case K_PARAMETER: if (have("{")) { name(cypher_ast_parameter_get_name(n)); tok("}"); } else { tok("$"); name(cypher_ast_parameter_get_name(n)); } break;
  case K_STRING: { size_t i = skipws(I); if (i < E && (S[i] == '\'' || S[i] == '"') && i == cypher_astnode_range(n).start.offset && strlen(cypher_ast_string_get_value(n)) != cypher_astnode_range(n).end.offset - i) str(cypher_ast_string_get_value(n)); else raw(cypher_ast_string_get_value(n), 0); break; }
  case K_INTEGER: raw(cypher_ast_integer_get_valuestr(n), 1); break; case K_FLOAT: raw(cypher_ast_float_get_valuestr(n), 1); break; case K_TRUE: tok("TRUE"); break; case K_FALSE: tok("FALSE"); break; case K_NULL: tok("NULL"); break;
  case K_LABEL: tok(":"); name(cypher_ast_label_get_name(n)); break; case K_RELTYPE: opt(":"); name(cypher_ast_reltype_get_name(n)); break; case K_PROP_NAME: name(cypher_ast_prop_name_get_value(n)); break; case K_FUNCTION_NAME: name(cypher_ast_function_name_get_value(n)); break; case K_INDEX_NAME: name(cypher_ast_index_name_get_value(n)); break; case K_PROC_NAME: name(cypher_ast_proc_name_get_value(n)); break;
  case K_PATTERN: SEQ(n, cypher_ast_pattern_npaths, cypher_ast_pattern_get_path, ",") break;
  case K_NAMED_PATH: un(cypher_ast_named_path_get_identifier(n)); tok("="); un(cypher_ast_named_path_get_path(n)); break;
  case K_SHORTEST_PATH: tok(cypher_ast_shortest_path_is_single(n) ? "SHORTESTPATH" : "ALLSHORTESTPATHS"); un(cypher_ast_shortest_path_get_path(n)); break;
  case K_PATTERN_PATH: for (unsigned i = 0; i < cypher_ast_pattern_path_nelements(n) && !bad; i++) un(cypher_ast_pattern_path_get_element(n, i)); break;
  case K_NODE_PATTERN: un_opt(NULL, cypher_ast_node_pattern_get_identifier(n)); labels(n, cypher_ast_node_pattern_nlabels, cypher_ast_node_pattern_get_label); un_opt(NULL, cypher_ast_node_pattern_get_properties(n)); break;
  case K_REL_PATTERN: rel(n); break; case K_RANGE: range(n); break;
  default: miss("a node of a kind that cannot stand in a statement"); } }
static int broken(N *n) { if (cypher_astnode_instanceof(n, CYPHER_AST_ERROR)) return 1; for (unsigned i = 0; i < cypher_astnode_nchildren(n); i++) if (broken(cypher_astnode_get_child(n, i))) return 1; return 0; }
void written(void) { S = sx_text(0, &L); cypher_parse_result_t *r = cypher_uparse(S, L, NULL, NULL, 0); if (!r) return; for (size_t i = 0; i < L; i++) if (!S[i]) { cypher_parse_result_free(r); sx_free((void *)S); return; } size_t last = 0; int errs = cypher_parse_result_nerrors(r) != 0;
  for (unsigned i = 0; i < cypher_parse_result_nroots(r); i++) { N *x = cypher_parse_result_get_root(r, i); struct cypher_input_range g = cypher_astnode_range(x);
    if (kind_of(x) == K_STATEMENT && !broken(x)) { I = g.start.offset; E = g.end.offset; bad = 0; if (E > L || I > E) miss("a range lies outside the input"); un(x); if (!bad) { opt(";"); if (skipws(I) < E) miss("the source has something that is not in the tree"); } sx_reach("statement"); }
    /* between the roots of well-formed input nothing but blanks, comments and terminators */
    if (!errs && kind_of(x) == K_STATEMENT) { size_t j = last; while (j < g.start.offset && j < L) { size_t z = skipws(j); if (z > j) { j = z; continue; } if (S[j] == ';') j++; else break; } sx_assert(j >= g.start.offset, "the source has something between statements that is not in the tree"); }
    if (kind_of(x) == K_STATEMENT || kind_of(x) == K_COMMAND) last = g.end.offset; }
  sx_trace(cypher_parse_result_nroots(r)); cypher_parse_result_free(r); sx_free((void *)S); }
