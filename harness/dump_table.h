/* generated by tools/gen_dump.py */
enum { K_STATEMENT, K_STATEMENT_OPTION, K_CYPHER_OPTION, K_CYPHER_OPTION_PARAM, K_EXPLAIN_OPTION, K_PROFILE_OPTION, K_SCHEMA_COMMAND, K_CREATE_NODE_PROPS_INDEX, K_DROP_NODE_PROPS_INDEX, K_CREATE_NODE_PROP_CONSTRAINT, K_DROP_NODE_PROP_CONSTRAINT, K_CREATE_REL_PROP_CONSTRAINT, K_DROP_REL_PROP_CONSTRAINT, K_QUERY, K_QUERY_OPTION, K_USING_PERIODIC_COMMIT, K_QUERY_CLAUSE, K_LOAD_CSV, K_START, K_START_POINT, K_NODE_INDEX_LOOKUP, K_NODE_INDEX_QUERY, K_NODE_ID_LOOKUP, K_ALL_NODES_SCAN, K_REL_INDEX_LOOKUP, K_REL_INDEX_QUERY, K_REL_ID_LOOKUP, K_ALL_RELS_SCAN, K_MATCH, K_MATCH_HINT, K_USING_INDEX, K_USING_JOIN, K_USING_SCAN, K_MERGE, K_MERGE_ACTION, K_ON_MATCH, K_ON_CREATE, K_CREATE, K_SET, K_SET_ITEM, K_SET_PROPERTY, K_SET_ALL_PROPERTIES, K_MERGE_PROPERTIES, K_SET_LABELS, K_DELETE, K_REMOVE, K_REMOVE_ITEM, K_REMOVE_LABELS, K_REMOVE_PROPERTY, K_FOREACH, K_WITH, K_UNWIND, K_CALL, K_RETURN, K_PROJECTION, K_ORDER_BY, K_SORT_ITEM, K_UNION, K_EXPRESSION, K_UNARY_OPERATOR, K_BINARY_OPERATOR, K_COMPARISON, K_APPLY_OPERATOR, K_APPLY_ALL_OPERATOR, K_PROPERTY_OPERATOR, K_SUBSCRIPT_OPERATOR, K_SLICE_OPERATOR, K_MAP_PROJECTION, K_MAP_PROJECTION_SELECTOR, K_MAP_PROJECTION_LITERAL, K_MAP_PROJECTION_PROPERTY, K_MAP_PROJECTION_IDENTIFIER, K_MAP_PROJECTION_ALL_PROPERTIES, K_LABELS_OPERATOR, K_LIST_COMPREHENSION, K_PATTERN_COMPREHENSION, K_CASE, K_FILTER, K_EXTRACT, K_REDUCE, K_ALL, K_ANY, K_SINGLE, K_NONE, K_COLLECTION, K_MAP, K_IDENTIFIER, K_PARAMETER, K_STRING, K_INTEGER, K_FLOAT, K_BOOLEAN, K_TRUE, K_FALSE, K_NULL, K_LABEL, K_RELTYPE, K_PROP_NAME, K_FUNCTION_NAME, K_INDEX_NAME, K_PROC_NAME, K_PATTERN, K_NAMED_PATH, K_SHORTEST_PATH, K_PATTERN_PATH, K_NODE_PATTERN, K_REL_PATTERN, K_RANGE, K_COMMAND, K_COMMENT, K_LINE_COMMENT, K_BLOCK_COMMENT, K_ERROR, K_COUNT };
static const char *const kname[] = { "STATEMENT", "STATEMENT_OPTION", "CYPHER_OPTION", "CYPHER_OPTION_PARAM", "EXPLAIN_OPTION", "PROFILE_OPTION", "SCHEMA_COMMAND", "CREATE_NODE_PROPS_INDEX", "DROP_NODE_PROPS_INDEX", "CREATE_NODE_PROP_CONSTRAINT", "DROP_NODE_PROP_CONSTRAINT", "CREATE_REL_PROP_CONSTRAINT", "DROP_REL_PROP_CONSTRAINT", "QUERY", "QUERY_OPTION", "USING_PERIODIC_COMMIT", "QUERY_CLAUSE", "LOAD_CSV", "START", "START_POINT", "NODE_INDEX_LOOKUP", "NODE_INDEX_QUERY", "NODE_ID_LOOKUP", "ALL_NODES_SCAN", "REL_INDEX_LOOKUP", "REL_INDEX_QUERY", "REL_ID_LOOKUP", "ALL_RELS_SCAN", "MATCH", "MATCH_HINT", "USING_INDEX", "USING_JOIN", "USING_SCAN", "MERGE", "MERGE_ACTION", "ON_MATCH", "ON_CREATE", "CREATE", "SET", "SET_ITEM", "SET_PROPERTY", "SET_ALL_PROPERTIES", "MERGE_PROPERTIES", "SET_LABELS", "DELETE", "REMOVE", "REMOVE_ITEM", "REMOVE_LABELS", "REMOVE_PROPERTY", "FOREACH", "WITH", "UNWIND", "CALL", "RETURN", "PROJECTION", "ORDER_BY", "SORT_ITEM", "UNION", "EXPRESSION", "UNARY_OPERATOR", "BINARY_OPERATOR", "COMPARISON", "APPLY_OPERATOR", "APPLY_ALL_OPERATOR", "PROPERTY_OPERATOR", "SUBSCRIPT_OPERATOR", "SLICE_OPERATOR", "MAP_PROJECTION", "MAP_PROJECTION_SELECTOR", "MAP_PROJECTION_LITERAL", "MAP_PROJECTION_PROPERTY", "MAP_PROJECTION_IDENTIFIER", "MAP_PROJECTION_ALL_PROPERTIES", "LABELS_OPERATOR", "LIST_COMPREHENSION", "PATTERN_COMPREHENSION", "CASE", "FILTER", "EXTRACT", "REDUCE", "ALL", "ANY", "SINGLE", "NONE", "COLLECTION", "MAP", "IDENTIFIER", "PARAMETER", "STRING", "INTEGER", "FLOAT", "BOOLEAN", "TRUE", "FALSE", "NULL", "LABEL", "RELTYPE", "PROP_NAME", "FUNCTION_NAME", "INDEX_NAME", "PROC_NAME", "PATTERN", "NAMED_PATH", "SHORTEST_PATH", "PATTERN_PATH", "NODE_PATTERN", "REL_PATTERN", "RANGE", "COMMAND", "COMMENT", "LINE_COMMENT", "BLOCK_COMMENT", "ERROR" };
static cypher_astnode_type_t ktype(int k) { switch (k) {
case K_STATEMENT: return CYPHER_AST_STATEMENT;
case K_STATEMENT_OPTION: return CYPHER_AST_STATEMENT_OPTION;
case K_CYPHER_OPTION: return CYPHER_AST_CYPHER_OPTION;
case K_CYPHER_OPTION_PARAM: return CYPHER_AST_CYPHER_OPTION_PARAM;
case K_EXPLAIN_OPTION: return CYPHER_AST_EXPLAIN_OPTION;
case K_PROFILE_OPTION: return CYPHER_AST_PROFILE_OPTION;
case K_SCHEMA_COMMAND: return CYPHER_AST_SCHEMA_COMMAND;
case K_CREATE_NODE_PROPS_INDEX: return CYPHER_AST_CREATE_NODE_PROPS_INDEX;
case K_DROP_NODE_PROPS_INDEX: return CYPHER_AST_DROP_NODE_PROPS_INDEX;
case K_CREATE_NODE_PROP_CONSTRAINT: return CYPHER_AST_CREATE_NODE_PROP_CONSTRAINT;
case K_DROP_NODE_PROP_CONSTRAINT: return CYPHER_AST_DROP_NODE_PROP_CONSTRAINT;
case K_CREATE_REL_PROP_CONSTRAINT: return CYPHER_AST_CREATE_REL_PROP_CONSTRAINT;
case K_DROP_REL_PROP_CONSTRAINT: return CYPHER_AST_DROP_REL_PROP_CONSTRAINT;
case K_QUERY: return CYPHER_AST_QUERY;
case K_QUERY_OPTION: return CYPHER_AST_QUERY_OPTION;
case K_USING_PERIODIC_COMMIT: return CYPHER_AST_USING_PERIODIC_COMMIT;
case K_QUERY_CLAUSE: return CYPHER_AST_QUERY_CLAUSE;
case K_LOAD_CSV: return CYPHER_AST_LOAD_CSV;
case K_START: return CYPHER_AST_START;
case K_START_POINT: return CYPHER_AST_START_POINT;
case K_NODE_INDEX_LOOKUP: return CYPHER_AST_NODE_INDEX_LOOKUP;
case K_NODE_INDEX_QUERY: return CYPHER_AST_NODE_INDEX_QUERY;
case K_NODE_ID_LOOKUP: return CYPHER_AST_NODE_ID_LOOKUP;
case K_ALL_NODES_SCAN: return CYPHER_AST_ALL_NODES_SCAN;
case K_REL_INDEX_LOOKUP: return CYPHER_AST_REL_INDEX_LOOKUP;
case K_REL_INDEX_QUERY: return CYPHER_AST_REL_INDEX_QUERY;
case K_REL_ID_LOOKUP: return CYPHER_AST_REL_ID_LOOKUP;
case K_ALL_RELS_SCAN: return CYPHER_AST_ALL_RELS_SCAN;
case K_MATCH: return CYPHER_AST_MATCH;
case K_MATCH_HINT: return CYPHER_AST_MATCH_HINT;
case K_USING_INDEX: return CYPHER_AST_USING_INDEX;
case K_USING_JOIN: return CYPHER_AST_USING_JOIN;
case K_USING_SCAN: return CYPHER_AST_USING_SCAN;
case K_MERGE: return CYPHER_AST_MERGE;
case K_MERGE_ACTION: return CYPHER_AST_MERGE_ACTION;
case K_ON_MATCH: return CYPHER_AST_ON_MATCH;
case K_ON_CREATE: return CYPHER_AST_ON_CREATE;
case K_CREATE: return CYPHER_AST_CREATE;
case K_SET: return CYPHER_AST_SET;
case K_SET_ITEM: return CYPHER_AST_SET_ITEM;
case K_SET_PROPERTY: return CYPHER_AST_SET_PROPERTY;
case K_SET_ALL_PROPERTIES: return CYPHER_AST_SET_ALL_PROPERTIES;
case K_MERGE_PROPERTIES: return CYPHER_AST_MERGE_PROPERTIES;
case K_SET_LABELS: return CYPHER_AST_SET_LABELS;
case K_DELETE: return CYPHER_AST_DELETE;
case K_REMOVE: return CYPHER_AST_REMOVE;
case K_REMOVE_ITEM: return CYPHER_AST_REMOVE_ITEM;
case K_REMOVE_LABELS: return CYPHER_AST_REMOVE_LABELS;
case K_REMOVE_PROPERTY: return CYPHER_AST_REMOVE_PROPERTY;
case K_FOREACH: return CYPHER_AST_FOREACH;
case K_WITH: return CYPHER_AST_WITH;
case K_UNWIND: return CYPHER_AST_UNWIND;
case K_CALL: return CYPHER_AST_CALL;
case K_RETURN: return CYPHER_AST_RETURN;
case K_PROJECTION: return CYPHER_AST_PROJECTION;
case K_ORDER_BY: return CYPHER_AST_ORDER_BY;
case K_SORT_ITEM: return CYPHER_AST_SORT_ITEM;
case K_UNION: return CYPHER_AST_UNION;
case K_EXPRESSION: return CYPHER_AST_EXPRESSION;
case K_UNARY_OPERATOR: return CYPHER_AST_UNARY_OPERATOR;
case K_BINARY_OPERATOR: return CYPHER_AST_BINARY_OPERATOR;
case K_COMPARISON: return CYPHER_AST_COMPARISON;
case K_APPLY_OPERATOR: return CYPHER_AST_APPLY_OPERATOR;
case K_APPLY_ALL_OPERATOR: return CYPHER_AST_APPLY_ALL_OPERATOR;
case K_PROPERTY_OPERATOR: return CYPHER_AST_PROPERTY_OPERATOR;
case K_SUBSCRIPT_OPERATOR: return CYPHER_AST_SUBSCRIPT_OPERATOR;
case K_SLICE_OPERATOR: return CYPHER_AST_SLICE_OPERATOR;
case K_MAP_PROJECTION: return CYPHER_AST_MAP_PROJECTION;
case K_MAP_PROJECTION_SELECTOR: return CYPHER_AST_MAP_PROJECTION_SELECTOR;
case K_MAP_PROJECTION_LITERAL: return CYPHER_AST_MAP_PROJECTION_LITERAL;
case K_MAP_PROJECTION_PROPERTY: return CYPHER_AST_MAP_PROJECTION_PROPERTY;
case K_MAP_PROJECTION_IDENTIFIER: return CYPHER_AST_MAP_PROJECTION_IDENTIFIER;
case K_MAP_PROJECTION_ALL_PROPERTIES: return CYPHER_AST_MAP_PROJECTION_ALL_PROPERTIES;
case K_LABELS_OPERATOR: return CYPHER_AST_LABELS_OPERATOR;
case K_LIST_COMPREHENSION: return CYPHER_AST_LIST_COMPREHENSION;
case K_PATTERN_COMPREHENSION: return CYPHER_AST_PATTERN_COMPREHENSION;
case K_CASE: return CYPHER_AST_CASE;
case K_FILTER: return CYPHER_AST_FILTER;
case K_EXTRACT: return CYPHER_AST_EXTRACT;
case K_REDUCE: return CYPHER_AST_REDUCE;
case K_ALL: return CYPHER_AST_ALL;
case K_ANY: return CYPHER_AST_ANY;
case K_SINGLE: return CYPHER_AST_SINGLE;
case K_NONE: return CYPHER_AST_NONE;
case K_COLLECTION: return CYPHER_AST_COLLECTION;
case K_MAP: return CYPHER_AST_MAP;
case K_IDENTIFIER: return CYPHER_AST_IDENTIFIER;
case K_PARAMETER: return CYPHER_AST_PARAMETER;
case K_STRING: return CYPHER_AST_STRING;
case K_INTEGER: return CYPHER_AST_INTEGER;
case K_FLOAT: return CYPHER_AST_FLOAT;
case K_BOOLEAN: return CYPHER_AST_BOOLEAN;
case K_TRUE: return CYPHER_AST_TRUE;
case K_FALSE: return CYPHER_AST_FALSE;
case K_NULL: return CYPHER_AST_NULL;
case K_LABEL: return CYPHER_AST_LABEL;
case K_RELTYPE: return CYPHER_AST_RELTYPE;
case K_PROP_NAME: return CYPHER_AST_PROP_NAME;
case K_FUNCTION_NAME: return CYPHER_AST_FUNCTION_NAME;
case K_INDEX_NAME: return CYPHER_AST_INDEX_NAME;
case K_PROC_NAME: return CYPHER_AST_PROC_NAME;
case K_PATTERN: return CYPHER_AST_PATTERN;
case K_NAMED_PATH: return CYPHER_AST_NAMED_PATH;
case K_SHORTEST_PATH: return CYPHER_AST_SHORTEST_PATH;
case K_PATTERN_PATH: return CYPHER_AST_PATTERN_PATH;
case K_NODE_PATTERN: return CYPHER_AST_NODE_PATTERN;
case K_REL_PATTERN: return CYPHER_AST_REL_PATTERN;
case K_RANGE: return CYPHER_AST_RANGE;
case K_COMMAND: return CYPHER_AST_COMMAND;
case K_COMMENT: return CYPHER_AST_COMMENT;
case K_LINE_COMMENT: return CYPHER_AST_LINE_COMMENT;
case K_BLOCK_COMMENT: return CYPHER_AST_BLOCK_COMMENT;
case K_ERROR: return CYPHER_AST_ERROR;
} return 255; }
static int kanc(int k, int a) { if (k == a) return 1; switch (k) {
case K_CYPHER_OPTION: return a == K_STATEMENT_OPTION;
case K_EXPLAIN_OPTION: return a == K_STATEMENT_OPTION;
case K_PROFILE_OPTION: return a == K_STATEMENT_OPTION;
case K_CREATE_NODE_PROPS_INDEX: return a == K_SCHEMA_COMMAND;
case K_DROP_NODE_PROPS_INDEX: return a == K_SCHEMA_COMMAND;
case K_CREATE_NODE_PROP_CONSTRAINT: return a == K_SCHEMA_COMMAND;
case K_DROP_NODE_PROP_CONSTRAINT: return a == K_SCHEMA_COMMAND;
case K_CREATE_REL_PROP_CONSTRAINT: return a == K_SCHEMA_COMMAND;
case K_DROP_REL_PROP_CONSTRAINT: return a == K_SCHEMA_COMMAND;
case K_USING_PERIODIC_COMMIT: return a == K_QUERY_OPTION;
case K_LOAD_CSV: return a == K_QUERY_CLAUSE;
case K_START: return a == K_QUERY_CLAUSE;
case K_NODE_INDEX_LOOKUP: return a == K_START_POINT;
case K_NODE_INDEX_QUERY: return a == K_START_POINT;
case K_NODE_ID_LOOKUP: return a == K_START_POINT;
case K_ALL_NODES_SCAN: return a == K_START_POINT;
case K_REL_INDEX_LOOKUP: return a == K_START_POINT;
case K_REL_INDEX_QUERY: return a == K_START_POINT;
case K_REL_ID_LOOKUP: return a == K_START_POINT;
case K_ALL_RELS_SCAN: return a == K_START_POINT;
case K_MATCH: return a == K_QUERY_CLAUSE;
case K_USING_INDEX: return a == K_MATCH_HINT;
case K_USING_JOIN: return a == K_MATCH_HINT;
case K_USING_SCAN: return a == K_MATCH_HINT;
case K_MERGE: return a == K_QUERY_CLAUSE;
case K_ON_MATCH: return a == K_MERGE_ACTION;
case K_ON_CREATE: return a == K_MERGE_ACTION;
case K_CREATE: return a == K_QUERY_CLAUSE;
case K_SET: return a == K_QUERY_CLAUSE;
case K_SET_PROPERTY: return a == K_SET_ITEM;
case K_SET_ALL_PROPERTIES: return a == K_SET_ITEM;
case K_MERGE_PROPERTIES: return a == K_SET_ITEM;
case K_SET_LABELS: return a == K_SET_ITEM;
case K_DELETE: return a == K_QUERY_CLAUSE;
case K_REMOVE: return a == K_QUERY_CLAUSE;
case K_REMOVE_LABELS: return a == K_REMOVE_ITEM;
case K_REMOVE_PROPERTY: return a == K_REMOVE_ITEM;
case K_FOREACH: return a == K_QUERY_CLAUSE;
case K_WITH: return a == K_QUERY_CLAUSE;
case K_UNWIND: return a == K_QUERY_CLAUSE;
case K_CALL: return a == K_QUERY_CLAUSE;
case K_RETURN: return a == K_QUERY_CLAUSE;
case K_UNION: return a == K_QUERY_CLAUSE;
case K_UNARY_OPERATOR: return a == K_EXPRESSION;
case K_BINARY_OPERATOR: return a == K_EXPRESSION;
case K_COMPARISON: return a == K_EXPRESSION;
case K_APPLY_OPERATOR: return a == K_EXPRESSION;
case K_APPLY_ALL_OPERATOR: return a == K_EXPRESSION;
case K_PROPERTY_OPERATOR: return a == K_EXPRESSION;
case K_SUBSCRIPT_OPERATOR: return a == K_EXPRESSION;
case K_SLICE_OPERATOR: return a == K_EXPRESSION;
case K_MAP_PROJECTION: return a == K_EXPRESSION;
case K_MAP_PROJECTION_LITERAL: return a == K_MAP_PROJECTION_SELECTOR;
case K_MAP_PROJECTION_PROPERTY: return a == K_MAP_PROJECTION_SELECTOR;
case K_MAP_PROJECTION_IDENTIFIER: return a == K_MAP_PROJECTION_SELECTOR;
case K_MAP_PROJECTION_ALL_PROPERTIES: return a == K_MAP_PROJECTION_SELECTOR;
case K_LABELS_OPERATOR: return a == K_EXPRESSION;
case K_LIST_COMPREHENSION: return a == K_EXPRESSION;
case K_PATTERN_COMPREHENSION: return a == K_EXPRESSION;
case K_CASE: return a == K_EXPRESSION;
case K_FILTER: return a == K_LIST_COMPREHENSION || a == K_EXPRESSION;
case K_EXTRACT: return a == K_LIST_COMPREHENSION || a == K_EXPRESSION;
case K_REDUCE: return a == K_EXPRESSION;
case K_ALL: return a == K_LIST_COMPREHENSION || a == K_EXPRESSION;
case K_ANY: return a == K_LIST_COMPREHENSION || a == K_EXPRESSION;
case K_SINGLE: return a == K_LIST_COMPREHENSION || a == K_EXPRESSION;
case K_NONE: return a == K_LIST_COMPREHENSION || a == K_EXPRESSION;
case K_COLLECTION: return a == K_EXPRESSION;
case K_MAP: return a == K_EXPRESSION;
case K_IDENTIFIER: return a == K_EXPRESSION;
case K_PARAMETER: return a == K_EXPRESSION;
case K_STRING: return a == K_EXPRESSION;
case K_INTEGER: return a == K_EXPRESSION;
case K_FLOAT: return a == K_EXPRESSION;
case K_BOOLEAN: return a == K_EXPRESSION;
case K_TRUE: return a == K_BOOLEAN || a == K_EXPRESSION;
case K_FALSE: return a == K_BOOLEAN || a == K_EXPRESSION;
case K_NULL: return a == K_EXPRESSION;
case K_NAMED_PATH: return a == K_PATTERN_PATH || a == K_EXPRESSION;
case K_SHORTEST_PATH: return a == K_PATTERN_PATH || a == K_EXPRESSION;
case K_PATTERN_PATH: return a == K_EXPRESSION;
case K_LINE_COMMENT: return a == K_COMMENT;
case K_BLOCK_COMMENT: return a == K_COMMENT;
} return 0; }
static void kvisit(const cypher_astnode_t *n, int k) { switch (k) {
case K_STATEMENT:
  { unsigned c = cypher_ast_statement_noptions(n); F_seq("option", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_statement_get_option(n, i), K_STATEMENT_OPTION); F_past(cypher_ast_statement_get_option(n, c) == NULL && cypher_ast_statement_get_option(n, c + 7) == NULL && cypher_ast_statement_get_option(n, ~0u) == NULL); }
  F_node("body", cypher_ast_statement_get_body(n), -1, 0);
  break;
case K_CYPHER_OPTION:
  F_node("version", cypher_ast_cypher_option_get_version(n), K_STRING, 1);
  { unsigned c = cypher_ast_cypher_option_nparams(n); F_seq("param", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_cypher_option_get_param(n, i), K_CYPHER_OPTION_PARAM); F_past(cypher_ast_cypher_option_get_param(n, c) == NULL && cypher_ast_cypher_option_get_param(n, c + 7) == NULL && cypher_ast_cypher_option_get_param(n, ~0u) == NULL); }
  break;
case K_CYPHER_OPTION_PARAM:
  F_node("name", cypher_ast_cypher_option_param_get_name(n), K_STRING, 0);
  F_node("value", cypher_ast_cypher_option_param_get_value(n), K_STRING, 0);
  break;
case K_CREATE_NODE_PROPS_INDEX:
  F_node("label", cypher_ast_create_node_props_index_get_label(n), K_LABEL, 0);
  { unsigned c = cypher_ast_create_node_props_index_nprops(n); F_seq("prop_name", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_create_node_props_index_get_prop_name(n, i), K_PROP_NAME); F_past(cypher_ast_create_node_props_index_get_prop_name(n, c) == NULL && cypher_ast_create_node_props_index_get_prop_name(n, c + 7) == NULL && cypher_ast_create_node_props_index_get_prop_name(n, ~0u) == NULL); }
  break;
case K_DROP_NODE_PROPS_INDEX:
  F_node("label", cypher_ast_drop_node_props_index_get_label(n), K_LABEL, 0);
  { unsigned c = cypher_ast_drop_node_props_index_nprops(n); F_seq("prop_name", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_drop_node_props_index_get_prop_name(n, i), K_PROP_NAME); F_past(cypher_ast_drop_node_props_index_get_prop_name(n, c) == NULL && cypher_ast_drop_node_props_index_get_prop_name(n, c + 7) == NULL && cypher_ast_drop_node_props_index_get_prop_name(n, ~0u) == NULL); }
  break;
case K_CREATE_NODE_PROP_CONSTRAINT:
  F_node("identifier", cypher_ast_create_node_prop_constraint_get_identifier(n), K_IDENTIFIER, 0);
  F_node("label", cypher_ast_create_node_prop_constraint_get_label(n), K_LABEL, 0);
  F_node("expression", cypher_ast_create_node_prop_constraint_get_expression(n), K_EXPRESSION, 0);
  F_flag("is_unique", cypher_ast_create_node_prop_constraint_is_unique(n));
  break;
case K_DROP_NODE_PROP_CONSTRAINT:
  F_node("identifier", cypher_ast_drop_node_prop_constraint_get_identifier(n), K_IDENTIFIER, 0);
  F_node("label", cypher_ast_drop_node_prop_constraint_get_label(n), K_LABEL, 0);
  F_node("expression", cypher_ast_drop_node_prop_constraint_get_expression(n), K_EXPRESSION, 0);
  F_flag("is_unique", cypher_ast_drop_node_prop_constraint_is_unique(n));
  break;
case K_CREATE_REL_PROP_CONSTRAINT:
  F_node("identifier", cypher_ast_create_rel_prop_constraint_get_identifier(n), K_IDENTIFIER, 0);
  F_node("reltype", cypher_ast_create_rel_prop_constraint_get_reltype(n), K_RELTYPE, 0);
  F_node("expression", cypher_ast_create_rel_prop_constraint_get_expression(n), K_EXPRESSION, 0);
  F_flag("is_unique", cypher_ast_create_rel_prop_constraint_is_unique(n));
  break;
case K_DROP_REL_PROP_CONSTRAINT:
  F_node("identifier", cypher_ast_drop_rel_prop_constraint_get_identifier(n), K_IDENTIFIER, 0);
  F_node("reltype", cypher_ast_drop_rel_prop_constraint_get_reltype(n), K_RELTYPE, 0);
  F_node("expression", cypher_ast_drop_rel_prop_constraint_get_expression(n), K_EXPRESSION, 0);
  F_flag("is_unique", cypher_ast_drop_rel_prop_constraint_is_unique(n));
  break;
case K_QUERY:
  { unsigned c = cypher_ast_query_noptions(n); F_seq("option", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_query_get_option(n, i), K_QUERY_OPTION); F_past(cypher_ast_query_get_option(n, c) == NULL && cypher_ast_query_get_option(n, c + 7) == NULL && cypher_ast_query_get_option(n, ~0u) == NULL); }
  { unsigned c = cypher_ast_query_nclauses(n); F_seq("clause", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_query_get_clause(n, i), K_QUERY_CLAUSE); F_past(cypher_ast_query_get_clause(n, c) == NULL && cypher_ast_query_get_clause(n, c + 7) == NULL && cypher_ast_query_get_clause(n, ~0u) == NULL); }
  break;
case K_USING_PERIODIC_COMMIT:
  F_node("limit", cypher_ast_using_periodic_commit_get_limit(n), K_INTEGER, 1);
  break;
case K_LOAD_CSV:
  F_flag("has_with_headers", cypher_ast_load_csv_has_with_headers(n));
  F_node("url", cypher_ast_load_csv_get_url(n), K_EXPRESSION, 0);
  F_node("identifier", cypher_ast_load_csv_get_identifier(n), K_IDENTIFIER, 0);
  F_node("field_terminator", cypher_ast_load_csv_get_field_terminator(n), K_STRING, 1);
  break;
case K_START:
  { unsigned c = cypher_ast_start_npoints(n); F_seq("point", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_start_get_point(n, i), K_START_POINT); F_past(cypher_ast_start_get_point(n, c) == NULL && cypher_ast_start_get_point(n, c + 7) == NULL && cypher_ast_start_get_point(n, ~0u) == NULL); }
  F_node("predicate", cypher_ast_start_get_predicate(n), K_EXPRESSION, 1);
  break;
case K_NODE_INDEX_LOOKUP:
  F_node("identifier", cypher_ast_node_index_lookup_get_identifier(n), K_IDENTIFIER, 0);
  F_node("index_name", cypher_ast_node_index_lookup_get_index_name(n), K_INDEX_NAME, 0);
  F_node("prop_name", cypher_ast_node_index_lookup_get_prop_name(n), K_PROP_NAME, 0);
  F_node("lookup", cypher_ast_node_index_lookup_get_lookup(n), K_EXPRESSION, 0);
  break;
case K_NODE_INDEX_QUERY:
  F_node("identifier", cypher_ast_node_index_query_get_identifier(n), K_IDENTIFIER, 0);
  F_node("index_name", cypher_ast_node_index_query_get_index_name(n), K_INDEX_NAME, 0);
  F_node("query", cypher_ast_node_index_query_get_query(n), K_EXPRESSION, 0);
  break;
case K_NODE_ID_LOOKUP:
  F_node("identifier", cypher_ast_node_id_lookup_get_identifier(n), K_IDENTIFIER, 0);
  { unsigned c = cypher_ast_node_id_lookup_nids(n); F_seq("id", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_node_id_lookup_get_id(n, i), K_INTEGER); F_past(cypher_ast_node_id_lookup_get_id(n, c) == NULL && cypher_ast_node_id_lookup_get_id(n, c + 7) == NULL && cypher_ast_node_id_lookup_get_id(n, ~0u) == NULL); }
  break;
case K_ALL_NODES_SCAN:
  F_node("identifier", cypher_ast_all_nodes_scan_get_identifier(n), K_IDENTIFIER, 0);
  break;
case K_REL_INDEX_LOOKUP:
  F_node("identifier", cypher_ast_rel_index_lookup_get_identifier(n), K_IDENTIFIER, 0);
  F_node("index_name", cypher_ast_rel_index_lookup_get_index_name(n), K_INDEX_NAME, 0);
  F_node("prop_name", cypher_ast_rel_index_lookup_get_prop_name(n), K_PROP_NAME, 0);
  F_node("lookup", cypher_ast_rel_index_lookup_get_lookup(n), K_EXPRESSION, 0);
  break;
case K_REL_INDEX_QUERY:
  F_node("identifier", cypher_ast_rel_index_query_get_identifier(n), K_IDENTIFIER, 0);
  F_node("index_name", cypher_ast_rel_index_query_get_index_name(n), K_INDEX_NAME, 0);
  F_node("query", cypher_ast_rel_index_query_get_query(n), K_EXPRESSION, 0);
  break;
case K_REL_ID_LOOKUP:
  F_node("identifier", cypher_ast_rel_id_lookup_get_identifier(n), K_IDENTIFIER, 0);
  { unsigned c = cypher_ast_rel_id_lookup_nids(n); F_seq("id", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_rel_id_lookup_get_id(n, i), K_INTEGER); F_past(cypher_ast_rel_id_lookup_get_id(n, c) == NULL && cypher_ast_rel_id_lookup_get_id(n, c + 7) == NULL && cypher_ast_rel_id_lookup_get_id(n, ~0u) == NULL); }
  break;
case K_ALL_RELS_SCAN:
  F_node("identifier", cypher_ast_all_rels_scan_get_identifier(n), K_IDENTIFIER, 0);
  break;
case K_MATCH:
  F_flag("is_optional", cypher_ast_match_is_optional(n));
  F_node("pattern", cypher_ast_match_get_pattern(n), K_PATTERN, 0);
  { unsigned c = cypher_ast_match_nhints(n); F_seq("hint", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_match_get_hint(n, i), K_MATCH_HINT); F_past(cypher_ast_match_get_hint(n, c) == NULL && cypher_ast_match_get_hint(n, c + 7) == NULL && cypher_ast_match_get_hint(n, ~0u) == NULL); }
  F_node("predicate", cypher_ast_match_get_predicate(n), K_EXPRESSION, 1);
  break;
case K_USING_INDEX:
  F_node("identifier", cypher_ast_using_index_get_identifier(n), K_IDENTIFIER, 0);
  F_node("label", cypher_ast_using_index_get_label(n), K_LABEL, 0);
  F_node("prop_name", cypher_ast_using_index_get_prop_name(n), K_PROP_NAME, 0);
  break;
case K_USING_JOIN:
  { unsigned c = cypher_ast_using_join_nidentifiers(n); F_seq("identifier", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_using_join_get_identifier(n, i), K_IDENTIFIER); F_past(cypher_ast_using_join_get_identifier(n, c) == NULL && cypher_ast_using_join_get_identifier(n, c + 7) == NULL && cypher_ast_using_join_get_identifier(n, ~0u) == NULL); }
  break;
case K_USING_SCAN:
  F_node("identifier", cypher_ast_using_scan_get_identifier(n), K_IDENTIFIER, 0);
  F_node("label", cypher_ast_using_scan_get_label(n), K_LABEL, 0);
  break;
case K_MERGE:
  F_node("pattern_path", cypher_ast_merge_get_pattern_path(n), K_PATTERN_PATH, 0);
  { unsigned c = cypher_ast_merge_nactions(n); F_seq("action", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_merge_get_action(n, i), K_MERGE_ACTION); F_past(cypher_ast_merge_get_action(n, c) == NULL && cypher_ast_merge_get_action(n, c + 7) == NULL && cypher_ast_merge_get_action(n, ~0u) == NULL); }
  break;
case K_ON_MATCH:
  { unsigned c = cypher_ast_on_match_nitems(n); F_seq("item", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_on_match_get_item(n, i), K_SET_ITEM); F_past(cypher_ast_on_match_get_item(n, c) == NULL && cypher_ast_on_match_get_item(n, c + 7) == NULL && cypher_ast_on_match_get_item(n, ~0u) == NULL); }
  break;
case K_ON_CREATE:
  { unsigned c = cypher_ast_on_create_nitems(n); F_seq("item", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_on_create_get_item(n, i), K_SET_ITEM); F_past(cypher_ast_on_create_get_item(n, c) == NULL && cypher_ast_on_create_get_item(n, c + 7) == NULL && cypher_ast_on_create_get_item(n, ~0u) == NULL); }
  break;
case K_CREATE:
  F_flag("is_unique", cypher_ast_create_is_unique(n));
  F_node("pattern", cypher_ast_create_get_pattern(n), K_PATTERN, 0);
  break;
case K_SET:
  { unsigned c = cypher_ast_set_nitems(n); F_seq("item", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_set_get_item(n, i), K_SET_ITEM); F_past(cypher_ast_set_get_item(n, c) == NULL && cypher_ast_set_get_item(n, c + 7) == NULL && cypher_ast_set_get_item(n, ~0u) == NULL); }
  break;
case K_SET_PROPERTY:
  F_node("property", cypher_ast_set_property_get_property(n), K_PROPERTY_OPERATOR, 0);
  F_node("expression", cypher_ast_set_property_get_expression(n), K_EXPRESSION, 0);
  break;
case K_SET_ALL_PROPERTIES:
  F_node("identifier", cypher_ast_set_all_properties_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_set_all_properties_get_expression(n), K_EXPRESSION, 0);
  break;
case K_MERGE_PROPERTIES:
  F_node("identifier", cypher_ast_merge_properties_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_merge_properties_get_expression(n), K_EXPRESSION, 0);
  break;
case K_SET_LABELS:
  F_node("identifier", cypher_ast_set_labels_get_identifier(n), K_IDENTIFIER, 0);
  { unsigned c = cypher_ast_set_labels_nlabels(n); F_seq("label", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_set_labels_get_label(n, i), K_LABEL); F_past(cypher_ast_set_labels_get_label(n, c) == NULL && cypher_ast_set_labels_get_label(n, c + 7) == NULL && cypher_ast_set_labels_get_label(n, ~0u) == NULL); }
  break;
case K_DELETE:
  F_flag("has_detach", cypher_ast_delete_has_detach(n));
  { unsigned c = cypher_ast_delete_nexpressions(n); F_seq("expression", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_delete_get_expression(n, i), K_EXPRESSION); F_past(cypher_ast_delete_get_expression(n, c) == NULL && cypher_ast_delete_get_expression(n, c + 7) == NULL && cypher_ast_delete_get_expression(n, ~0u) == NULL); }
  break;
case K_REMOVE:
  { unsigned c = cypher_ast_remove_nitems(n); F_seq("item", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_remove_get_item(n, i), K_REMOVE_ITEM); F_past(cypher_ast_remove_get_item(n, c) == NULL && cypher_ast_remove_get_item(n, c + 7) == NULL && cypher_ast_remove_get_item(n, ~0u) == NULL); }
  break;
case K_REMOVE_LABELS:
  F_node("identifier", cypher_ast_remove_labels_get_identifier(n), K_IDENTIFIER, 0);
  { unsigned c = cypher_ast_remove_labels_nlabels(n); F_seq("label", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_remove_labels_get_label(n, i), K_LABEL); F_past(cypher_ast_remove_labels_get_label(n, c) == NULL && cypher_ast_remove_labels_get_label(n, c + 7) == NULL && cypher_ast_remove_labels_get_label(n, ~0u) == NULL); }
  break;
case K_REMOVE_PROPERTY:
  F_node("property", cypher_ast_remove_property_get_property(n), K_PROPERTY_OPERATOR, 0);
  break;
case K_FOREACH:
  F_node("identifier", cypher_ast_foreach_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_foreach_get_expression(n), K_EXPRESSION, 0);
  { unsigned c = cypher_ast_foreach_nclauses(n); F_seq("clause", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_foreach_get_clause(n, i), K_QUERY_CLAUSE); F_past(cypher_ast_foreach_get_clause(n, c) == NULL && cypher_ast_foreach_get_clause(n, c + 7) == NULL && cypher_ast_foreach_get_clause(n, ~0u) == NULL); }
  break;
case K_WITH:
  F_flag("is_distinct", cypher_ast_with_is_distinct(n));
  F_flag("has_include_existing", cypher_ast_with_has_include_existing(n));
  { unsigned c = cypher_ast_with_nprojections(n); F_seq("projection", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_with_get_projection(n, i), K_PROJECTION); F_past(cypher_ast_with_get_projection(n, c) == NULL && cypher_ast_with_get_projection(n, c + 7) == NULL && cypher_ast_with_get_projection(n, ~0u) == NULL); }
  F_node("order_by", cypher_ast_with_get_order_by(n), K_ORDER_BY, 1);
  F_node("skip", cypher_ast_with_get_skip(n), K_EXPRESSION, 1);
  F_node("limit", cypher_ast_with_get_limit(n), K_EXPRESSION, 1);
  F_node("predicate", cypher_ast_with_get_predicate(n), K_EXPRESSION, 1);
  break;
case K_UNWIND:
  F_node("expression", cypher_ast_unwind_get_expression(n), K_EXPRESSION, 0);
  F_node("alias", cypher_ast_unwind_get_alias(n), K_IDENTIFIER, 0);
  break;
case K_CALL:
  F_node("proc_name", cypher_ast_call_get_proc_name(n), K_PROC_NAME, 0);
  { unsigned c = cypher_ast_call_narguments(n); F_seq("argument", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_call_get_argument(n, i), K_EXPRESSION); F_past(cypher_ast_call_get_argument(n, c) == NULL && cypher_ast_call_get_argument(n, c + 7) == NULL && cypher_ast_call_get_argument(n, ~0u) == NULL); }
  { unsigned c = cypher_ast_call_nprojections(n); F_seq("projection", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_call_get_projection(n, i), K_PROJECTION); F_past(cypher_ast_call_get_projection(n, c) == NULL && cypher_ast_call_get_projection(n, c + 7) == NULL && cypher_ast_call_get_projection(n, ~0u) == NULL); }
  F_node("predicate", cypher_ast_call_get_predicate(n), K_EXPRESSION, 1);
  break;
case K_RETURN:
  F_flag("is_distinct", cypher_ast_return_is_distinct(n));
  F_flag("has_include_existing", cypher_ast_return_has_include_existing(n));
  { unsigned c = cypher_ast_return_nprojections(n); F_seq("projection", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_return_get_projection(n, i), K_PROJECTION); F_past(cypher_ast_return_get_projection(n, c) == NULL && cypher_ast_return_get_projection(n, c + 7) == NULL && cypher_ast_return_get_projection(n, ~0u) == NULL); }
  F_node("order_by", cypher_ast_return_get_order_by(n), K_ORDER_BY, 1);
  F_node("skip", cypher_ast_return_get_skip(n), K_EXPRESSION, 1);
  F_node("limit", cypher_ast_return_get_limit(n), K_EXPRESSION, 1);
  break;
case K_PROJECTION:
  F_node("expression", cypher_ast_projection_get_expression(n), K_EXPRESSION, 0);
  F_node("alias", cypher_ast_projection_get_alias(n), K_IDENTIFIER, 1);
  break;
case K_ORDER_BY:
  { unsigned c = cypher_ast_order_by_nitems(n); F_seq("item", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_order_by_get_item(n, i), K_SORT_ITEM); F_past(cypher_ast_order_by_get_item(n, c) == NULL && cypher_ast_order_by_get_item(n, c + 7) == NULL && cypher_ast_order_by_get_item(n, ~0u) == NULL); }
  break;
case K_SORT_ITEM:
  F_node("expression", cypher_ast_sort_item_get_expression(n), K_EXPRESSION, 0);
  F_flag("is_ascending", cypher_ast_sort_item_is_ascending(n));
  break;
case K_UNION:
  F_flag("has_all", cypher_ast_union_has_all(n));
  break;
case K_UNARY_OPERATOR:
  F_op(cypher_ast_unary_operator_get_operator(n));
  F_node("argument", cypher_ast_unary_operator_get_argument(n), K_EXPRESSION, 0);
  break;
case K_BINARY_OPERATOR:
  F_op(cypher_ast_binary_operator_get_operator(n));
  F_node("argument1", cypher_ast_binary_operator_get_argument1(n), K_EXPRESSION, 0);
  F_node("argument2", cypher_ast_binary_operator_get_argument2(n), K_EXPRESSION, 0);
  break;
case K_COMPARISON:
  { unsigned c = cypher_ast_comparison_get_length(n); F_seq("comparison", c); F_elt(cypher_ast_comparison_get_argument(n, 0), K_EXPRESSION); for (unsigned i = 0; i < c; i++) { F_op(cypher_ast_comparison_get_operator(n, i)); F_elt(cypher_ast_comparison_get_argument(n, i + 1), K_EXPRESSION); } }
  break;
case K_APPLY_OPERATOR:
  F_node("func_name", cypher_ast_apply_operator_get_func_name(n), K_FUNCTION_NAME, 0);
  F_flag("get_distinct", cypher_ast_apply_operator_get_distinct(n));
  { unsigned c = cypher_ast_apply_operator_narguments(n); F_seq("argument", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_apply_operator_get_argument(n, i), K_EXPRESSION); F_past(cypher_ast_apply_operator_get_argument(n, c) == NULL && cypher_ast_apply_operator_get_argument(n, c + 7) == NULL && cypher_ast_apply_operator_get_argument(n, ~0u) == NULL); }
  break;
case K_APPLY_ALL_OPERATOR:
  F_node("func_name", cypher_ast_apply_all_operator_get_func_name(n), K_FUNCTION_NAME, 0);
  F_flag("get_distinct", cypher_ast_apply_all_operator_get_distinct(n));
  break;
case K_PROPERTY_OPERATOR:
  F_node("expression", cypher_ast_property_operator_get_expression(n), K_EXPRESSION, 0);
  F_node("prop_name", cypher_ast_property_operator_get_prop_name(n), K_PROP_NAME, 0);
  break;
case K_SUBSCRIPT_OPERATOR:
  F_node("expression", cypher_ast_subscript_operator_get_expression(n), K_EXPRESSION, 0);
  F_node("subscript", cypher_ast_subscript_operator_get_subscript(n), K_EXPRESSION, 0);
  break;
case K_SLICE_OPERATOR:
  F_node("expression", cypher_ast_slice_operator_get_expression(n), K_EXPRESSION, 0);
  F_node("start", cypher_ast_slice_operator_get_start(n), K_EXPRESSION, 1);
  F_node("end", cypher_ast_slice_operator_get_end(n), K_EXPRESSION, 1);
  break;
case K_MAP_PROJECTION:
  F_node("expression", cypher_ast_map_projection_get_expression(n), K_EXPRESSION, 0);
  { unsigned c = cypher_ast_map_projection_nselectors(n); F_seq("selector", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_map_projection_get_selector(n, i), K_MAP_PROJECTION_SELECTOR); F_past(cypher_ast_map_projection_get_selector(n, c) == NULL && cypher_ast_map_projection_get_selector(n, c + 7) == NULL && cypher_ast_map_projection_get_selector(n, ~0u) == NULL); }
  break;
case K_MAP_PROJECTION_LITERAL:
  F_node("prop_name", cypher_ast_map_projection_literal_get_prop_name(n), K_PROP_NAME, 0);
  F_node("expression", cypher_ast_map_projection_literal_get_expression(n), K_EXPRESSION, 0);
  break;
case K_MAP_PROJECTION_PROPERTY:
  F_node("prop_name", cypher_ast_map_projection_property_get_prop_name(n), K_PROP_NAME, 0);
  break;
case K_MAP_PROJECTION_IDENTIFIER:
  F_node("identifier", cypher_ast_map_projection_identifier_get_identifier(n), K_IDENTIFIER, 0);
  break;
case K_LABELS_OPERATOR:
  F_node("expression", cypher_ast_labels_operator_get_expression(n), K_EXPRESSION, 0);
  { unsigned c = cypher_ast_labels_operator_nlabels(n); F_seq("label", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_labels_operator_get_label(n, i), K_LABEL); F_past(cypher_ast_labels_operator_get_label(n, c) == NULL && cypher_ast_labels_operator_get_label(n, c + 7) == NULL && cypher_ast_labels_operator_get_label(n, ~0u) == NULL); }
  break;
case K_LIST_COMPREHENSION:
  F_node("identifier", cypher_ast_list_comprehension_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_list_comprehension_get_expression(n), K_EXPRESSION, 0);
  F_node("predicate", cypher_ast_list_comprehension_get_predicate(n), K_EXPRESSION, 1);
  F_node("eval", cypher_ast_list_comprehension_get_eval(n), K_EXPRESSION, 1);
  break;
case K_PATTERN_COMPREHENSION:
  F_node("identifier", cypher_ast_pattern_comprehension_get_identifier(n), K_IDENTIFIER, 1);
  F_node("pattern", cypher_ast_pattern_comprehension_get_pattern(n), K_PATTERN_PATH, 0);
  F_node("predicate", cypher_ast_pattern_comprehension_get_predicate(n), K_EXPRESSION, 1);
  F_node("eval", cypher_ast_pattern_comprehension_get_eval(n), K_EXPRESSION, 0);
  break;
case K_CASE:
  F_node("expression", cypher_ast_case_get_expression(n), K_EXPRESSION, 1);
  { unsigned c = cypher_ast_case_nalternatives(n); F_seq("alternative", c); for (unsigned i = 0; i < c; i++) { F_elt(cypher_ast_case_get_predicate(n, i), K_EXPRESSION); F_elt(cypher_ast_case_get_value(n, i), K_EXPRESSION); } F_past(cypher_ast_case_get_predicate(n, c) == NULL && cypher_ast_case_get_value(n, c) == NULL); }
  F_node("default", cypher_ast_case_get_default(n), K_EXPRESSION, 1);
  break;
case K_FILTER:
  F_node("identifier", cypher_ast_list_comprehension_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_list_comprehension_get_expression(n), K_EXPRESSION, 0);
  F_node("predicate", cypher_ast_list_comprehension_get_predicate(n), K_EXPRESSION, 1);
  F_node("eval", cypher_ast_list_comprehension_get_eval(n), K_EXPRESSION, 1);
  break;
case K_EXTRACT:
  F_node("identifier", cypher_ast_list_comprehension_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_list_comprehension_get_expression(n), K_EXPRESSION, 0);
  F_node("predicate", cypher_ast_list_comprehension_get_predicate(n), K_EXPRESSION, 1);
  F_node("eval", cypher_ast_list_comprehension_get_eval(n), K_EXPRESSION, 1);
  break;
case K_REDUCE:
  F_node("accumulator", cypher_ast_reduce_get_accumulator(n), K_IDENTIFIER, 0);
  F_node("init", cypher_ast_reduce_get_init(n), K_EXPRESSION, 0);
  F_node("identifier", cypher_ast_reduce_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_reduce_get_expression(n), K_EXPRESSION, 0);
  F_node("eval", cypher_ast_reduce_get_eval(n), K_EXPRESSION, 1);
  break;
case K_ALL:
  F_node("identifier", cypher_ast_list_comprehension_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_list_comprehension_get_expression(n), K_EXPRESSION, 0);
  F_node("predicate", cypher_ast_list_comprehension_get_predicate(n), K_EXPRESSION, 1);
  F_node("eval", cypher_ast_list_comprehension_get_eval(n), K_EXPRESSION, 1);
  break;
case K_ANY:
  F_node("identifier", cypher_ast_list_comprehension_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_list_comprehension_get_expression(n), K_EXPRESSION, 0);
  F_node("predicate", cypher_ast_list_comprehension_get_predicate(n), K_EXPRESSION, 1);
  F_node("eval", cypher_ast_list_comprehension_get_eval(n), K_EXPRESSION, 1);
  break;
case K_SINGLE:
  F_node("identifier", cypher_ast_list_comprehension_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_list_comprehension_get_expression(n), K_EXPRESSION, 0);
  F_node("predicate", cypher_ast_list_comprehension_get_predicate(n), K_EXPRESSION, 1);
  F_node("eval", cypher_ast_list_comprehension_get_eval(n), K_EXPRESSION, 1);
  break;
case K_NONE:
  F_node("identifier", cypher_ast_list_comprehension_get_identifier(n), K_IDENTIFIER, 0);
  F_node("expression", cypher_ast_list_comprehension_get_expression(n), K_EXPRESSION, 0);
  F_node("predicate", cypher_ast_list_comprehension_get_predicate(n), K_EXPRESSION, 1);
  F_node("eval", cypher_ast_list_comprehension_get_eval(n), K_EXPRESSION, 1);
  break;
case K_COLLECTION:
  { unsigned c = cypher_ast_collection_length(n); F_seq("element", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_collection_get(n, i), K_EXPRESSION); F_past(cypher_ast_collection_get(n, c) == NULL && cypher_ast_collection_get(n, ~0u) == NULL); }
  break;
case K_MAP:
  { unsigned c = cypher_ast_map_nentries(n); F_seq("entry", c); for (unsigned i = 0; i < c; i++) { F_elt(cypher_ast_map_get_key(n, i), K_PROP_NAME); F_elt(cypher_ast_map_get_value(n, i), K_EXPRESSION); } F_past(cypher_ast_map_get_key(n, c) == NULL && cypher_ast_map_get_value(n, c) == NULL); }
  break;
case K_IDENTIFIER:
  F_text(cypher_ast_identifier_get_name(n));
  break;
case K_PARAMETER:
  F_text(cypher_ast_parameter_get_name(n));
  break;
case K_STRING:
  F_text(cypher_ast_string_get_value(n));
  break;
case K_INTEGER:
  F_text(cypher_ast_integer_get_valuestr(n));
  break;
case K_FLOAT:
  F_text(cypher_ast_float_get_valuestr(n));
  break;
case K_LABEL:
  F_text(cypher_ast_label_get_name(n));
  break;
case K_RELTYPE:
  F_text(cypher_ast_reltype_get_name(n));
  break;
case K_PROP_NAME:
  F_text(cypher_ast_prop_name_get_value(n));
  break;
case K_FUNCTION_NAME:
  F_text(cypher_ast_function_name_get_value(n));
  break;
case K_INDEX_NAME:
  F_text(cypher_ast_index_name_get_value(n));
  break;
case K_PROC_NAME:
  F_text(cypher_ast_proc_name_get_value(n));
  break;
case K_PATTERN:
  { unsigned c = cypher_ast_pattern_npaths(n); F_seq("path", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_pattern_get_path(n, i), K_PATTERN_PATH); F_past(cypher_ast_pattern_get_path(n, c) == NULL && cypher_ast_pattern_get_path(n, c + 7) == NULL && cypher_ast_pattern_get_path(n, ~0u) == NULL); }
  break;
case K_NAMED_PATH:
  F_node("identifier", cypher_ast_named_path_get_identifier(n), K_IDENTIFIER, 0);
  F_node("path", cypher_ast_named_path_get_path(n), K_PATTERN_PATH, 0);
  { unsigned c = cypher_ast_pattern_path_nelements(n); F_seq("element", c); for (unsigned i = 0; i < c; i++) F_pathelt(cypher_ast_pattern_path_get_element(n, i), i); F_past(cypher_ast_pattern_path_get_element(n, c) == NULL && cypher_ast_pattern_path_get_element(n, ~0u) == NULL); }
  break;
case K_SHORTEST_PATH:
  F_flag("is_single", cypher_ast_shortest_path_is_single(n));
  F_node("path", cypher_ast_shortest_path_get_path(n), K_PATTERN_PATH, 0);
  { unsigned c = cypher_ast_pattern_path_nelements(n); F_seq("element", c); for (unsigned i = 0; i < c; i++) F_pathelt(cypher_ast_pattern_path_get_element(n, i), i); F_past(cypher_ast_pattern_path_get_element(n, c) == NULL && cypher_ast_pattern_path_get_element(n, ~0u) == NULL); }
  break;
case K_PATTERN_PATH:
  { unsigned c = cypher_ast_pattern_path_nelements(n); F_seq("element", c); for (unsigned i = 0; i < c; i++) F_pathelt(cypher_ast_pattern_path_get_element(n, i), i); F_past(cypher_ast_pattern_path_get_element(n, c) == NULL && cypher_ast_pattern_path_get_element(n, ~0u) == NULL); }
  break;
case K_NODE_PATTERN:
  F_node("identifier", cypher_ast_node_pattern_get_identifier(n), K_IDENTIFIER, 1);
  { unsigned c = cypher_ast_node_pattern_nlabels(n); F_seq("label", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_node_pattern_get_label(n, i), K_LABEL); F_past(cypher_ast_node_pattern_get_label(n, c) == NULL && cypher_ast_node_pattern_get_label(n, c + 7) == NULL && cypher_ast_node_pattern_get_label(n, ~0u) == NULL); }
  F_node("properties", cypher_ast_node_pattern_get_properties(n), K_EXPRESSION, 1);
  break;
case K_REL_PATTERN:
  F_dir(cypher_ast_rel_pattern_get_direction(n));
  F_node("identifier", cypher_ast_rel_pattern_get_identifier(n), K_IDENTIFIER, 1);
  { unsigned c = cypher_ast_rel_pattern_nreltypes(n); F_seq("reltype", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_rel_pattern_get_reltype(n, i), K_RELTYPE); F_past(cypher_ast_rel_pattern_get_reltype(n, c) == NULL && cypher_ast_rel_pattern_get_reltype(n, c + 7) == NULL && cypher_ast_rel_pattern_get_reltype(n, ~0u) == NULL); }
  F_node("varlength", cypher_ast_rel_pattern_get_varlength(n), K_RANGE, 1);
  F_node("properties", cypher_ast_rel_pattern_get_properties(n), K_EXPRESSION, 1);
  break;
case K_RANGE:
  F_node("start", cypher_ast_range_get_start(n), K_INTEGER, 1);
  F_node("end", cypher_ast_range_get_end(n), K_INTEGER, 1);
  break;
case K_COMMAND:
  F_node("name", cypher_ast_command_get_name(n), K_STRING, 0);
  { unsigned c = cypher_ast_command_narguments(n); F_seq("argument", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_command_get_argument(n, i), K_STRING); F_past(cypher_ast_command_get_argument(n, c) == NULL && cypher_ast_command_get_argument(n, c + 7) == NULL && cypher_ast_command_get_argument(n, ~0u) == NULL); }
  break;
case K_LINE_COMMENT:
  F_text(cypher_ast_line_comment_get_value(n));
  break;
case K_BLOCK_COMMENT:
  F_text(cypher_ast_block_comment_get_value(n));
  break;
case K_ERROR:
  F_text(cypher_ast_error_get_value(n));
  break;
} }
