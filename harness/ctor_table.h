/* generated by tools/gen_ctor.py */
static const char *const cname[] = { "statement", "cypher_option", "cypher_option_param", "explain_option", "profile_option", "create_node_props_index", "drop_node_props_index", "create_node_prop_constraint", "drop_node_prop_constraint", "create_rel_prop_constraint", "drop_rel_prop_constraint", "query", "using_periodic_commit", "load_csv", "start", "node_index_lookup", "node_index_query", "node_id_lookup", "all_nodes_scan", "rel_index_lookup", "rel_index_query", "rel_id_lookup", "all_rels_scan", "match", "using_index", "using_join", "using_scan", "merge", "on_match", "on_create", "create", "set", "set_property", "set_all_properties", "merge_properties", "set_labels", "delete", "remove", "remove_labels", "remove_property", "foreach", "with", "unwind", "call", "return", "projection", "order_by", "sort_item", "union", "unary_operator", "binary_operator", "comparison", "apply_operator", "apply_all_operator", "property_operator", "subscript_operator", "slice_operator", "map_projection", "map_projection_literal", "map_projection_property", "map_projection_identifier", "map_projection_all_properties", "labels_operator", "list_comprehension", "filter", "extract", "all", "any", "single", "none", "pattern_comprehension", "reduce", "case", "collection", "map", "pair_map", "identifier", "parameter", "string", "integer", "float", "true", "false", "null", "label", "reltype", "prop_name", "function_name", "index_name", "proc_name", "pattern", "named_path", "shortest_path", "pattern_path", "node_pattern", "rel_pattern", "range", "command", "line_comment", "block_comment", "error" };
static void describe(int c) { switch (c) {
case 0: C.kind = K_STATEMENT; arg('v', 0, K_STATEMENT_OPTION, K_STATEMENT_OPTION, -1); arg('n', 0, K_QUERY, K_SCHEMA_COMMAND, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 1: C.kind = K_CYPHER_OPTION; arg('o', 0, K_STRING, K_STRING, -1); arg('v', 0, K_CYPHER_OPTION_PARAM, K_CYPHER_OPTION_PARAM, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 2: C.kind = K_CYPHER_OPTION_PARAM; arg('n', 0, K_STRING, K_STRING, -1); arg('n', 0, K_STRING, K_STRING, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 3: C.kind = K_EXPLAIN_OPTION; { static const int o[] = { 0 }; C.order = o; C.norder = 0; } break;
case 4: C.kind = K_PROFILE_OPTION; { static const int o[] = { 0 }; C.order = o; C.norder = 0; } break;
case 5: C.kind = K_CREATE_NODE_PROPS_INDEX; arg('n', 0, K_LABEL, K_LABEL, -1); arg('v', 1, K_PROP_NAME, K_PROP_NAME, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 6: C.kind = K_DROP_NODE_PROPS_INDEX; arg('n', 0, K_LABEL, K_LABEL, -1); arg('v', 1, K_PROP_NAME, K_PROP_NAME, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 7: C.kind = K_CREATE_NODE_PROP_CONSTRAINT; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_LABEL, K_LABEL, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('b', 0, -1, -1, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 8: C.kind = K_DROP_NODE_PROP_CONSTRAINT; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_LABEL, K_LABEL, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('b', 0, -1, -1, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 9: C.kind = K_CREATE_REL_PROP_CONSTRAINT; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_RELTYPE, K_RELTYPE, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('b', 0, -1, -1, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 10: C.kind = K_DROP_REL_PROP_CONSTRAINT; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_RELTYPE, K_RELTYPE, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('b', 0, -1, -1, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 11: C.kind = K_QUERY; arg('v', 0, K_QUERY_OPTION, K_QUERY_OPTION, -1); arg('v', 1, K_QUERY_CLAUSE, K_QUERY_CLAUSE, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 12: C.kind = K_USING_PERIODIC_COMMIT; arg('o', 0, K_INTEGER, K_INTEGER, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 13: C.kind = K_LOAD_CSV; arg('b', 0, -1, -1, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('o', 0, K_STRING, K_STRING, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 14: C.kind = K_START; arg('v', 1, K_START_POINT, K_START_POINT, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 15: C.kind = K_NODE_INDEX_LOOKUP; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_INDEX_NAME, K_INDEX_NAME, -1); arg('n', 0, K_PROP_NAME, K_PROP_NAME, -1); arg('n', 0, K_STRING, K_PARAMETER, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 16: C.kind = K_NODE_INDEX_QUERY; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_INDEX_NAME, K_INDEX_NAME, -1); arg('n', 0, K_STRING, K_PARAMETER, -1); { static const int o[] = { 0, 1, 2 }; C.order = o; C.norder = 3; } break;
case 17: C.kind = K_NODE_ID_LOOKUP; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('v', 1, K_INTEGER, K_INTEGER, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 18: C.kind = K_ALL_NODES_SCAN; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 19: C.kind = K_REL_INDEX_LOOKUP; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_INDEX_NAME, K_INDEX_NAME, -1); arg('n', 0, K_PROP_NAME, K_PROP_NAME, -1); arg('n', 0, K_STRING, K_PARAMETER, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 20: C.kind = K_REL_INDEX_QUERY; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_INDEX_NAME, K_INDEX_NAME, -1); arg('n', 0, K_STRING, K_PARAMETER, -1); { static const int o[] = { 0, 1, 2 }; C.order = o; C.norder = 3; } break;
case 21: C.kind = K_REL_ID_LOOKUP; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('v', 1, K_INTEGER, K_INTEGER, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 22: C.kind = K_ALL_RELS_SCAN; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 23: C.kind = K_MATCH; arg('b', 0, -1, -1, -1); arg('n', 0, K_PATTERN, K_PATTERN, -1); arg('v', 0, K_MATCH_HINT, K_MATCH_HINT, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 24: C.kind = K_USING_INDEX; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_LABEL, K_LABEL, -1); arg('n', 0, K_PROP_NAME, K_PROP_NAME, -1); { static const int o[] = { 0, 1, 2 }; C.order = o; C.norder = 3; } break;
case 25: C.kind = K_USING_JOIN; arg('v', 1, K_IDENTIFIER, K_IDENTIFIER, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 26: C.kind = K_USING_SCAN; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_LABEL, K_LABEL, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 27: C.kind = K_MERGE; arg('n', 0, K_PATTERN_PATH, K_PATTERN_PATH, -1); arg('v', 0, K_MERGE_ACTION, K_MERGE_ACTION, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 28: C.kind = K_ON_MATCH; arg('v', 1, K_SET_ITEM, K_SET_ITEM, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 29: C.kind = K_ON_CREATE; arg('v', 1, K_SET_ITEM, K_SET_ITEM, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 30: C.kind = K_CREATE; arg('b', 0, -1, -1, -1); arg('n', 0, K_PATTERN, K_PATTERN, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 31: C.kind = K_SET; arg('v', 1, K_SET_ITEM, K_SET_ITEM, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 32: C.kind = K_SET_PROPERTY; arg('n', 0, K_PROPERTY_OPERATOR, K_PROPERTY_OPERATOR, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 33: C.kind = K_SET_ALL_PROPERTIES; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 34: C.kind = K_MERGE_PROPERTIES; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 35: C.kind = K_SET_LABELS; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('v', 1, K_LABEL, K_LABEL, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 36: C.kind = K_DELETE; arg('b', 0, -1, -1, -1); arg('v', 1, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 37: C.kind = K_REMOVE; arg('v', 1, K_REMOVE_ITEM, K_REMOVE_ITEM, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 38: C.kind = K_REMOVE_LABELS; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('v', 1, K_LABEL, K_LABEL, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 39: C.kind = K_REMOVE_PROPERTY; arg('n', 0, K_PROPERTY_OPERATOR, K_PROPERTY_OPERATOR, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 40: C.kind = K_FOREACH; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('v', 1, K_QUERY_CLAUSE, K_QUERY_CLAUSE, -1); { static const int o[] = { 0, 1, 2 }; C.order = o; C.norder = 3; } break;
case 41: C.kind = K_WITH; arg('b', 0, -1, -1, -1); arg('b', 0, -1, -1, -1); arg('v', 0, K_PROJECTION, K_PROJECTION, -1); arg('o', 0, K_ORDER_BY, K_ORDER_BY, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, 3, 4, 5, 6 }; C.order = o; C.norder = 7; } break;
case 42: C.kind = K_UNWIND; arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 43: C.kind = K_CALL; arg('n', 0, K_PROC_NAME, K_PROC_NAME, -1); arg('v', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('v', 0, K_PROJECTION, K_PROJECTION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 44: C.kind = K_RETURN; arg('b', 0, -1, -1, -1); arg('b', 0, -1, -1, -1); arg('v', 0, K_PROJECTION, K_PROJECTION, -1); arg('o', 0, K_ORDER_BY, K_ORDER_BY, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, 3, 4, 5 }; C.order = o; C.norder = 6; } break;
case 45: C.kind = K_PROJECTION; arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_IDENTIFIER, K_IDENTIFIER, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 46: C.kind = K_ORDER_BY; arg('v', 1, K_SORT_ITEM, K_SORT_ITEM, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 47: C.kind = K_SORT_ITEM; arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('b', 0, -1, -1, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 48: C.kind = K_UNION; arg('b', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 49: C.kind = K_UNARY_OPERATOR; arg('x', 0, -1, -1, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 50: C.kind = K_BINARY_OPERATOR; arg('x', 0, -1, -1, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2 }; C.order = o; C.norder = 3; } break;
case 51: C.kind = K_COMPARISON; arg('c', 1, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 52: C.kind = K_APPLY_OPERATOR; arg('n', 0, K_FUNCTION_NAME, K_FUNCTION_NAME, -1); arg('b', 0, -1, -1, -1); arg('v', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2 }; C.order = o; C.norder = 3; } break;
case 53: C.kind = K_APPLY_ALL_OPERATOR; arg('n', 0, K_FUNCTION_NAME, K_FUNCTION_NAME, -1); arg('b', 0, -1, -1, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 54: C.kind = K_PROPERTY_OPERATOR; arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('n', 0, K_PROP_NAME, K_PROP_NAME, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 55: C.kind = K_SUBSCRIPT_OPERATOR; arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 56: C.kind = K_SLICE_OPERATOR; arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2 }; C.order = o; C.norder = 3; } break;
case 57: C.kind = K_MAP_PROJECTION; arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('v', 0, K_MAP_PROJECTION_SELECTOR, K_MAP_PROJECTION_SELECTOR, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 58: C.kind = K_MAP_PROJECTION_LITERAL; arg('n', 0, K_PROP_NAME, K_PROP_NAME, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 59: C.kind = K_MAP_PROJECTION_PROPERTY; arg('n', 0, K_PROP_NAME, K_PROP_NAME, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 60: C.kind = K_MAP_PROJECTION_IDENTIFIER; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 61: C.kind = K_MAP_PROJECTION_ALL_PROPERTIES; { static const int o[] = { 0 }; C.order = o; C.norder = 0; } break;
case 62: C.kind = K_LABELS_OPERATOR; arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('v', 1, K_LABEL, K_LABEL, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 63: C.kind = K_LIST_COMPREHENSION; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 64: C.kind = K_FILTER; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, -1 }; C.order = o; C.norder = 4; } break;
case 65: C.kind = K_EXTRACT; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, -1, 2 }; C.order = o; C.norder = 4; } break;
case 66: C.kind = K_ALL; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, -1 }; C.order = o; C.norder = 4; } break;
case 67: C.kind = K_ANY; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, -1 }; C.order = o; C.norder = 4; } break;
case 68: C.kind = K_SINGLE; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, -1 }; C.order = o; C.norder = 4; } break;
case 69: C.kind = K_NONE; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, -1 }; C.order = o; C.norder = 4; } break;
case 70: C.kind = K_PATTERN_COMPREHENSION; arg('o', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_PATTERN_PATH, K_PATTERN_PATH, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, 3 }; C.order = o; C.norder = 4; } break;
case 71: C.kind = K_REDUCE; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2, 3, 4 }; C.order = o; C.norder = 5; } break;
case 72: C.kind = K_CASE; arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); arg('d', 0, K_EXPRESSION, K_EXPRESSION, K_EXPRESSION); arg('o', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0, 1, 2 }; C.order = o; C.norder = 3; } break;
case 73: C.kind = K_COLLECTION; arg('v', 0, K_EXPRESSION, K_EXPRESSION, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 74: C.kind = K_MAP; arg('m', 0, K_PROP_NAME, K_PROP_NAME, K_EXPRESSION); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 75: C.kind = K_MAP; arg('d', 0, K_PROP_NAME, K_PROP_NAME, K_EXPRESSION); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 76: C.kind = K_IDENTIFIER; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 77: C.kind = K_PARAMETER; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 78: C.kind = K_STRING; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 79: C.kind = K_INTEGER; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 80: C.kind = K_FLOAT; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 81: C.kind = K_TRUE; { static const int o[] = { 0 }; C.order = o; C.norder = 0; } break;
case 82: C.kind = K_FALSE; { static const int o[] = { 0 }; C.order = o; C.norder = 0; } break;
case 83: C.kind = K_NULL; { static const int o[] = { 0 }; C.order = o; C.norder = 0; } break;
case 84: C.kind = K_LABEL; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 85: C.kind = K_RELTYPE; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 86: C.kind = K_PROP_NAME; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 87: C.kind = K_FUNCTION_NAME; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 88: C.kind = K_INDEX_NAME; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 89: C.kind = K_PROC_NAME; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 90: C.kind = K_PATTERN; arg('v', 1, K_PATTERN_PATH, K_PATTERN_PATH, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 91: C.kind = K_NAMED_PATH; arg('n', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('n', 0, K_PATTERN_PATH, K_PATTERN_PATH, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 92: C.kind = K_SHORTEST_PATH; arg('b', 0, -1, -1, -1); arg('n', 0, K_PATTERN_PATH, K_PATTERN_PATH, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 93: C.kind = K_PATTERN_PATH; arg('p', 1, K_NODE_PATTERN, K_NODE_PATTERN, K_REL_PATTERN); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 94: C.kind = K_NODE_PATTERN; arg('o', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('v', 0, K_LABEL, K_LABEL, -1); arg('o', 0, K_MAP, K_PARAMETER, -1); { static const int o[] = { 0, 1, 2 }; C.order = o; C.norder = 3; } break;
case 95: C.kind = K_REL_PATTERN; arg('r', 0, -1, -1, -1); arg('o', 0, K_IDENTIFIER, K_IDENTIFIER, -1); arg('v', 0, K_RELTYPE, K_RELTYPE, -1); arg('o', 0, K_MAP, K_PARAMETER, -1); arg('o', 0, K_RANGE, K_RANGE, -1); { static const int o[] = { 0, 1, 2, 4, 3 }; C.order = o; C.norder = 5; } break;
case 96: C.kind = K_RANGE; arg('o', 0, K_INTEGER, K_INTEGER, -1); arg('o', 0, K_INTEGER, K_INTEGER, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 97: C.kind = K_COMMAND; arg('n', 0, K_STRING, K_STRING, -1); arg('v', 0, K_STRING, K_STRING, -1); { static const int o[] = { 0, 1 }; C.order = o; C.norder = 2; } break;
case 98: C.kind = K_LINE_COMMENT; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 99: C.kind = K_BLOCK_COMMENT; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
case 100: C.kind = K_ERROR; arg('s', 0, -1, -1, -1); { static const int o[] = { 0 }; C.order = o; C.norder = 1; } break;
} }
static cypher_astnode_t *construct(int c) { struct a *A = C.a; (void)A; switch (c) {
case 0: return cypher_ast_statement(A[0].v, A[0].n, A[1].v[0], C.kids, C.nkids, C.range);
case 1: return cypher_ast_cypher_option(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 2: return cypher_ast_cypher_option_param(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
/* no children */
case 3: return cypher_ast_explain_option(C.range);
/* no children */
case 4: return cypher_ast_profile_option(C.range);
case 5: return cypher_ast_create_node_props_index(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 6: return cypher_ast_drop_node_props_index(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 7: return cypher_ast_create_node_prop_constraint(A[0].v[0], A[1].v[0], A[2].v[0], A[3].flag, C.kids, C.nkids, C.range);
case 8: return cypher_ast_drop_node_prop_constraint(A[0].v[0], A[1].v[0], A[2].v[0], A[3].flag, C.kids, C.nkids, C.range);
case 9: return cypher_ast_create_rel_prop_constraint(A[0].v[0], A[1].v[0], A[2].v[0], A[3].flag, C.kids, C.nkids, C.range);
case 10: return cypher_ast_drop_rel_prop_constraint(A[0].v[0], A[1].v[0], A[2].v[0], A[3].flag, C.kids, C.nkids, C.range);
case 11: return cypher_ast_query(A[0].v, A[0].n, A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 12: return cypher_ast_using_periodic_commit(A[0].v[0], C.kids, C.nkids, C.range);
case 13: return cypher_ast_load_csv(A[0].flag, A[1].v[0], A[2].v[0], A[3].v[0], C.kids, C.nkids, C.range);
case 14: return cypher_ast_start(A[0].v, A[0].n, A[1].v[0], C.kids, C.nkids, C.range);
case 15: return cypher_ast_node_index_lookup(A[0].v[0], A[1].v[0], A[2].v[0], A[3].v[0], C.kids, C.nkids, C.range);
case 16: return cypher_ast_node_index_query(A[0].v[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 17: return cypher_ast_node_id_lookup(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 18: return cypher_ast_all_nodes_scan(A[0].v[0], C.kids, C.nkids, C.range);
case 19: return cypher_ast_rel_index_lookup(A[0].v[0], A[1].v[0], A[2].v[0], A[3].v[0], C.kids, C.nkids, C.range);
case 20: return cypher_ast_rel_index_query(A[0].v[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 21: return cypher_ast_rel_id_lookup(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 22: return cypher_ast_all_rels_scan(A[0].v[0], C.kids, C.nkids, C.range);
case 23: return cypher_ast_match(A[0].flag, A[1].v[0], A[2].v, A[2].n, A[3].v[0], C.kids, C.nkids, C.range);
case 24: return cypher_ast_using_index(A[0].v[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 25: return cypher_ast_using_join(A[0].v, A[0].n, C.kids, C.nkids, C.range);
case 26: return cypher_ast_using_scan(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 27: return cypher_ast_merge(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 28: return cypher_ast_on_match(A[0].v, A[0].n, C.kids, C.nkids, C.range);
case 29: return cypher_ast_on_create(A[0].v, A[0].n, C.kids, C.nkids, C.range);
case 30: return cypher_ast_create(A[0].flag, A[1].v[0], C.kids, C.nkids, C.range);
case 31: return cypher_ast_set(A[0].v, A[0].n, C.kids, C.nkids, C.range);
case 32: return cypher_ast_set_property(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 33: return cypher_ast_set_all_properties(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 34: return cypher_ast_merge_properties(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 35: return cypher_ast_set_labels(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 36: return cypher_ast_delete(A[0].flag, A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 37: return cypher_ast_remove(A[0].v, A[0].n, C.kids, C.nkids, C.range);
case 38: return cypher_ast_remove_labels(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 39: return cypher_ast_remove_property(A[0].v[0], C.kids, C.nkids, C.range);
case 40: return cypher_ast_foreach(A[0].v[0], A[1].v[0], A[2].v, A[2].n, C.kids, C.nkids, C.range);
case 41: return cypher_ast_with(A[0].flag, A[1].flag, A[2].v, A[2].n, A[3].v[0], A[4].v[0], A[5].v[0], A[6].v[0], C.kids, C.nkids, C.range);
case 42: return cypher_ast_unwind(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 43: return cypher_ast_call(A[0].v[0], A[1].v, A[1].n, A[2].v, A[2].n, A[3].v[0], C.kids, C.nkids, C.range);
case 44: return cypher_ast_return(A[0].flag, A[1].flag, A[2].v, A[2].n, A[3].v[0], A[4].v[0], A[5].v[0], C.kids, C.nkids, C.range);
case 45: return cypher_ast_projection(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 46: return cypher_ast_order_by(A[0].v, A[0].n, C.kids, C.nkids, C.range);
case 47: return cypher_ast_sort_item(A[0].v[0], A[1].flag, C.kids, C.nkids, C.range);
case 48: return cypher_ast_union(A[0].flag, C.kids, C.nkids, C.range);
case 49: return cypher_ast_unary_operator(A[0].ops[0], A[1].v[0], C.kids, C.nkids, C.range);
case 50: return cypher_ast_binary_operator(A[0].ops[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 51: return cypher_ast_comparison(A[0].n, A[0].ops, A[0].v, C.kids, C.nkids, C.range);
case 52: return cypher_ast_apply_operator(A[0].v[0], A[1].flag, A[2].v, A[2].n, C.kids, C.nkids, C.range);
case 53: return cypher_ast_apply_all_operator(A[0].v[0], A[1].flag, C.kids, C.nkids, C.range);
case 54: return cypher_ast_property_operator(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 55: return cypher_ast_subscript_operator(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 56: return cypher_ast_slice_operator(A[0].v[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 57: return cypher_ast_map_projection(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 58: return cypher_ast_map_projection_literal(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 59: return cypher_ast_map_projection_property(A[0].v[0], C.kids, C.nkids, C.range);
case 60: return cypher_ast_map_projection_identifier(A[0].v[0], C.kids, C.nkids, C.range);
case 61: return cypher_ast_map_projection_all_properties(C.kids, C.nkids, C.range);
case 62: return cypher_ast_labels_operator(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
case 63: return cypher_ast_list_comprehension(A[0].v[0], A[1].v[0], A[2].v[0], A[3].v[0], C.kids, C.nkids, C.range);
case 64: return cypher_ast_filter(A[0].v[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 65: return cypher_ast_extract(A[0].v[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 66: return cypher_ast_all(A[0].v[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 67: return cypher_ast_any(A[0].v[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 68: return cypher_ast_single(A[0].v[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 69: return cypher_ast_none(A[0].v[0], A[1].v[0], A[2].v[0], C.kids, C.nkids, C.range);
case 70: return cypher_ast_pattern_comprehension(A[0].v[0], A[1].v[0], A[2].v[0], A[3].v[0], C.kids, C.nkids, C.range);
case 71: return cypher_ast_reduce(A[0].v[0], A[1].v[0], A[2].v[0], A[3].v[0], A[4].v[0], C.kids, C.nkids, C.range);
case 72: return cypher_ast_case(A[0].v[0], A[1].v, A[1].n, A[2].v[0], C.kids, C.nkids, C.range);
case 73: return cypher_ast_collection(A[0].v, A[0].n, C.kids, C.nkids, C.range);
case 74: return cypher_ast_map(A[0].v, A[0].w, A[0].n, C.kids, C.nkids, C.range);
case 75: return cypher_ast_pair_map(A[0].v, A[0].n, C.kids, C.nkids, C.range);
/* no children */
case 76: return cypher_ast_identifier(A[0].s, A[0].n, C.range);
/* no children */
case 77: return cypher_ast_parameter(A[0].s, A[0].n, C.range);
/* no children */
case 78: return cypher_ast_string(A[0].s, A[0].n, C.range);
/* no children */
case 79: return cypher_ast_integer(A[0].s, A[0].n, C.range);
/* no children */
case 80: return cypher_ast_float(A[0].s, A[0].n, C.range);
/* no children */
case 81: return cypher_ast_true(C.range);
/* no children */
case 82: return cypher_ast_false(C.range);
/* no children */
case 83: return cypher_ast_null(C.range);
/* no children */
case 84: return cypher_ast_label(A[0].s, A[0].n, C.range);
/* no children */
case 85: return cypher_ast_reltype(A[0].s, A[0].n, C.range);
/* no children */
case 86: return cypher_ast_prop_name(A[0].s, A[0].n, C.range);
/* no children */
case 87: return cypher_ast_function_name(A[0].s, A[0].n, C.range);
/* no children */
case 88: return cypher_ast_index_name(A[0].s, A[0].n, C.range);
/* no children */
case 89: return cypher_ast_proc_name(A[0].s, A[0].n, C.range);
case 90: return cypher_ast_pattern(A[0].v, A[0].n, C.kids, C.nkids, C.range);
case 91: return cypher_ast_named_path(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 92: return cypher_ast_shortest_path(A[0].flag, A[1].v[0], C.kids, C.nkids, C.range);
case 93: return cypher_ast_pattern_path(A[0].v, A[0].n, C.kids, C.nkids, C.range);
case 94: return cypher_ast_node_pattern(A[0].v[0], A[1].v, A[1].n, A[2].v[0], C.kids, C.nkids, C.range);
case 95: return cypher_ast_rel_pattern((enum cypher_rel_direction)A[0].flag, A[1].v[0], A[2].v, A[2].n, A[3].v[0], A[4].v[0], C.kids, C.nkids, C.range);
case 96: return cypher_ast_range(A[0].v[0], A[1].v[0], C.kids, C.nkids, C.range);
case 97: return cypher_ast_command(A[0].v[0], A[1].v, A[1].n, C.kids, C.nkids, C.range);
/* no children */
case 98: return cypher_ast_line_comment(A[0].s, A[0].n, C.range);
/* no children */
case 99: return cypher_ast_block_comment(A[0].s, A[0].n, C.range);
/* no children */
case 100: return cypher_ast_error(A[0].s, A[0].n, C.range);
} return NULL; }
#define NCTOR 101
static int nokids(int c) { switch (c) { case 99: case 100: case 3: case 82: case 80: case 87: case 76: case 88: case 79: case 84: case 98: case 83: case 77: case 89: case 4: case 86: case 85: case 78: case 81: return 1; } return 0; }
