#!/usr/bin/env python3
"""Generates harness/dump_table.h: for every AST node type its documented ancestors and its public accessors.
The table below is written from the documentation in cypher-parser.h, not from the implementation.
  n: mandatory node, o: optional node, v: (count,get) sequence of nodes, b: flag, s: text, and special forms."""
import os
EX='EXPRESSION'; T='''
STATEMENT : : v option STATEMENT_OPTION, n body
STATEMENT_OPTION :
CYPHER_OPTION : STATEMENT_OPTION : o version STRING, v param CYPHER_OPTION_PARAM
CYPHER_OPTION_PARAM : : n name STRING, n value STRING
EXPLAIN_OPTION : STATEMENT_OPTION
PROFILE_OPTION : STATEMENT_OPTION
SCHEMA_COMMAND :
CREATE_NODE_PROPS_INDEX : SCHEMA_COMMAND : n label LABEL, v prop_name/nprops PROP_NAME
DROP_NODE_PROPS_INDEX : SCHEMA_COMMAND : n label LABEL, v prop_name/nprops PROP_NAME
CREATE_NODE_PROP_CONSTRAINT : SCHEMA_COMMAND : n identifier IDENTIFIER, n label LABEL, n expression EXPRESSION, b is_unique
DROP_NODE_PROP_CONSTRAINT : SCHEMA_COMMAND : n identifier IDENTIFIER, n label LABEL, n expression EXPRESSION, b is_unique
CREATE_REL_PROP_CONSTRAINT : SCHEMA_COMMAND : n identifier IDENTIFIER, n reltype RELTYPE, n expression EXPRESSION, b is_unique
DROP_REL_PROP_CONSTRAINT : SCHEMA_COMMAND : n identifier IDENTIFIER, n reltype RELTYPE, n expression EXPRESSION, b is_unique
QUERY : : v option QUERY_OPTION, v clause QUERY_CLAUSE
QUERY_OPTION :
USING_PERIODIC_COMMIT : QUERY_OPTION : o limit INTEGER
QUERY_CLAUSE :
LOAD_CSV : QUERY_CLAUSE : b has_with_headers, n url EXPRESSION, n identifier IDENTIFIER, o field_terminator STRING
START : QUERY_CLAUSE : v point START_POINT, o predicate EXPRESSION
START_POINT :
NODE_INDEX_LOOKUP : START_POINT : n identifier IDENTIFIER, n index_name INDEX_NAME, n prop_name PROP_NAME, n lookup EXPRESSION
NODE_INDEX_QUERY : START_POINT : n identifier IDENTIFIER, n index_name INDEX_NAME, n query EXPRESSION
NODE_ID_LOOKUP : START_POINT : n identifier IDENTIFIER, v id INTEGER
ALL_NODES_SCAN : START_POINT : n identifier IDENTIFIER
REL_INDEX_LOOKUP : START_POINT : n identifier IDENTIFIER, n index_name INDEX_NAME, n prop_name PROP_NAME, n lookup EXPRESSION
REL_INDEX_QUERY : START_POINT : n identifier IDENTIFIER, n index_name INDEX_NAME, n query EXPRESSION
REL_ID_LOOKUP : START_POINT : n identifier IDENTIFIER, v id INTEGER
ALL_RELS_SCAN : START_POINT : n identifier IDENTIFIER
MATCH : QUERY_CLAUSE : b is_optional, n pattern PATTERN, v hint MATCH_HINT, o predicate EXPRESSION
MATCH_HINT :
USING_INDEX : MATCH_HINT : n identifier IDENTIFIER, n label LABEL, n prop_name PROP_NAME
USING_JOIN : MATCH_HINT : v identifier IDENTIFIER
USING_SCAN : MATCH_HINT : n identifier IDENTIFIER, n label LABEL
MERGE : QUERY_CLAUSE : n pattern_path PATTERN_PATH, v action MERGE_ACTION
MERGE_ACTION :
ON_MATCH : MERGE_ACTION : v item SET_ITEM
ON_CREATE : MERGE_ACTION : v item SET_ITEM
CREATE : QUERY_CLAUSE : b is_unique, n pattern PATTERN
SET : QUERY_CLAUSE : v item SET_ITEM
SET_ITEM :
SET_PROPERTY : SET_ITEM : n property PROPERTY_OPERATOR, n expression EXPRESSION
SET_ALL_PROPERTIES : SET_ITEM : n identifier IDENTIFIER, n expression EXPRESSION
MERGE_PROPERTIES : SET_ITEM : n identifier IDENTIFIER, n expression EXPRESSION
SET_LABELS : SET_ITEM : n identifier IDENTIFIER, v label LABEL
DELETE : QUERY_CLAUSE : b has_detach, v expression EXPRESSION
REMOVE : QUERY_CLAUSE : v item REMOVE_ITEM
REMOVE_ITEM :
REMOVE_LABELS : REMOVE_ITEM : n identifier IDENTIFIER, v label LABEL
REMOVE_PROPERTY : REMOVE_ITEM : n property PROPERTY_OPERATOR
FOREACH : QUERY_CLAUSE : n identifier IDENTIFIER, n expression EXPRESSION, v clause QUERY_CLAUSE
WITH : QUERY_CLAUSE : b is_distinct, b has_include_existing, v projection PROJECTION, o order_by ORDER_BY, o skip EXPRESSION, o limit EXPRESSION, o predicate EXPRESSION
UNWIND : QUERY_CLAUSE : n expression EXPRESSION, n alias IDENTIFIER
CALL : QUERY_CLAUSE : n proc_name PROC_NAME, v argument EXPRESSION, v projection PROJECTION, o predicate EXPRESSION
RETURN : QUERY_CLAUSE : b is_distinct, b has_include_existing, v projection PROJECTION, o order_by ORDER_BY, o skip EXPRESSION, o limit EXPRESSION
PROJECTION : : n expression EXPRESSION, o alias IDENTIFIER
ORDER_BY : : v item SORT_ITEM
SORT_ITEM : : n expression EXPRESSION, b is_ascending
UNION : QUERY_CLAUSE : b has_all
EXPRESSION :
UNARY_OPERATOR : EXPRESSION : op operator, n argument EXPRESSION
BINARY_OPERATOR : EXPRESSION : op operator, n argument1 EXPRESSION, n argument2 EXPRESSION
COMPARISON : EXPRESSION : cmp
APPLY_OPERATOR : EXPRESSION : n func_name FUNCTION_NAME, b get_distinct, v argument EXPRESSION
APPLY_ALL_OPERATOR : EXPRESSION : n func_name FUNCTION_NAME, b get_distinct
PROPERTY_OPERATOR : EXPRESSION : n expression EXPRESSION, n prop_name PROP_NAME
SUBSCRIPT_OPERATOR : EXPRESSION : n expression EXPRESSION, n subscript EXPRESSION
SLICE_OPERATOR : EXPRESSION : n expression EXPRESSION, o start EXPRESSION, o end EXPRESSION
MAP_PROJECTION : EXPRESSION : n expression EXPRESSION, v selector MAP_PROJECTION_SELECTOR
MAP_PROJECTION_SELECTOR :
MAP_PROJECTION_LITERAL : MAP_PROJECTION_SELECTOR : n prop_name PROP_NAME, n expression EXPRESSION
MAP_PROJECTION_PROPERTY : MAP_PROJECTION_SELECTOR : n prop_name PROP_NAME
MAP_PROJECTION_IDENTIFIER : MAP_PROJECTION_SELECTOR : n identifier IDENTIFIER
MAP_PROJECTION_ALL_PROPERTIES : MAP_PROJECTION_SELECTOR
LABELS_OPERATOR : EXPRESSION : n expression EXPRESSION, v label LABEL
LIST_COMPREHENSION : EXPRESSION : lc
PATTERN_COMPREHENSION : EXPRESSION : o identifier IDENTIFIER, n pattern PATTERN_PATH, o predicate EXPRESSION, n eval EXPRESSION
CASE : EXPRESSION : o expression EXPRESSION, case, o default EXPRESSION
FILTER : LIST_COMPREHENSION EXPRESSION : lc
EXTRACT : LIST_COMPREHENSION EXPRESSION : lc
REDUCE : EXPRESSION : n accumulator IDENTIFIER, n init EXPRESSION, n identifier IDENTIFIER, n expression EXPRESSION, o eval EXPRESSION
ALL : LIST_COMPREHENSION EXPRESSION : lc
ANY : LIST_COMPREHENSION EXPRESSION : lc
SINGLE : LIST_COMPREHENSION EXPRESSION : lc
NONE : LIST_COMPREHENSION EXPRESSION : lc
COLLECTION : EXPRESSION : coll
MAP : EXPRESSION : map
IDENTIFIER : EXPRESSION : s name
PARAMETER : EXPRESSION : s name
STRING : EXPRESSION : s value
INTEGER : EXPRESSION : s valuestr
FLOAT : EXPRESSION : s valuestr
BOOLEAN : EXPRESSION
TRUE : BOOLEAN EXPRESSION
FALSE : BOOLEAN EXPRESSION
NULL : EXPRESSION
LABEL : : s name
RELTYPE : : s name
PROP_NAME : : s value
FUNCTION_NAME : : s value
INDEX_NAME : : s value
PROC_NAME : : s value
PATTERN : : v path PATTERN_PATH
NAMED_PATH : PATTERN_PATH EXPRESSION : n identifier IDENTIFIER, n path PATTERN_PATH, pp
SHORTEST_PATH : PATTERN_PATH EXPRESSION : b is_single, n path PATTERN_PATH, pp
PATTERN_PATH : EXPRESSION : pp
NODE_PATTERN : : o identifier IDENTIFIER, v label LABEL, o properties EXPRESSION
REL_PATTERN : : dir, o identifier IDENTIFIER, v reltype RELTYPE, o varlength RANGE, o properties EXPRESSION
RANGE : : o start INTEGER, o end INTEGER
COMMAND : : n name STRING, v argument STRING
COMMENT :
LINE_COMMENT : COMMENT : s value
BLOCK_COMMENT : COMMENT : s value
ERROR : : s value
'''
types=[]
for l in T.strip().split('\n'):
    p=[x.strip() for x in l.split(':')]+['','']
    types.append((p[0],p[1].split(),[f.strip().split() for f in p[2].split(',') if f.strip()]))
idx={t[0]:i for i,t in enumerate(types)}
if __name__=='__main__':
    o=['/* generated by tools/gen_dump.py */','enum { '+', '.join('K_%s'%t[0] for t in types)+', K_COUNT };',
       'static const char *const kname[] = { '+', '.join('"%s"'%t[0] for t in types)+' };',
       'static cypher_astnode_type_t ktype(int k) { switch (k) {']
    o+=['case K_%s: return CYPHER_AST_%s;'%(t[0],t[0]) for t in types]+['} return 255; }']
    o+=['static int kanc(int k, int a) { if (k == a) return 1; switch (k) {']
    for t in types:
        if t[1]: o.append('case K_%s: return %s;'%(t[0],' || '.join('a == K_%s'%a for a in t[1])))
    o+=['} return 0; }']
    o+=['static void kvisit(const cypher_astnode_t *n, int k) { switch (k) {']
    for t,anc,fs in types:
        b=[]; f0='cypher_ast_'+t.lower()
        if t=='CYPHER_OPTION': f0='cypher_ast_cypher_option'
        for f in fs:
            k=f[0]
            if k in('n','o'): b.append('F_node("%s", %s_get_%s(n), %s, %d);'%(f[1],f0,f[1],'K_'+f[2] if len(f)>2 else '-1',k=='o'))
            elif k=='v':
                nm,cnt=(f[1].split('/')+[None])[:2]; cnt=cnt or 'n'+nm+'s'
                b.append('{ unsigned c = %s_%s(n); F_seq("%s", c); for (unsigned i = 0; i < c; i++) F_elt(%s_get_%s(n, i), K_%s); F_past(%s_get_%s(n, c) == NULL && %s_get_%s(n, c + 7) == NULL && %s_get_%s(n, ~0u) == NULL); }'%(f0,cnt,nm,f0,nm,f[2],f0,nm,f0,nm,f0,nm))
            elif k=='b': b.append('F_flag("%s", %s_%s(n));'%(f[1],f0,f[1]))
            elif k=='s': b.append('F_text(%s_get_%s(n));'%(f0,f[1]))
            elif k=='op': b.append('F_op(%s_get_operator(n));'%f0)
            elif k=='lc': b+=['F_node("identifier", cypher_ast_list_comprehension_get_identifier(n), K_IDENTIFIER, 0);','F_node("expression", cypher_ast_list_comprehension_get_expression(n), K_EXPRESSION, 0);','F_node("predicate", cypher_ast_list_comprehension_get_predicate(n), K_EXPRESSION, 1);','F_node("eval", cypher_ast_list_comprehension_get_eval(n), K_EXPRESSION, 1);']
            elif k=='pp': b.append('{ unsigned c = cypher_ast_pattern_path_nelements(n); F_seq("element", c); for (unsigned i = 0; i < c; i++) F_pathelt(cypher_ast_pattern_path_get_element(n, i), i); F_past(cypher_ast_pattern_path_get_element(n, c) == NULL && cypher_ast_pattern_path_get_element(n, ~0u) == NULL); }')
            elif k=='cmp': b.append('{ unsigned c = cypher_ast_comparison_get_length(n); F_seq("comparison", c); F_elt(cypher_ast_comparison_get_argument(n, 0), K_EXPRESSION); for (unsigned i = 0; i < c; i++) { F_op(cypher_ast_comparison_get_operator(n, i)); F_elt(cypher_ast_comparison_get_argument(n, i + 1), K_EXPRESSION); } }')
            elif k=='case': b.append('{ unsigned c = cypher_ast_case_nalternatives(n); F_seq("alternative", c); for (unsigned i = 0; i < c; i++) { F_elt(cypher_ast_case_get_predicate(n, i), K_EXPRESSION); F_elt(cypher_ast_case_get_value(n, i), K_EXPRESSION); } F_past(cypher_ast_case_get_predicate(n, c) == NULL && cypher_ast_case_get_value(n, c) == NULL); }')
            elif k=='coll': b.append('{ unsigned c = cypher_ast_collection_length(n); F_seq("element", c); for (unsigned i = 0; i < c; i++) F_elt(cypher_ast_collection_get(n, i), K_EXPRESSION); F_past(cypher_ast_collection_get(n, c) == NULL && cypher_ast_collection_get(n, ~0u) == NULL); }')
            elif k=='map': b.append('{ unsigned c = cypher_ast_map_nentries(n); F_seq("entry", c); for (unsigned i = 0; i < c; i++) { F_elt(cypher_ast_map_get_key(n, i), K_PROP_NAME); F_elt(cypher_ast_map_get_value(n, i), K_EXPRESSION); } F_past(cypher_ast_map_get_key(n, c) == NULL && cypher_ast_map_get_value(n, c) == NULL); }')
            elif k=='dir': b.append('F_dir(cypher_ast_rel_pattern_get_direction(n));')
            else: raise SystemExit(f)
        if b: o.append('case K_%s:\n  %s\n  break;'%(t,'\n  '.join(b)))
    o+=['} }','']
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','dump_table.h'),'w').write('\n'.join(o))
