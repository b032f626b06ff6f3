#!/usr/bin/env python3
"""Generates harness/ctor_table.h: every constructor of the API with the documented kinds of its arguments.
The table is written from the documentation in cypher-parser.h.
  n: a mandatory node of one of the kinds, o: an optional one, v<min>: an array and its count, b: a flag, op: an operator, s: a text and its length, dir: a direction,
  d<min>: an array of twice the count. After '>' the order in which the accessors are visited, if it is not that of the arguments."""
import os
EX = 'EXPRESSION'
T = '''
statement : v0 STATEMENT_OPTION, n QUERY|SCHEMA_COMMAND
cypher_option : o STRING, v0 CYPHER_OPTION_PARAM
cypher_option_param : n STRING, n STRING
explain_option :
profile_option :
create_node_props_index : n LABEL, v1 PROP_NAME
drop_node_props_index : n LABEL, v1 PROP_NAME
create_node_prop_constraint : n IDENTIFIER, n LABEL, n EXPRESSION, b
drop_node_prop_constraint : n IDENTIFIER, n LABEL, n EXPRESSION, b
create_rel_prop_constraint : n IDENTIFIER, n RELTYPE, n EXPRESSION, b
drop_rel_prop_constraint : n IDENTIFIER, n RELTYPE, n EXPRESSION, b
query : v0 QUERY_OPTION, v1 QUERY_CLAUSE
using_periodic_commit : o INTEGER
load_csv : b, n EXPRESSION, n IDENTIFIER, o STRING
start : v1 START_POINT, o EXPRESSION
node_index_lookup : n IDENTIFIER, n INDEX_NAME, n PROP_NAME, n STRING|PARAMETER
node_index_query : n IDENTIFIER, n INDEX_NAME, n STRING|PARAMETER
node_id_lookup : n IDENTIFIER, v1 INTEGER
all_nodes_scan : n IDENTIFIER
rel_index_lookup : n IDENTIFIER, n INDEX_NAME, n PROP_NAME, n STRING|PARAMETER
rel_index_query : n IDENTIFIER, n INDEX_NAME, n STRING|PARAMETER
rel_id_lookup : n IDENTIFIER, v1 INTEGER
all_rels_scan : n IDENTIFIER
match : b, n PATTERN, v0 MATCH_HINT, o EXPRESSION
using_index : n IDENTIFIER, n LABEL, n PROP_NAME
using_join : v1 IDENTIFIER
using_scan : n IDENTIFIER, n LABEL
merge : n PATTERN_PATH, v0 MERGE_ACTION
on_match : v1 SET_ITEM
on_create : v1 SET_ITEM
create : b, n PATTERN
set : v1 SET_ITEM
set_property : n PROPERTY_OPERATOR, n EXPRESSION
set_all_properties : n IDENTIFIER, n EXPRESSION
merge_properties : n IDENTIFIER, n EXPRESSION
set_labels : n IDENTIFIER, v1 LABEL
delete : b, v1 EXPRESSION
remove : v1 REMOVE_ITEM
remove_labels : n IDENTIFIER, v1 LABEL
remove_property : n PROPERTY_OPERATOR
foreach : n IDENTIFIER, n EXPRESSION, v1 QUERY_CLAUSE
with : b, b, v0 PROJECTION, o ORDER_BY, o EXPRESSION, o EXPRESSION, o EXPRESSION
unwind : n EXPRESSION, n IDENTIFIER
call : n PROC_NAME, v0 EXPRESSION, v0 PROJECTION, o EXPRESSION
return : b, b, v0 PROJECTION, o ORDER_BY, o EXPRESSION, o EXPRESSION
projection : n EXPRESSION, o IDENTIFIER
order_by : v1 SORT_ITEM
sort_item : n EXPRESSION, b
union : b
unary_operator : op, n EXPRESSION
binary_operator : op, n EXPRESSION, n EXPRESSION
comparison : cmp
apply_operator : n FUNCTION_NAME, b, v0 EXPRESSION
apply_all_operator : n FUNCTION_NAME, b
property_operator : n EXPRESSION, n PROP_NAME
subscript_operator : n EXPRESSION, n EXPRESSION
slice_operator : n EXPRESSION, o EXPRESSION, o EXPRESSION
map_projection : n EXPRESSION, v0 MAP_PROJECTION_SELECTOR
map_projection_literal : n PROP_NAME, n EXPRESSION
map_projection_property : n PROP_NAME
map_projection_identifier : n IDENTIFIER
map_projection_all_properties :
labels_operator : n EXPRESSION, v1 LABEL
list_comprehension : n IDENTIFIER, n EXPRESSION, o EXPRESSION, o EXPRESSION
filter : n IDENTIFIER, n EXPRESSION, o EXPRESSION > 0 1 2 -
extract : n IDENTIFIER, n EXPRESSION, o EXPRESSION > 0 1 - 2
all : n IDENTIFIER, n EXPRESSION, o EXPRESSION > 0 1 2 -
any : n IDENTIFIER, n EXPRESSION, o EXPRESSION > 0 1 2 -
single : n IDENTIFIER, n EXPRESSION, o EXPRESSION > 0 1 2 -
none : n IDENTIFIER, n EXPRESSION, o EXPRESSION > 0 1 2 -
pattern_comprehension : o IDENTIFIER, n PATTERN_PATH, o EXPRESSION, n EXPRESSION
reduce : n IDENTIFIER, n EXPRESSION, n IDENTIFIER, n EXPRESSION, o EXPRESSION
case : o EXPRESSION, d0 EXPRESSION/EXPRESSION, o EXPRESSION
collection : v0 EXPRESSION
map : map
pair_map=MAP : d0 PROP_NAME/EXPRESSION
identifier : s
parameter : s
string : s
integer : s
float : s
true :
false :
null :
label : s
reltype : s
prop_name : s
function_name : s
index_name : s
proc_name : s
pattern : v1 PATTERN_PATH
named_path : n IDENTIFIER, n PATTERN_PATH
shortest_path : b, n PATTERN_PATH
pattern_path : pp
node_pattern : o IDENTIFIER, v0 LABEL, o MAP|PARAMETER
rel_pattern : dir, o IDENTIFIER, v0 RELTYPE, o MAP|PARAMETER, o RANGE > 0 1 2 4 3
range : o INTEGER, o INTEGER
command : n STRING, v0 STRING
line_comment : s
block_comment : s
error : s
'''
NOKIDS = {'explain_option', 'profile_option', 'true', 'false', 'null', 'identifier', 'parameter', 'string', 'integer', 'float', 'label', 'reltype', 'prop_name', 'function_name', 'index_name', 'proc_name', 'line_comment', 'block_comment', 'error'}
ctors = []
for l in T.strip().split('\n'):
    h, a = [x.strip() for x in l.split(':')]; name, kind = (h.split('=') + [None])[:2]; kind = kind or name.upper()
    a, order = [x.strip() for x in (a + ' >').split('>')[:2]]
    args = [x.split() for x in a.split(',') if x.strip()]
    ctors.append((name, kind, args, order.split() or [str(i) for i in range(len(args))]))
CIDX = {c[0]: i for i, c in enumerate(ctors)}
def slots(name):
    """the node arguments that can be varied: (argument, is a list)"""
    out = []
    for i, a in enumerate(ctors[CIDX[name]][2]):
        if a[0] in ('n', 'o'): out.append((i, 0))
        elif a[0] != 'dir' and a[0][0] in 'vd' or a[0] in ('cmp', 'map', 'pp'): out.append((i, 1))
    return out
if __name__ == '__main__':
    o = ['/* generated by tools/gen_ctor.py */', 'static const char *const cname[] = { ' + ', '.join('"%s"' % c[0] for c in ctors) + ' };', 'static void describe(int c) { switch (c) {']
    for i, (n, k, args, order) in enumerate(ctors):
        b = ['C.kind = K_%s;' % k]
        for a in args:
            t = [x.split('|') for x in (a[1].split('/') if len(a) > 1 else [])]
            if a[0] in ('n', 'o'): b.append('arg(%r, 0, K_%s, K_%s, -1);' % (a[0], t[0][0], t[0][-1]))
            elif a[0][0] == 'v': b.append("arg('v', %s, K_%s, K_%s, -1);" % (a[0][1:], t[0][0], t[0][0]))
            elif a[0][0] == 'd' and a[0] != 'dir': b.append("arg('d', %s, K_%s, K_%s, K_%s);" % (a[0][1:], t[0][0], t[0][0], t[1][0]))
            elif a[0] == 'cmp': b.append("arg('c', 1, K_EXPRESSION, K_EXPRESSION, -1);")
            elif a[0] == 'map': b.append("arg('m', 0, K_PROP_NAME, K_PROP_NAME, K_EXPRESSION);")
            elif a[0] == 'pp': b.append("arg('p', 1, K_NODE_PATTERN, K_NODE_PATTERN, K_REL_PATTERN);")
            else: b.append("arg('%s', 0, -1, -1, -1);" % {'b': 'b', 's': 's', 'op': 'x', 'dir': 'r'}[a[0]])
        b.append('{ static const int o[] = { %s }; C.order = o; C.norder = %d; }' % (', '.join('-1' if x == '-' else x for x in order) or '0', len(order)))
        o.append('case %d: %s break;' % (i, ' '.join(b)))
    o += ['} }', 'static cypher_astnode_t *construct(int c) { struct a *A = C.a; (void)A; switch (c) {']
    for i, (n, k, args, order) in enumerate(ctors):
        x = []
        for j, a in enumerate(args):
            v = 'A[%d]' % j
            if a[0] in ('n', 'o'): x.append(v + '.v[0]')
            elif a[0][0] in 'vd' and a[0] != 'dir': x += [v + '.v', v + '.n']
            elif a[0] == 'pp': x += [v + '.v', v + '.n']
            elif a[0] == 'cmp': x += [v + '.n', v + '.ops', v + '.v']
            elif a[0] == 'map': x += [v + '.v', v + '.w', v + '.n']
            elif a[0] == 'b': x.append(v + '.flag')
            elif a[0] == 's': x += [v + '.s', v + '.n']
            elif a[0] == 'op': x.append(v + '.ops[0]')
            elif a[0] == 'dir': x.append('(enum cypher_rel_direction)%s.flag' % v)
        if n not in NOKIDS: x += ['C.kids', 'C.nkids']
        else: o.append('/* no children */')
        o.append('case %d: return cypher_ast_%s(%s);' % (i, n, ', '.join(x + ['C.range'])))
    o += ['} return NULL; }', '#define NCTOR %d' % len(ctors), 'static int nokids(int c) { switch (c) { %s return 1; } return 0; }' % ' '.join('case %d:' % CIDX[n] for n in sorted(NOKIDS)), '']
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'ctor_table.h'), 'w').write('\n'.join(o))
