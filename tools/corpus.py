"""Templates: texts with holes. A hole stands for every byte of a class at once (a symbolic byte for the engine)."""
import re
ANY = set(range(256))
def cset(s):
    out, i = set(), 0
    while i < len(s):
        if i + 2 < len(s) and s[i+1] == '-': out |= set(range(ord(s[i]), ord(s[i+2]) + 1)); i += 3
        else: out.add(ord(s[i])); i += 1
    return out
CL = {'*': ANY, 'n': ANY - {0}, 'p': set(range(32, 127)), 'w': cset(' \t\n'), 'id': cset('a-zA-Z0-9_$'), 'is': cset('a-zA-Z_'), 'd': cset('0-9'), 'l': cset('a-z'),
      'f': set(range(1, 256)) - cset('a-zA-Z0-9_$')}
def hexdom(S):
    return ''.join('%x' % sum(1 << k for k in range(4) if 4 * i + k in S) for i in range(64))
HANY = hexdom(ANY)
def T(s):
    """-> list of int | hex domain (one byte each)"""
    out = []
    for part in re.split(r'(⟦[^⟧]*⟧)', s):
        if not part.startswith('⟦'): out += list(part.encode('latin-1')); continue
        b = part[1:-1]
        if b.startswith('kw:'):
            for c in b[3:]: out.append(hexdom({ord(c.lower()), ord(c.upper())}) if c.isalpha() else ord(c))
        elif b.startswith('='): out.append(hexdom(cset(b[1:])))
        elif b.startswith('^'): out.append(hexdom(ANY - cset(b[1:]) - {0}))
        else:
            m = re.match(r'(\*|[a-z]+)(\d*)$', b); out += [hexdom(CL[m.group(1)])] * int(m.group(2) or 1)
    return out
def plain(s): return s.encode('latin-1')
def sub(s, i, k=1): "the text with k bytes from i replaced by free bytes"; t = list(plain(s)); return t[:i] + [HANY] * k + t[i+k:]
def ins(s, i, k=1): t = list(plain(s)); return t[:i] + [HANY] * k + t[i:]
def trunc(s, i, k=0): t = list(plain(s)); return t[:i] + [HANY] * k
# every construct of the language, in short statements
STMTS = [
 # statement options
 "CYPHER RETURN 1;", "CYPHER 2.3 RETURN 1;", "CYPHER 3.0 planner=cost runtime=x RETURN 1;", "EXPLAIN RETURN 1;", "PROFILE MATCH (n) RETURN n;", "CYPHER 2.2 p=q EXPLAIN RETURN 1;",
 # schema commands
 "CREATE INDEX ON :Foo(bar);", "CREATE INDEX ON :Foo(bar, baz);", "DROP INDEX ON :Foo(bar);", "DROP INDEX ON :F(b, c);",
 "CREATE CONSTRAINT ON (n:Foo) ASSERT n.bar IS UNIQUE;", "CREATE CONSTRAINT ON (n:Foo) ASSERT exists(n.bar);", "DROP CONSTRAINT ON (n:Foo) ASSERT n.bar IS UNIQUE;", "DROP CONSTRAINT ON (n:Foo) ASSERT exists(n.bar);",
 "CREATE CONSTRAINT ON ()-[r:REL]-() ASSERT exists(r.bar);", "CREATE CONSTRAINT ON ()<-[r:REL]-() ASSERT exists(r.b);", "DROP CONSTRAINT ON ()-[r:REL]->() ASSERT exists(r.bar);",
 # query options and clauses
 "USING PERIODIC COMMIT LOAD CSV FROM 'u' AS l CREATE ();", "USING PERIODIC COMMIT 50 LOAD CSV WITH HEADERS FROM 'u' AS l FIELDTERMINATOR '|' RETURN l;",
 "LOAD CSV FROM 'u' AS l FIELDTERMINATOR ';' RETURN l;",
 "START n=node(1) RETURN n;", "START n=node(*) RETURN n;", "START n=node(1, 2, 3) WHERE n.a RETURN n;", "START n=node:idx(k='v') RETURN n;", "START n=node:idx(k={p}) RETURN n;", "START n=node:idx('k:v') RETURN n;", "START n=node:idx($q) RETURN n;",
 "START r=rel(7) RETURN r;", "START r=relationship(4, 5) RETURN r;", "START r=rel(*) RETURN r;", "START r=rel:idx(k='v') RETURN r;", "START r=relationship:idx('q') RETURN r;", "START a=node(1), b=rel(2) RETURN a;",
 "MATCH (n) RETURN n;", "OPTIONAL MATCH (n) WHERE n.x = 1 RETURN n;", "MATCH (n:A:B {x: 1}) RETURN n;", "MATCH (n {p}) RETURN n;", "MATCH (:A)-->()<--(b)--(c)<-->(d) RETURN b;",
 "MATCH (a)-[r]->(b), (c)<-[:R]-(d) RETURN r;", "MATCH (a)-[r:A|B|:C]-(b) RETURN r;", "MATCH (a)<-[r:A*2..3 {x: 1}]->(b) RETURN r;", "MATCH (a)-[*]->(b)-[*5]->(c)-[*..4]->(d)-[*3..]->(e) RETURN a;", "MATCH p=(a)-->(b) RETURN p;",
 "MATCH p=shortestPath((a)-[*]->(b)) RETURN p;", "MATCH allShortestPaths((a)-[:R*]-(b)) RETURN a;", "MATCH (n:A) USING INDEX n:A(x) WHERE n.x = 1 RETURN n;", "MATCH (n:A), (m) USING JOIN ON n, m USING SCAN n:A RETURN n;",
 "MERGE (n) ON MATCH SET n.a = 1 ON CREATE SET n.b = 2, n:C;", "MERGE p=(a)-[:R]->(b) RETURN p;",
 "CREATE (n:A {x: 1, y: 'z'});", "CREATE UNIQUE (a)-[:R]->(b);", "CREATE (a), (b);",
 "MATCH (n) SET n.x = 1, n = m, n += {a: 1}, n:A:B, n.y.z = 2;", "MATCH (n) DELETE n, m;", "MATCH (n) DETACH DELETE n;", "MATCH (n) REMOVE n.x, n:A:B;",
 "FOREACH (x IN [1, 2] | CREATE (n) SET n.x = x);", "WITH 1 AS a RETURN a;", "WITH DISTINCT a AS b, c ORDER BY a SKIP 1 LIMIT 2 WHERE a RETURN b;", "WITH *, 1 AS x WHERE x > 0 RETURN x;", "WITH DISTINCT * RETURN 1;",
 "UNWIND [1, 2] AS x RETURN x;", "CALL a.b.c;", "CALL f(1, x) YIELD a, b AS c WHERE a > 1 RETURN c;", "CALL f() YIELD - RETURN 1;",
 "RETURN *;", "RETURN DISTINCT *, 1 AS b ORDER BY b DESC, c ASC, d SKIP 5 LIMIT 6;", "RETURN DISTINCT a, b.c AS d;", "RETURN a ORDER BY a ASCENDING, b DESCENDING;", "RETURN 1 UNION RETURN 2;", "RETURN 1 UNION ALL RETURN 2;",
 # expressions
 "RETURN a OR b XOR c AND NOT d;", "RETURN a = b <> c;", "RETURN 1 < a <= 2 > b >= 3;", "RETURN a + b - c * d / e % f ^ g;", "RETURN -a + +b;", "RETURN a =~ 'x' AND b IN [1] AND c STARTS WITH 'd';", "RETURN a ENDS WITH b OR c CONTAINS d;",
 "RETURN a IS NULL, b IS NOT NULL;", "RETURN a.b.c[0][1..2][..3][4..];", "RETURN n:A:B, (n).x;", "RETURN n{.x, y: 1, z, .*};", "RETURN n{};",
 "RETURN count(*), count(DISTINCT *), f(), g(DISTINCT a, b), a.b.f(1);",
 "RETURN [x IN l WHERE x > 1 | x * 2];", "RETURN [x IN l], [x IN l | x], [x IN l WHERE x];", "RETURN [(a)-->(b) WHERE b.x | b.y];", "RETURN [p=(a)-->(b) | p];",
 "RETURN CASE x WHEN 1 THEN 'a' WHEN 2 THEN 'b' ELSE 'c' END;", "RETURN CASE WHEN x THEN 1 END;",
 "RETURN filter(x IN l WHERE x), extract(x IN l | x.y);", "RETURN reduce(a = 0, x IN l | a + x);", "RETURN all(x IN l WHERE x), any(x IN l WHERE x);", "RETURN single(x IN l WHERE x), none(x IN l WHERE x);",
 "RETURN [], [1, 'a'], {}, {a: 1, b: {c: 2}};", "RETURN 'a\\n\\'b', \"c\\\"d\", '';", "RETURN 1, 01, 0x1F, 1.5, .5, 1e10, 1.2E-3, 7a;", "RETURN true, FALSE, null, $p, {q}, $1, $`x y`;", "RETURN `a b`, _x1, a$b;",
 "MATCH (a) WHERE (a)-->() AND NOT (a)<-[:R]-(:B) RETURN shortestPath((a)-->(b));",
 # comments and commands
 "RETURN /* c */ 1 // d\n;", "// x\nRETURN 1;", ":help\n", ":set a 'b c' \"d\";", ":play \\\n x;", ":a /*b*/ c // d\n", "", ";", " ;;\n RETURN 1; ", "RETURN 1", "RETURN 1;\nRETURN 2;",
]
# broken inputs (error recovery)
BAD = ["RETURN ;", "RETRUN 1; RETURN 2;", "MATCH (n RETURN n;", "MATCH (n) FOO n RETURN n;", "CREATE INDEX Foo(b);", "RETURN 'abc", "RETURN /* abc", "RETURN 1 +", "RETURN `abc", "MATCH (n)\n WHER n.x\n RETURN n;", ":\nRETURN 1;", "x\n\n\n", "RETURN a b c;\nMATCH (n) RETURN n;", "CYPHER x RETURN 1;", "FOREACH (x IN l CREATE (n));", "RETURN {a: };", "USING PERIODIC COMMIT;", "RETURN [1, 2;", "RETURN f(;", "CASE", "\\"]

# many of everything: more than the 8, 16 or 32 that are set aside at first, and more text than is buffered at first
def seq0(n, f, sep): return sep.join(f.replace('%', str(i)) for i in range(1, n + 1))
def of_many(many):
 def seq(n, f, sep): return seq0(n if many is None else max(n, many), f, sep)
 return [
 "RETURN [" + seq(17, '%', ',') + "];", "RETURN {" + seq(9, 'k%: %', ', ') + "};", "RETURN " + seq(17, 'a% AS b%', ', ') + " ORDER BY " + seq(9, 'b% DESC', ', ') + ";", "RETURN f(" + seq(9, 'a%', ', ') + ");", "RETURN " + seq(17, 'a%', '+') + ";", "RETURN " + seq(10, 'a%', ' < ') + ";",
 "RETURN " + seq(9, 'a%', ' ^ ') + " OR " + seq(9, 'a%', ' AND ') + ";", "RETURN a" + seq(9, '.p%', '') + seq(9, '[%]', '') + ";", "RETURN n" + seq(9, ':L%', '') + ";", "RETURN n{" + seq(9, '.p%', ', ') + "};", "RETURN CASE x " + seq(9, 'WHEN % THEN b%', ' ') + " ELSE c END;", "RETURN [[[[1]]]], {a: {b: {c: {}}}};",
 "MATCH (n" + seq(9, ':L%', '') + " {" + seq(9, 'k%: %', ', ') + "})-[r" + ':' + seq(9, 'R%', '|') + "]->() RETURN n;", "MATCH " + seq(9, '(n%)', ', ') + " RETURN 1;", "MATCH (n0)" + seq(9, '-->(n%)', '') + " RETURN 1;", "MATCH (n:A) " + seq(9, 'USING INDEX n:A(p%)', ' ') + " RETURN n;", "MATCH (n:A) USING JOIN ON " + seq(9, 'n%', ', ') + " RETURN n;",
 seq(9, 'MATCH (n%)', ' ') + " RETURN 1;", seq(9, 'RETURN %', ' UNION ') + ";", "MATCH (n) SET " + seq(9, 'n.p% = %', ', ') + ";", "MATCH (n) SET n" + seq(9, ':L%', '') + ";", "MATCH (n) REMOVE " + seq(9, 'n.p%', ', ') + ", n" + seq(9, ':M%', '') + ";", "MATCH (n) DELETE " + seq(9, 'n%', ', ') + ";", "MERGE (n) " + seq(9, 'ON MATCH SET n.p% = %, n.q% = 1', ' ') + ";",
 "FOREACH (x IN l | " + seq(9, 'CREATE (n%)', ' ') + ");", "START " + seq(9, 'n%=node(%)', ', ') + " RETURN 1;", "START n=node(" + seq(9, '%', ', ') + "), r=rel(" + seq(9, '%', ', ') + ") RETURN n;", "CALL p(" + seq(9, '%', ', ') + ") YIELD " + seq(9, 'y%', ', ') + " RETURN 1;", "CYPHER " + seq(9, 'p%=v%', ' ') + " RETURN 1;", "WITH " + seq(9, '% AS a%', ', ') + " RETURN 1;",
 "CREATE INDEX ON :L(" + seq(9, 'p%', ', ') + ");", "DROP INDEX ON :L(" + seq(9, 'p%', ', ') + ");", ":cmd " + seq(9, 'a%', ' ') + "\n", ":c 'it''s' \"" + 'q' * 40 + "\" \\\n x;\nRETURN 1;",
 seq(9, '/*%*/', ' ') + " RETURN 1" + seq(9, '//%\n', '') + ";", seq(18, 'RETURN %;', ''), seq(9, ':c%\n', ''), seq(10, 'RETRUN %;', '\n'), "RETURN 1" + ' ' * 300 + '\n' * 40 + ", x" + ' ' * 300 + "/* " + 'c' * 500 + " */ ;RETURN 2;", "RETURN '" + 's' * 1100 + "', `" + 'i' * 300 + "`;RETURN x", "RETURN \"" + "\\t" * 40 + "\";", "MATCH (n)\n" * 12 + "RETURN n;\nRETURN x y", "".join("RETURN" + " x" * (2 + i * 5 % 13) + (";", ";\n", "; ")[i % 3] for i in range(24)), "MATCH (n" + " FOO" * 12 + ";\n" + "".join(" " * i + "x y;\n" for i in range(14)),
]
MANY = of_many(None)
# more than counters of 8 bits hold
LARGE = [t for t in of_many(300) if len(t) > 1200] + ["RETURN 1" + '\n' * 300 + "+ x;", "RETURN 1;" + '\r\n' * 280 + "RETURN x y", "RETURN 1 /*" + 'c\n' * 300 + "*/ AS x;\nRETURN y;", "/**/" * 280 + "RETURN 1;", "RETURN '" + "\\n\\'" * 200 + "';", "RETURN " + '(' * 3 + "1" + ')' * 3 + " IN" + ' ' * 700 + "x y z;", "RETURN f" + '.g' * 300 + "(1);", "MATCH (n) WHERE n.x = 1" + " OR n.y = 2 AND n.z" * 150 + " RETURN n;", "RETURN a" + " < b" * 260 + ";", ":cmd" + " x" * 300 + " '" + 'q' * 300 + "'\nRETURN 1;"]
# more than counters of 16 bits hold
HUGE = [";\n" * 66000 + "RETURN x y;", "RETURN 1 /*" + ' ' * 66000 + "*/+ 2;\nRETURN x", "RETURN '" + 'a' * 66000 + "' AS x;", ';' * 66000 + "RETURN x", "RETURN `" + 'a' * 66000 + "`;", "/*" + 'a\n' * 33000 + "*/ RETURN 1;", "//" + 'c' * 66000 + "\nRETURN 1;RETURN x y", ":cmd '" + 'q' * 66000 + "' x\nRETURN 1;", "FOO" + 'x' * 66000 + ";RETURN 1;"]
# tokens, for inserting white space and changing the case of keywords
TOK = re.compile(r"""(?P<ws>\s+)|(?P<com>/\*.*?\*/|//[^\n]*)|(?P<str>'(?:\\.|[^'\\])*'|"(?:\\.|[^"\\])*")|(?P<bt>`[^`]*`)|(?P<num>[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|\.[0-9]+|[0-9]+[eE][-+]?[0-9]+|[0-9][A-Za-z0-9_$]*)|(?P<word>[A-Za-z_][A-Za-z0-9_$]*)|(?P<sym><>|<=|>=|=~|\+=|\.\.|.)""", re.S)
def tokens(s):
    "-> [(kind, text, offset)]"
    return [(m.lastgroup, m.group(), m.start()) for m in TOK.finditer(s)]
def is_cmd(s): return any(p.lstrip().startswith(':') for p in s.split('\n'))
WORDS_LC = {'node', 'rel', 'relationship', 'shortestPath', 'allShortestPaths', 'exists', 'filter', 'extract', 'reduce', 'all', 'any', 'single', 'none', 'true', 'null', 'false'}
def keyworded(s):
    "the statement with both cases of every letter of its keywords, or None"
    o, k = '', 0; ts = tokens(s)
    for i, (g, t, _) in enumerate(ts):
        if g == 'word' and (len(t) > 1 and t.isupper() and t != 'REL' or t in WORDS_LC) and not (i and ts[i-1][1] in ('$', '.', ':')): o += '⟦kw:%s⟧' % t; k += 1
        else: o += t
    return o if k else None
def boundaries(s):
    "-> [(text before, text after, blank required, only blanks allowed)] for every place where white space or a comment may stand"
    ts = tokens(s); out = []; opt = bool(re.match(r'CYPHER\b', s)); prev = None; inopt = opt
    n = len(ts); i = 0
    cut = [(0 if ts and ts[0][0] != 'ws' else None)]
    pos = 0; res = []
    for i, (g, t, o) in enumerate(ts):
        if inopt and g == 'word' and t in ('RETURN', 'EXPLAIN', 'PROFILE', 'MATCH'): inopt = False
        if g == 'ws':
            a = ts[i-1] if i else None; b = ts[i+1] if i + 1 < n else None
            if a and a[0] == 'com' and a[1].startswith('//'): continue
            res.append((s[:o], s[o + len(t):], True, bool(opt and a and i >= 2 and ts[i-2][1] == '=')))
        else:
            if i and ts[i-1][0] == 'ws': continue
            if i and ts[i-1][0] == 'com' and ts[i-1][1].startswith('//'): continue
            p = ts[i-1][1] if i else ''
            if i and inopt and (p == '=' or t == '='): continue
            res.append((s[:o], s[o:], False, False))
    if ts and ts[-1][0] not in ('ws', 'com'): res.append((s, '', False, False))
    return res
def dense(s, filler, skip=()):
    "every place filled at once"
    bs = boundaries(s); out, last = '', 0
    for k, (a, b, req, only) in enumerate(bs):
        out += s[last:len(a)]; out += (' ' if a.endswith('/') and filler.startswith('/') else '') + (' ' if only and '/' in filler else filler); last = len(s) - len(b)
    return out + s[last:]
