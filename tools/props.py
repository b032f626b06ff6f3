"""Per property: harnesses, symbolic jobs per tier, bounds."""
import corpus, re
from corpus import T, STMTS, BAD, MANY, LARGE, HUGE, sub, ins, trunc, HANY, hexdom, cset, ANY, plain
ASSUME = ['the C library is represented by harness/minilibc.c (symbolic side); every sampled path model is re-run against the real C library',
          'clang 18 IR of the sources (no optimisation beyond SROA/CSE/instcombine) stands for the compiled code', 'Z3 is sound; single-byte verdicts are cross-checked against truth tables']
PROPS = {}
B1 = ('quick: a seeded share of the sites below, each statement form getting some; free inputs of 2 bytes and 1 free byte after each of 10 prefixes', 'thorough: every statement form of the corpus (about 130, at most 110 bytes each), one free byte replaced/inserted/appended at every position; free inputs of 3 bytes and 2 free bytes after each prefix')
def J(name, entry, params, *texts, **kw): return dict(name=name, entry=entry, params=[int(p) for p in params], texts=[t if isinstance(t, list) else T(t) for t in texts], **kw)
def show(t): return ''.join(chr(x) if isinstance(x, int) else '?' if x == HANY else '¿' for x in t)
def sites(tier, rnd, stmts, quick, two=False):
    "every (statement, position) with a free byte replacing, inserted or ending; quick keeps a share of them"
    out = []
    for s in stmts:
        n = len(s)
        for i in range(n): out.append((s, 'sub', i))
        for i in range(n + 1): out.append((s, 'ins', i))
        for i in range(1, n): out.append((s, 'trunc', i))
    rnd.shuffle(out)
    if tier == 'thorough': return out
    # quick: every statement gets its share
    by = {}
    for x in out: by.setdefault(x[0], []).append(x)
    k, pick = max(1, -(-quick // max(1, len(by)))), []
    for i in range(k): pick += [v[i] for v in by.values() if i < len(v)]
    return pick[:quick] if quick >= len(by) else pick
def mk(s, how, i): return {'sub': sub, 'ins': ins, 'trunc': trunc}[how](s, i) if how != 'trunc' else trunc(s, i, 1)
def hole_jobs(tier, rnd, entry, params, quick, stmts=STMTS + BAD, **kw):
    js = []
    for s, how, i in sites(tier, rnd, stmts, quick): t = mk(s, how, i); js.append(J('%s %s@%d %s' % (entry, how, i, show(t)), entry, params, t, **kw))
    return js
def free_jobs(entry, params, n, pre=('',), **kw): return [J('%s free %s+%d' % (entry, p, n), entry, params, T(p) + [HANY] * n, **kw) for p in pre]
def P(pid, **kw): PROPS[pid] = kw

FREE1 = ['', 'RETURN ', "RETURN '", 'MATCH (n', ':c ', '/*', '//', 'RETURN 1;', 'RETURN `', 'RETURN 1\n', 'CREATE ']
def long_jobs(tier, rnd, entry, params, k=1, large=1, **kw):
    js = []
    for s in MANY:
        n = len(s); kk = k if tier == 'quick' else 12; kk = kk if n < 800 else max(1, kk // 6)
        for j in range(kk):
            i = rnd.randrange(n + 1); how = 'ins' if i == n else rnd.choice(['sub', 'ins', 'ins', 'trunc']) if i else 'ins'
            if rnd.random() < .3: i, how = n, 'ins'
            t = mk(s, how, i); js.append(J('%s long %s@%d %s' % (entry, how, i, show(t)[:60]), entry, params, t, maxsteps=600000000, **kw))
    q = tier == 'quick'
    for l, c in ((LARGE, int(3 * large) if q else len(LARGE)), (HUGE, int(large) if q else len(HUGE))):
        for s in rnd.sample(l, min(c, len(l))):
            n = len(s); i = rnd.choice([n, n - 1, n - 2, n - 3, rnd.randrange(n)]); how = 'ins' if i == n else rnd.choice(['sub', 'ins', 'trunc']); t = mk(s, how, i); js.append(J('%s large %s@%d %s...' % (entry, how, i, show(t)[:40]), entry, params, t, maxsteps=10**12, cap=20 if q else 100, **kw))
    if large:
        # each of them once as good as whole: a free letter for a small letter, a free digit for a digit, or a free blank for a blank
        for s in rnd.sample(LARGE, int(len(LARGE) * large)) if q else LARGE:
            for cl in rnd.sample(('[a-z]', '[0-9]', '[ \\n]'), 3):
                at = [m.start() for m in re.finditer(r'(?<![A-Za-z])%s(?![A-Za-z])' % cl, s)]
                if at: i = rnd.choice(at); t = T(s[:i]) + [hexdom({c for c in range(256) if re.match(cl, chr(c))})] + T(s[i+1:]); break
            else: t = T(s)
            js.append(J('%s large whole %s...' % (entry, s[:40]), entry, params, t, maxsteps=10**12, cap=20 if q else 100, **kw))
    return js
def std(entry, params, quick, pre=2, stmts=STMTS + BAD, also=None, longs=1, large=1, **kw):
    def f(tier, rnd, b):
        js = long_jobs(tier, rnd, entry, params, longs, large, **kw) if longs else []
        js += [J(entry + ' nothing', entry, params, [], **kw)] + free_jobs(entry, params, pre + (tier == 'thorough'), **kw) + free_jobs(entry, params, 1 + (tier == 'thorough'), FREE1[1:], **kw)
        if also: js += also(tier, rnd, b)
        return js + hole_jobs(tier, rnd, entry, params, quick, stmts, **kw)
    return f
def many(*fs):
    def f(tier, rnd, b):
        # parts take their turns, so that each gets its share of the time; shorter ones come first
        parts = [g(tier, rnd, b) for g in fs]; m = max(map(len, parts))
        keyed = [((i + .5) / len(js) * (.6 + .4 * len(js) / m), n, i, j) for n, js in enumerate(parts) for i, j in enumerate(js)]
        return [x[3] for x in sorted(keyed, key=lambda x: x[:3])]
    return f
P('P01', h=['h_core', 'h_print'], jobs=many(std('safe', [15, 80, 0], 700), lambda *a: edge(*a)), bounds=B1, reach=['done', 'edge'])
P('P02', h=['h_core'], jobs=std('leaks', [15], 700), bounds=B1, reach=['done'])
P('P03', h=['h_core'], jobs=std('ranges', [0], 1300), bounds=B1, reach=['tree'])
P('P04', h=['h_core'], jobs=std('tiles', [0], 1300), bounds=B1, reach=['segment'])
P('P05', h=['h_eq'], jobs=many(std('stream', [0], 330, 1, large=.5), std('string', [0], 40, 1, longs=0)), bounds=B1, reach=['compared'])
P('P06', h=['h_eq'], jobs=std('each', [0], 800), bounds=B1, reach=['compared'])
P('P07', h=['h_eq'], jobs=std('resume', [0], 700), bounds=B1, reach=['compared'])
P('P08', h=['h_eq'], jobs=many(std('translate', [0], 220, 1, large=.1), std('translate', [0, 1], 30, 0, longs=0), std('translate', [0, 4], 30, 0, longs=0), std('ordshift', [97], 150, 1, longs=0)), bounds=B1, reach=['compared', 'error'])
P('P09', h=['h_core'], jobs=many(std('ordinals', [0], 700), *[std('ordinals', [k], 40, 0, longs=0) for k in (250, 65530, 999990, 2147483640)]), bounds=(B1[0]+'; also from first ordinals 250, 65530, 999990 and 2147483640', B1[1]), reach=['segment'])
P('P10', h=['h_core'], jobs=std('types', [0], 1000), bounds=B1, reach=['tree'])
P('P11', h=['h_eq'], jobs=many(std('cloned', [0], 520), std('cloned', [1], 120, 1, large=.25), std('cloned', [2], 60, 1, longs=0)), bounds=B1, reach=['clone'])
P('P24', h=['h_eq'], jobs=many(*[std('callback', [0, rc], 200, 1, longs=rc == 1, large=.5) for rc in (1, -1, -7, 5)]), bounds=B1, reach=['stopped'])

# ---- P15
SYM = '==<>+*/%^-'
OPS2 = ['⟦%s⟧⟦= =<>~⟧' % SYM, ' ⟦kw:or⟧ ', ' ⟦kw:xor⟧ ', ' ⟦kw:and⟧ ', ' ⟦kw:in⟧ ', ' ⟦kw:contains⟧ ', ' ⟦kw:starts⟧ with ', ' ends ⟦kw:with⟧ ', '=~']
PRE = ['', 'NOT ', '-', '+']; POST = ['', ' IS NULL', ' IS NOT NULL', '.x', '[0]', '[1..2]', ':L', '[..2]', '[1..]']
def lc(s): return re.sub(r'⟦kw:(\w+)⟧', r'\1', s)
import re
EXPRS = ['a+b*c^d', 'NOT a=b AND c', '-a^b.c[1]', 'a IS NULL OR b', 'a<b<=c=d', 'a=~b+c', 'a IN b.c XOR d', 'a[b..c][d]', '(a OR b)*c', 'a-b-c', 'a^b^c', 'a:L:M.x', '- -a', 'NOT NOT a', 'a STARTS WITH b CONTAINS c ENDS WITH d', 'a%b/c*d', '+a.b', 'a<>b=c', 'a OR b XOR c AND d', 'a >= b < c + d']
def p15(tier, rnd, b):
    js = []; mode = tier == 'thorough'; add = lambda t: js.append(J('prec ' + t, 'prec', [], t))
    S = OPS2[0]; S1 = '⟦%s⟧' % SYM
    for i, o in enumerate(OPS2):           # two operator slots
        for p in OPS2[i:] if True else []:
            add('a%sb%sc' % (o, lc(p)));
            if p != o: add('a%sb%sc' % (p, lc(o)))
    for q in PRE:
        for o in OPS2: add('%sa%sb' % (q, lc(o))); q and add('a%s %sb' % (lc(o), q)); q and add('%sa%sb' % (q, lc(o)) + S1 + 'c')
        for q2 in PRE[1:]: add('%s %sa%sb' % (q, q2, S))
        for po in POST: add('%sa%s%sb' % (q, po, S)); add('%s a%s%sb%s' % (q, S, 'c' + S1, po))
    for po in POST:
        for o in OPS2[1:]: add('a%sb%s' % (lc(o), po)); add('a%s%sb' % (po, lc(o)))
        for po2 in POST: add('a%s%s%sb' % (po, po2, S1))
    for o in OPS2:
        add('(a%sb)%sc' % (lc(o), S1)); add('a%s(b%sc)' % (S1, lc(o))); add('a[b%sc]%sd' % (lc(o), S1)); add('a[b%sc..d%se]' % (lc(o), S1))
    add('a%sb%sc%sd' % (S1, S1, S1)); add('a%sb%sc%sd' % (S, S1, S1))
    for e in EXPRS:
        for i in range(len(e) + 1):
            t = e[:i] + '⟦p⟧' + e[i + 1:]; js.append(J('prec %s@%d' % (e, i), 'prec', [], t))
    lad = 'a OR b XOR c AND NOT d = e <= f + g * -h ^ '
    for t in [lad + 'i' + S1 + 'j', lad + '[' + lad + '[' + lad + 'i' + S1 + 'j]]' + S1 + 'k', 'NOT ' * 9 + 'a' + S1 + 'b OR c', '- ' * 8 + 'a' + S1 + 'b', 'a^' * 40 + 'b' + S1 + 'c', 'a^' * 300 + 'b' + S1 + 'c', 'a+' * 300 + 'b' + S1 + 'c' + S1 + 'd', 'a<' * 20 + 'b' + S1 + 'c',
              'a' + S1 + 'b[c+' * 14 + 'd' + ']*e' * 14 + S1 + 'f', 'a' + '.b:C' * 40 + S1 + 'd', 'a' + '[1..2][b-c]' * 30 + S1 + 'd', 'a' + ' IS NULL' * 12 + S1 + 'b', lad + lad + lad + lad + 'x' + S1 + 'y']: js.append(J('prec deep ' + t[:60], 'prec', [], t, maxsteps=10**11))
    if mode:
        for o in OPS2:
            for p in OPS2: add('a%sb%sc%sd' % (lc(o), S, lc(p))); add('a%sb%sc%sd' % (S, lc(o), lc(p))); add('a%sb%sc%sd' % (lc(o), lc(p), S)); [add('%sa%s%sb%sc' % (q, lc(o), S1, lc(p))) for q in PRE]; [add('a%sb%s%sc%sd' % (lc(o), po, lc(p), S1)) for po in POST]
        add('a%sb%sc%sd%se' % (S, S, S1, S1)); add('a%sb%sc%sd' % (S, S, S))
        for e in EXPRS:
            for i in range(len(e) + 1): js.append(J('prec+ %s@%d' % (e, i), 'prec', [], e[:i] + '⟦p2⟧' + e[i + 1:]))
    return js
P('P15', h=['h_expr'], jobs=p15, bounds=('quick: every pair of infix operators (symbols as symbolic bytes, words in both cases of one letter slot), with every prefix and postfix operator before, between and after; three single-character operators at once; parentheses and brackets around each; 20 expressions with any printable byte at every position; chains of up to 300 operators and nested expressions of up to 28 levels with free operators', 'thorough: triples of infix operators; two printable bytes at every position of the 20 expressions'), reach=['compared'])
def p25(tier, rnd, b):
    js = []; q = tier == 'quick'
    others = ["RETURN 1;", "MATCH (n RETURN n; RETURN 'x", "CREATE INDEX ON :A(b); :cmd 'x y'\n// c\n", "RETRUN 1;\n\nMATCH (a)-[r:A*1..2 {b: [1,2]}]->(b) RETURN CASE a WHEN 1 THEN 2 END;"]
    st = sites(tier, rnd, STMTS + BAD, 270 if q else 0)
    for i, (s, how, k) in enumerate(st):
        t = mk(s, how, k); o = others[i % 4]
        e = ('again', 'again', 'nested')[i % 3]; p = [0, 0] if i % 3 == 0 else [0, 1 + (i * 7) % 60] if i % 3 == 1 else [0]
        js.append(J('%s %s@%d %s after %s %s' % (e, how, k, show(t), o[:12], p), e, p, t, o))
    for o in others:
        for pre in FREE1: js.append(J('again free %s+1' % pre, 'again', [0, 0], T(pre) + [HANY], o)); js.append(J('nested free %s+1' % pre, 'nested', [0], T(pre) + [HANY], o))
    return js
P('P25', h=['h_eq'], jobs=p25, bounds=('quick: a seeded share of the sites (one free byte in a statement form), the other input being one of 4 (well-formed, broken, commented, commands), parsed in between, inside the callback, or failing at an allocation in between', 'thorough: every site'), reach=['compared'])
# ---- P32
def p32(tier, rnd, b):
    js = []; X = '⟦^;\'"`/*:\\⟧'
    prior = [("RETURN 1;", 0), ("RETURN ;", 1), ("RETURN 1 " + X + ";", 0), (X + ";", 0), ("MATCH (n" + X + " RETURN n;", 0), ("CREATE INDEX Foo(b);\n", 1), ("// c " + '⟦^\n⟧' + "\nRETURN 1;", 0), ("x\ny" + X + "\n;", 1), ("RETURN 'a" + '⟦^\\\'⟧' + "';", 0), ("MATCH (n) FOO n \n RETURN n;", 1), (':cmd a b\n', 0), ('RETURN "a\\"' + '⟦^\\"⟧' + ';" b c;', 1), ("RETURN `a;" + '⟦^`\n⟧' + "` b;", 0), ("RETURN 1; FOO " + X + "; RETURN 2;", 1), ("RETURN /* ; " + '⟦^*⟧' + "*/ 1 1;", 1), (";;", 0), ("MATCH (n) FOO it's;", 1), ("MATCH (n) FOO it" + '⟦^;\n/\\⟧' + "s n;", 0), ("RETURN 1 x \\ { [ ( ` n;", 1), ('FOO "RETURN;', 1)]
    st = sites(tier, rnd, STMTS + BAD, 400 if tier == 'quick' else 0)
    for i, (s, how, k) in enumerate(st):
        if tier != 'quick' and i % 4: continue
        t = mk(s, how, k); p, e = prior[i % len(prior)]; js.append(J('indep %s@%d %s after %s' % (how, k, show(t), p), 'independent', [0, e], t, lcx(p)))
    for s in STMTS:
        for p, e in (prior if tier != 'quick' else rnd.sample(prior, 6)): js.append(J('indep %s after %s' % (s, p), 'independent', [0, e], s, p))
    # long texts before it
    big = [("RETURN 1;\n" * 40, 0), ("x y;" * 30, 1), ('\n' * 300 + ';', 0), ("RETURN '" + 'a' * 3000 + "';", 0), ("RETURN " + '[' * 5 + "x y" + ';', 1), ("RETURN" + ' FOO' * 700 + ';', 1), (':c' + ' a' * 300 + '\n', 0), ("RETURN " + 'a+' * 300 + '1;', 0), ("MATCH (n FOO\n\n\n;" * 20, 1), ('/*' + 'c\n' * 250 + '*/;', 0)]
    for i, s in enumerate(STMTS + BAD):
        for j, (p, e) in enumerate(big):
            if tier == 'quick' and (i + j) % 12: continue
            for how in ('sub', 'ins') if tier != 'quick' else (('sub', 'ins')[(i + j) // 12 % 2],):
                if not s and how == 'sub': continue
                k = rnd.randrange(len(s) + (how == 'ins')); t = mk(s, how, k); js.append(J('indep %s@%d %s after long %s' % (how, k, show(t), p[:20]), 'independent', [0, e], t, p, maxsteps=600000000))
    # errors reported beyond the end of their statement: something is opened there which never ends
    for p in ('/*;', 'x/*;', ':";', ":a ';", 'MATCH (n) /*;', 'RETURN 1 x /*a;', '  /* ;'):
        for t in ('⟦^*/\'"⟧', '1⟦^*/\'"⟧', '(⟦^*/\'"⟧ n;', ' ⟦^*/\'"⟧', 'RETURN;⟦^*/\'"⟧', 'FOO⟦^*/\'"⟧', '⟦^*/\'"⟧ RETURN 1;'): js.append(J('indep %s after open %s' % (t, p), 'independent', [0, 0], t, p))
    return js
def lcx(p): return re.sub(r'⟦[^⟧]*⟧', 'z', p)
P('P32', h=['h_eq'], jobs=p32, bounds=('quick: 20 preceding inputs (well-formed, broken in 8 ways, commented, quoted, commands; one byte of each free apart from those that open or close something) before every statement form, and a share of the sites of the statement after fixed ones; 10 long texts (up to 3000 bytes, 300 lines, 30 errors) before a twelfth of the statement forms and broken inputs, one byte of which is free', 'thorough: every statement form after each of the 20, and a quarter of all sites'), reach=['compared'])
# ---- P23
OOM_LONG = ["RETURN " + '+'.join('abcdefghijklmnop') + ";", "RETURN [" + ', '.join(str(i) for i in range(20)) + "];", ";".join("RETURN %d" % i for i in range(12)) + ";", "MATCH " + ', '.join('(a%d:A {x: 1})' % i for i in range(10)) + " RETURN 1;", " ;".join("x y" for i in range(10)), "RETURN " + '(' * 4 + '1' + ')' * 4 + ";", "RETURN 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\\nbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb';", "/*a*/ /*b*/ /*c*/ /*d*/ /*e*/ /*f*/ /*g*/ /*h*/ /*i*/ RETURN 1;", ":a b c d e f g h i j k l m\n"]
def p23(tier, rnd, b):
    js = []
    for m in (0, 1, 2, 3, 4, 5, 10, 11, 12):
        for s in STMTS + BAD + OOM_LONG:
            for sticky in (0, 1):
                if tier == 'quick' and (m in (3, 4, 5, 2) and rnd.random() > .3 or sticky and (m not in (0, 1) or rnd.random() > .25)): continue
                js.append(J('oom mode %d%s %s' % (m, ' sticky' if sticky else '', s), 'oom', [m, sticky], s))
    rnd.shuffle(js); return js
P('P23', h=['h_oom'], jobs=p23, bounds=('quick: every statement form and broken input parsed whole and by segments, cloned, rendered and annotated, a third of them also from a stream, by the quick parser and with colours, the failing allocation being a symbolic number below 2048', 'thorough: all of them, each also with every later allocation failing'), reach=['failed', 'ok'])
# ---- lexical level (h_lex)
import os
KIND = {n: i for i, n in enumerate(re.search(r'enum \{ (.*?), K_COUNT', open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../harness/dump_table.h')).read()).group(1).split(', '))}
PLAIN = [s for s in STMTS if not corpus.is_cmd(s)]
LONG = [a + ' ' + b for a, b in [("MATCH (n:A) USING INDEX n:A(x) WHERE n.x IN [1, 2] OR NOT exists(n.y)", "WITH DISTINCT n AS m ORDER BY m.x DESC SKIP 1 LIMIT 2 WHERE m.x IS NOT NULL RETURN CASE m.x WHEN 1 THEN 'a' ELSE null END AS c UNION ALL MATCH (c) RETURN c;"), ("LOAD CSV WITH HEADERS FROM 'u' AS l FIELDTERMINATOR '|'", "MERGE (n) ON MATCH SET n.a = 1 ON CREATE SET n.b = 2 FOREACH (x IN [1] | REMOVE n.x DETACH DELETE n) RETURN reduce(a = 0, x IN l | a + x) STARTS WITH 'x' XOR true;")]]
def p16(tier, rnd, b):
    js = []
    for s in PLAIN + LONG:
        k = corpus.keyworded(s)
        if k: js.append(J('kwcase ' + s, 'kwcase', [], k, s))
    # the case of the keyword next to a free byte
    for s, how, i in sites(tier, rnd, PLAIN, 250):
        k = corpus.keyworded(s)
        if not k: continue
        # keep one keyword symbolic to bound the paths
        t = mk(s, how, i); ws = [(m.start(), m.group()) for m in re.finditer(r'[A-Za-z_]\w*', s) if corpus.keyworded(m.group())]; near = [w for w in ws if w[0] <= i + 1 and i <= w[0] + len(w[1]) + 1 and not (how != 'ins' and w[0] <= i < w[0] + len(w[1])) and not (how == 'ins' and w[0] < i < w[0] + len(w[1]))]
        if how == 'trunc' or not near: continue
        o, w = near[0]; d = 1 if how == 'ins' and i <= o else 0; u = list(t); c = list(t)
        nk = corpus.tokens(s); 
        if any(g in ('str', 'bt', 'com') and p <= o < p + len(x) for g, x, p in nk) or (o and s[o - 1] in '$.:'): continue
        for q in range(len(w)): u[o + d + q] = hexdom({ord(w[q].lower()), ord(w[q].upper())}) if w[q].isalpha() else ord(w[q])
        js.append(J('kwfree %s@%d %s' % (how, i, show(u)), 'kwfree', [o + d, len(w)], u))
    return js
P('P16', h=['h_lex'], jobs=p16, bounds=('quick and thorough: every statement form, all letters of all its keywords free in case at once; a keyword in any case next to one free byte (quick: a share of the places)', 'as quick, every place'), reach=['compared'])
def p17(tier, rnd, b):
    js = []; fills = [('⟦= \t⟧', 0), ('\n', 0), ('\r\n', 0), ('/*c*/', 1), ('//c\n', 1), (' /*\n*/\r\n', 1), ('//\r\n', 1), ('/**//* / */', 2)]
    for s in PLAIN + LONG:
        bs = corpus.boundaries(s)
        for f, c in fills:
            k = c * sum(1 for x in bs if not (x[3] and '/' in f)); js.append(J('dense %r %s' % (f, s), 'wspace', [k], s, corpus.dense(s, f)))
        for i, (a, z, req, only) in enumerate(bs):
            pre = ' ' if a.endswith('/') else ''
            # a line comment runs to the end of its line
            for f, ps in (('⟦= \t\n⟧⟦= \t\n⟧', [0]), ('/*⟦^*⟧b⟦^*/⟧*/', [1, len(a) + len(pre) + 2, 3, 0]), ('//⟦^\n⟧⟦^\n\r⟧\n', [1, len(a) + len(pre) + 2, 2, 1]), ('\r⟦=\n⟧', [0]), ('/*⟦^*⟧*⟦^/*⟧*/', [1, len(a) + len(pre) + 2, 3, 0])):
                if only and ps[0]: continue
                if tier == 'quick' and rnd.random() > .1: continue
                js.append(J('at %d %s %s' % (i, f, s), 'wspace', ps, s, a + pre + f + z))
    return js
P('P17', h=['h_lex'], jobs=p17, bounds=('quick: every statement form (not commands) with each of 8 fillings at all places between tokens at once (blanks symbolic), and at a tenth of the single places a filling of two free blanks or a comment with two free bytes of text', 'thorough: every single place'), reach=['compared', 'comment'])
def p18(tier, rnd, b):
    js = []; ctx = [('RETURN ', ';'), ('RETURN [1, ', '];'), ('RETURN {a: ', '} AS x;'), ("LOAD CSV FROM ", " AS l RETURN l;"), ("START n=node:idx(", ") RETURN n;"), ("RETURN a = ", "+ 1 // c\n;"), ("LOAD CSV FROM 'u' AS l FIELDTERMINATOR ", " RETURN l;"), ("RETURN CASE ", " WHEN 1 THEN 2 END;")]
    q = tier == 'quick'
    for c in (39, 34):
        for i, (p, z) in enumerate(ctx):
            for t in (['⟦n3⟧', 'ab⟦n⟧⟦n⟧cd', '\\\\⟦n⟧\\n⟦n⟧', '', "\\'⟦n⟧\\\"x", '⟦n⟧/*⟦n⟧//'] if i == 0 or not q else ['⟦n2⟧', '']) + ([] if q else ['⟦n4⟧', 'x⟦n2⟧y⟦n2⟧z', '⟦n⟧' + 'y' * 40 + '⟦n⟧']): js.append(J('str %d %s%s' % (c, p, t), 'strlit', [c], t, p, z))
        for n in (127, 255, 256, 257, 300, 511, 513, 1024, 4100) + ((70000,) if not q or c == 39 else ()):
            for k, (x, y) in enumerate((('x', ''), ('\\\\', ''), ('x' * 9 + '\\n', 'y'))):
                if n > 5000 and k == 1: continue
                js.append(J('str %d size %d %d' % (c, n, k), 'strlit', [c], (x * n)[:n - n % len(x)] + '⟦n⟧' + y + '\\t' + 'z', 'RETURN ', ';', maxsteps=10**11))
        for n in (14, 15, 16, 17, 31, 32, 33, 63, 64): js.append(J('str %d long %d' % (c, n), 'strlit', [c], 'x' * n + '⟦n⟧' + 'y', 'RETURN ', ';')); js.append(J('str %d long esc %d' % (c, n), 'strlit', [c], '\\\\' * n + '⟦n⟧', 'RETURN ', ';'))
    return js
P('P18', h=['h_lex'], jobs=p18, bounds=('quick: both quotes, 8 places a string may stand; bodies of up to 3 free bytes (NUL excluded), free bytes among escapes, comment starts and long runs; bodies of 127 to 70000 bytes with one free', 'thorough: bodies of 4 free bytes'), reach=['value'])
NAMES = [('IDENTIFIER', 4, 0, 0, 'RETURN ', ' AS x;'), ('IDENTIFIER', 0, 0, 0, 'RETURN 1 AS ', ';'), ('IDENTIFIER', 0, 0, 0, 'MATCH (', ') RETURN 1;'), ('IDENTIFIER', 0, 0, 0, 'MATCH ()-[', ':X]-() RETURN 1;'), ('IDENTIFIER', 0, 0, 0, 'MATCH ', '=() RETURN 1;'),
 ('IDENTIFIER', 0, 0, 0, 'UNWIND [] AS ', ' RETURN 1;'), ('IDENTIFIER', 0, 0, 0, 'RETURN [', ' IN [1] | 1];'), ('IDENTIFIER', 0, 0, 0, 'FOREACH (', ' IN [] | CREATE ());'), ('IDENTIFIER', 0, 0, 0, 'CALL f YIELD ', ' RETURN 1;'), ('IDENTIFIER', 0, 0, 0, 'START ', '=node(*) RETURN 1;'), ('IDENTIFIER', 0, 0, 0, "LOAD CSV FROM 'u' AS ", ' RETURN 1;'), ('IDENTIFIER', 0, 0, 0, 'RETURN reduce(a = 0, ', ' IN [] | 1);'), ('IDENTIFIER', 0, 0, 0, 'RETURN all(', ' IN [] WHERE 1);'),
 ('PARAMETER', 2, 1, 0, 'RETURN $', ';'), ('PARAMETER', 2, 1, 1, 'RETURN {', '};'), ('PARAMETER', 2, 1, 0, 'MATCH (n $', ') RETURN n;'), ('PARAMETER', 2, 1, 1, 'MATCH (n {', '}) RETURN n;'),
 ('LABEL', 0, 1, 0, 'MATCH (n:', ') RETURN n;'), ('LABEL', 0, 1, 0, 'RETURN n:', ';'), ('LABEL', 0, 1, 0, 'CREATE INDEX ON :', '(a);'), ('LABEL', 0, 1, 0, 'MATCH (n) SET n:A:', ';'), ('LABEL', 0, 1, 0, 'CREATE CONSTRAINT ON (n:', ') ASSERT n.a IS UNIQUE;'),
 ('RELTYPE', 0, 1, 0, 'MATCH ()-[:', ']-() RETURN 1;'), ('RELTYPE', 0, 0, 0, 'MATCH ()-[:A|', ']-() RETURN 1;'), ('RELTYPE', 0, 1, 0, 'MATCH ()-[:A|:', ']-() RETURN 1;'), ('RELTYPE', 0, 1, 0, 'CREATE CONSTRAINT ON ()-[r:', ']-() ASSERT exists(r.b);'),
 ('PROP_NAME', 0, 0, 0, 'RETURN n.', ';'), ('PROP_NAME', 0, 0, 0, 'RETURN {', ': 1};'), ('PROP_NAME', 0, 0, 0, 'RETURN n{.', '};'), ('PROP_NAME', 0, 0, 0, 'CREATE INDEX ON :A(', ');'), ('PROP_NAME', 0, 0, 0, 'MATCH (n) REMOVE n.', ';'),
 ('FUNCTION_NAME', 5, 0, 0, 'RETURN ', '(1);'), ('INDEX_NAME', 0, 0, 0, 'START n=node:', "('q') RETURN n;"), ('PROC_NAME', 1, 0, 0, 'CALL ', ';'), ('PROC_NAME', 1, 0, 0, 'CALL ', '(1) YIELD a RETURN 1;')]
def p19(tier, rnd, b):
    js = []; q = tier == 'quick'
    for k, f, d, a, p, z in NAMES:
        t = ['⟦is⟧⟦id⟧', 'abc⟦id2⟧def', '`⟦^`⟧⟦^`⟧`', '`a⟦^`⟧⟦^`⟧b`', 'a' * 15 + '⟦id⟧', '``']
        if f & 2: t += ['1⟦d2⟧', '⟦=1-9⟧']
        if f & 1: t += ['a.⟦is⟧.`⟦^`⟧`', 'a⟦= .\t⟧.⟦= a⟧b', '`a.⟦^`⟧`.b', 'a.b.c.⟦is⟧⟦id⟧']
        if not q: t += ['⟦is⟧⟦id2⟧', '`⟦^`⟧⟦^`⟧⟦^`⟧`', '⟦is⟧' + 'b' * 40 + '⟦id⟧']
        for x in t:
            if q and f & 4 and x == '⟦is⟧⟦id⟧': x = '⟦is⟧⟦=a-z0-9$_⟧'
            js.append(J('name %s %s%s' % (k, p, x), 'names', [KIND['K_' + k], f, d, a], x, p, z))
        for n in (rnd.sample((127, 255, 256, 300, 1024, 4100), 2) if q else (63, 64, 127, 128, 255, 256, 257, 300, 1024, 4100, 70000)): js += [J('name %s %s long %d %s' % (k, p, n, x[:1]), 'names', [KIND['K_' + k], f, d, a], x, p, z, maxsteps=10**11) for x in (['a' * n + '⟦id⟧', '`' + 'a b.' * (n // 4) + '⟦^`⟧`'] + (['1' * min(n, 1024) + '⟦d⟧'] if f & 2 else []) + (['a.' * (n // 4) + 'b⟦id⟧'] if f & 1 else []))]
    for e in EXPRS + ['a', '1', "'x'", 'count(*)', '[x IN l | x]', 'n{.x}', '(a)-->(b)', 'CASE WHEN a THEN b END', '$p', '`a b`']:
        for i in range(len(e) + 1):
            for p, z in (('RETURN ', ';'), ('RETURN x, ', '\n;')):
                if q and (rnd.random() > .5): continue
                js.append(J('alias %s@%d' % (e, i), 'alias', [], e[:i] + '⟦n⟧' + e[i + 1:], p, z)); js.append(J('alias+ %s@%d' % (e, i), 'alias', [], e[:i] + '⟦n⟧' + e[i:], p, z))
    return js
P('P19', h=['h_lex'], jobs=p19, bounds=('quick: 35 places of a name (identifiers, parameters, labels, types, properties, functions, indexes, procedures), names of up to 2 free characters, longer ones with 2 free, quoted ones with 2 free bytes, dotted ones; implicit aliases of 30 expressions with one free byte at half of the positions; names of 127 to 4100 characters with one free', 'thorough: names of 3 free characters, every position'), reach=['value'])
def p22(tier, rnd, b):
    js = []; q = tier == 'quick'
    ctx = [('RETURN ', ';', 0), ('RETURN [', ', 2];', 0), ('RETURN {a: ', '};', 0), ('RETURN 1+', '*2;', 0), ('RETURN a SKIP ', ' LIMIT 1;', 0), ('RETURN f(', ');', 0), ('RETURN a[', '];', 0), ('RETURN a[', '..3];', 2), ('USING PERIODIC COMMIT ', " LOAD CSV FROM 'u' AS l CREATE ();", 2), ('START n=node(', ') RETURN n;', 2), ('START r=rel(1, ', ') RETURN r;', 2), ('MATCH ()-[*', ']-() RETURN 1;', 2), ('MATCH ()-[*1..', ']-() RETURN 1;', 2), ('MATCH ()-[*', '..]-() RETURN 1;', 2), ('RETURN -', ';', 0), ('RETURN a=', ';', 0)]
    for i, (p, z, f) in enumerate(ctx):
        for n in (rnd.sample((63, 127, 255, 256, 300, 1024), 2) if q else (63, 64, 127, 128, 255, 256, 257, 1024, 4100)): js += [J('num %s long %d %s' % (p, n, t[:2]), 'numlit', [f], t, p, z, maxsteps=10**11) for t in ('12' * (n // 2) + '⟦n⟧', '1.' + '5' * n + '⟦n⟧', '0x' + 'aF' * (n // 2) + '⟦n⟧', '1e' + '7' * n + '⟦n⟧')]
        for t in (['⟦d⟧⟦n2⟧', '⟦n3⟧', '.⟦d⟧⟦n⟧', '1.⟦d⟧⟦n⟧', '1e⟦n2⟧', '1.5E⟦n2⟧', '0x⟦n2⟧', '00⟦n⟧', '12345678901234567890⟦n⟧'] if i == 0 or not q else ['⟦d⟧⟦n⟧', '1⟦n2⟧'] if f else ['⟦d⟧⟦n⟧', '⟦d⟧.⟦d⟧', '1e⟦n2⟧']) + ([] if q else ['⟦n4⟧', '1.2⟦n3⟧']): js.append(J('num %s%s' % (p, t), 'numlit', [f], t, p, z))
    return js
P('P22', h=['h_lex'], jobs=p22, bounds=('quick: 16 places of a number; texts of 3 free bytes of the shape of a number, and prefixes of each notation followed by up to 2 free bytes; numbers of 63 to 1024 digits with one free', 'thorough: 4 free bytes'), reach=['value', 'integer', 'float'])
def p31(tier, rnd, b):
    js = []; q = tier == 'quick'
    for t in ['⟦n3⟧', 'a ⟦n2⟧', "a '⟦n2⟧", 'a "⟦n2⟧', 'a \\⟦n2⟧', 'a /*⟦n⟧*/⟦n⟧', 'a //⟦n⟧⟦n⟧', 'set x⟦n2⟧y', "a 'b⟦n⟧c' d;", "a\tb⟦n⟧ c\\⟦n⟧ d\n", 'a \\⟦n⟧ b⟦n⟧', "a'b'\"c\"d⟦n⟧", 'a \\\n⟦n2⟧', 'a \\ // x\n⟦n⟧b', 'a b c d e f g h i⟦n⟧j\n', "a '\\⟦n⟧' \"\\⟦n⟧\"", 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa⟦n⟧\\⟦n⟧', 'a ;⟦n2⟧', 'a\r⟦n⟧b', 'a b\n⟦n2⟧', 'a /* b */ c⟦n2⟧'] + ([] if q else ['⟦n4⟧', "a '⟦n3⟧", 'a \\⟦n3⟧', 'a ⟦n3⟧', 'a b ⟦n3⟧;']): js.append(J('cmd ' + t, 'command', [], t, '', '')); js.append(J('cmd after ' + t, 'command', [], t, 'RETURN 1;\n', ''))
    for n in (127, 128, 255, 256, 300, 1030): js += [J('cmd size %d %s' % (n, t[:4]), 'command', [], t, '', '', maxsteps=10**11) for t in ('a' + ' b' * n + '⟦n⟧', 'x' * n + '⟦n⟧ c', 'a ' + 'y' * n + '⟦n⟧z d', "a '" + 'q ' * n + "⟦n⟧' d", 'a ' + '\\\\' * n + '⟦n⟧ d', 'a' + ' \\\n' * n + '⟦n⟧b')]
    for n in (7, 8, 9, 15, 16, 17): js.append(J('cmd long %d' % n, 'command', [], ' '.join('abcdefghijklmnopqr'[:n]) + '⟦n⟧', '', ''))
    return js
P('P31', h=['h_lex'], jobs=p31, bounds=('quick: command lines of 3 free bytes, and 2 free bytes in 20 shapes (quotes, escapes, continuation lines, comments, many arguments), at the start of the input or after a statement; arguments of up to 1030 bytes, and up to 1030 of them', 'thorough: 4 free bytes'), reach=['value'])
# ---- rendering (h_print): params API, width, colours, width symbolic
def wide(w, c):
    def f(tier, rnd, b):
        js = []
        for i, s in enumerate(STMTS + BAD + LONG):
            for a in range(4):
                if tier == 'quick' and a != i % 4 and a != (i + 1) % 4: continue
                js.append(J('render api %d any width colours %d %s' % (a, c, s), 'render', [a, w, c, 1], s))
        big = ' '.join(['RETURN'] + [' ' * 30] * 34) + '1;' + 'RETURN [' + ','.join(str(i) for i in range(60)) + '];' * (1 if tier == 'quick' else 2)
        if c == 0: js += [J('render numbers %s' % s, 'render', [i % 4, (0, 70)[i % 2], 0, 0, 12], s) for i, s in enumerate(STMTS + BAD)]
        for k in range(1, 7):
            for a in range(4):
                if tier == 'quick' and (k + a) % 2: continue
                for t in ('RETURN 1;', "MATCH (n)\n RETURN n, 'a b' ; RETURN x y"): js.append(J('render numbers %d api %d %s' % (k, a, t[:12]), 'render', [a, (0, 40)[k % 2], c, 0, k], t))
        js += [J('render long api %d' % a, 'render', [a, 60, c, 0], big + 'RETURN a⟦n⟧;') for a in range(4)]
        return js
    return f
# (start, element, separator, end, length of the description of one element with numbers of four digits and a half)
EDGE = [("RETURN [", "1", ",", "];", 7.5), ("RETURN {", "a%d:1", ",", "};", 14), ("RETURN f(", "1", ",", ");", 7.5), ("RETURN ", "1 AS a", ",", ";", 7.5), ("RETURN DISTINCT *,", "1 AS a", ",", ";", 7.5), ("WITH ", "a", ",", " RETURN 1;", 7.5), ("RETURN a ORDER BY ", "a", ",", ";", 7.5), ("RETURN CASE a ", "WHEN 1 THEN 2", " ", " END;", 15.5), ("RETURN CASE ", "WHEN a THEN 2", " ", " ELSE 3 END;", 15), ("RETURN a", "<b", "", ";", 8.5), ("RETURN a{", ".b", ",", "};", 7.5),
 ("MATCH ", "(a)", ",", " RETURN 1;", 7.5), ("MATCH (a)", "--()", "", " RETURN 1;", 16), ("MATCH (a", ":B", "", ") RETURN 1;", 6.5), ("MATCH ()-[", ":B", "|", "]-() RETURN 1;", 7.5), ("MATCH (a:B) ", "USING INDEX a:B(c)", " ", " RETURN 1;", 7.5), ("MATCH (a:B) USING JOIN ON ", "a", ",", " RETURN 1;", 7.5), ("MERGE (a) ", "ON CREATE SET a.b=1", " ", ";", 7.5), ("MERGE (a) ON MATCH SET ", "a:B", ",", ";", 7.5), ("MATCH (a) SET ", "a:B", ",", ";", 7.5), ("MATCH (a) SET a", ":B", "", ";", 6.5), ("MATCH (a) DELETE ", "a", ",", ";", 7.5), ("MATCH (a) DETACH DELETE ", "a", ",", ";", 7.5), ("MATCH (a) REMOVE ", "a.b", ",", ";", 7.5), ("MATCH (a) REMOVE a", ":B", "", ";", 6.5),
 ("FOREACH (a IN b|", "CREATE ()", " ", ");", 7.5), ("CALL a(", "1", ",", ");", 7.5), ("CALL a(1) YIELD ", "b", ",", ";", 7.5), ("START ", "a=node(*)", ",", " RETURN a;", 7.5), ("START a=node(", "1", ",", ") RETURN a;", 7.5), ("START a=rel(", "1", ",", ") RETURN a;", 7.5), ("", "CREATE ()", " ", ";", 7.5), ("CYPHER ", "a=b", " ", " RETURN 1;", 7.5), ("CYPHER 2.3 ", "a=b", " ", " RETURN 1;", 7.5), (":a", " b", "", "\n", 7.5)]
# a text so long that its description has about 1024 characters: (start, end, other characters of the description)
EDGET = [("RETURN ", ";", 2, 'a'), ("RETURN `", "`;", 2, 'a'), ("RETURN {", "};", 3, 'a'), ("RETURN $", ";", 3, 'a'), ("RETURN '", "';", 2, 'a'), ("RETURN ", ";", 0, '1'), ("RETURN .", ";", 1, '1'), ("MATCH (:", ") RETURN 1;", 3, 'a'), ("MATCH ()-[:", "]-() RETURN 1;", 3, 'a'), ("RETURN a.", ";", 2, 'a'), ("RETURN ", "(1);", 2, 'a'), ("START n=node:", "('a') RETURN n;", 2, 'a'), ("CALL ", "();", 2, 'a'), ("/*", "*/RETURN 1;", 4, 'a'), ("//", "\nRETURN 1;", 2, 'a'), (":x '", "'\n", 2, 'a'), ("RETURN 1 ", ";", 4, 'x')]
def edge(tier, rnd, b):
    js = []; q = tier == 'quick'
    for i, (p, e, sep, z, l) in enumerate(EDGE):
        for d in ((0,) if q else (0, 1, 2, 3)):
            n = int((1024 - d - len(p)) / l); t = p + sep.join(e % k if '%' in e else e for k in range(n)) + z
            js.append(J('edge %s%s... %d' % (p, e, d), 'edge', [0, (0, 200)[i % 2] if d == 0 else 0, 6], t, maxsteps=400000000))
    for i, (p, z, o, ch) in enumerate(EDGET):
        for k in (1023, 1024) if q else range(1020, 1030): js.append(J('edge text %s %d' % (p, k), 'render', [i % 4, 0, 0, 0], p + ch * (k - o) + z, maxsteps=400000000))
    return js
RB = ('quick: a seeded share of the sites (one free byte in a statement form) unfolded; every statement form at every width below 256 through two of the four printing functions; a result of over 60 nodes and over 1000 bytes', 'thorough: every site; all four functions')
P('P12', h=['h_print'], jobs=many(std('render', [0, 0, 0, 0], 420, 1), std('render', [3, 33, 0, 0], 150, 1, large=.25), std('render', [1, 0, 0, 0], 60, 1, longs=0), wide(0, 0), edge), bounds=(RB[0] + '; 35 forms with so many parts that the description of a node is between 1019 and 1030 characters long, 1024 being set aside for it at first', RB[1]), reach=['compared', 'edge', 'numbers'])
P('P29', h=['h_print'], jobs=many(std('render', [0, 0, 2, 0], 250, 1, large=.75), std('render', [0, 41, 1, 0], 150, 1, large=.25), wide(0, 2)), bounds=RB, reach=['compared'])
# ---- P13
def p13(tier, rnd, b):
    js = []; q = tier == 'quick'; n = 31
    for pre in (0, 1, 2, 3, 4):
        for o in range(n):
            if q: js.append(J('annotations prefix %d then %d' % (pre, o), 'annops', [2, pre, (o + pre) % 3, o]))
            else: js += [J('annotations prefix %d then %d %d' % (pre, o, o2), 'annops', [3 if o2 < 4 else 2, pre, (o + pre) % 3, o, o2]) for o2 in range(n)]
    for k, m in ((6, 1), (9, 1), (20, 1), (60, 1), (12, 4), (9, 9), (1, 40)) if q else ((5, 1), (6, 1), (7, 1), (8, 1), (9, 1), (17, 1), (33, 1), (65, 1), (130, 1), (280, 1), (12, 4), (9, 9), (40, 10), (1, 100)):
        for o in range(3): js.append(J('annotations of %d contexts on %d nodes %d' % (k, m, o), 'annmany', [k, m, o], maxsteps=400000000))
    for i, (s, how, k) in enumerate(sites(tier, rnd, STMTS + BAD, 200)):
        t = mk(s, how, k); js.append(J('anntree %d %s' % (i % 3, show(t)), 'anntree', [i % 3], t))
    return js
P('P13', h=['h_ann'], jobs=p13, bounds=('quick: histories of 3 free operations (31 operations: attach, remove, free a context, a tree or its nodes one by one, set or clear its handler) over 3 contexts and 3 nodes, from 5 starting states; up to 60 contexts on one node, 12 on 4 and 40 nodes of one, a symbolic one being removed or replaced; every node of the trees of a share of the sites annotated in two contexts', 'thorough: up to 280 contexts on one node; 4 free operations, and 5 for some beginnings; every site'), reach=['history', 'tree'])
# ---- P14
LONGE = ['RETURN ' + 'a' * 60 + ' ' + 'b' * 60 + ';', 'MATCH (n) WHERE ' + 'n.x = 1 AND ' * 6 + ' x FOO ' + ' y' * 40 + ';', '\n'.join(['RETURN 1 1 1;', 'x', '', 'MATCH (n FOO ' + 'z' * 90 + ';']), ' ;'.join('x%d y' % i for i in range(10)), 'RETURN a ' + ' ' * 70 + '\n' + ' ' * 75 + 'FOO;\r\n\r\nx', 'x ' + 'y' * 77 + ';', 'x ' + 'y' * 79 + ';']
def p14long(tier, rnd, b):
    js = []; q = tier == 'quick'
    for s in LONGE:
        for i in range(0, len(s) + 1, 4 if q else 1): i = min(len(s), i + (rnd.randrange(4) if q else 0)); js.append(J('errors long @%d %s' % (i, s[:20]), 'errors', [i % 2, i % 3], ins(s, i)))
    return js
P('P14', h=['h_err'], jobs=many(std('errors', [0, 0], 350), std('errors', [1, 2], 250, 1), std('errors', [0, 1], 60, 1), p14long), bounds=('quick: a seeded share of the sites; 7 long broken inputs (lines of over 80 bytes, over 8 errors, several lines) with a free byte inserted at a quarter of the positions; three colourings', 'thorough: every site and position'), reach=['errors', 'none', 'char', 'at a line end'])
# ---- the quick parser (h_quick)
QPRE = ['', ':', ':a', ':a ', ':a \\', ":a '", ';', 'x ', "x '", 'x "', 'x `', 'x /', 'x /*', 'x /*a*', 'x //', 'x \\', '\n', '\r', ':a\n', ':a;', ':a // b', ':a /*b*', ":a \\ /*", 'x;\n ', 'x /* a */ ', "x 'a\\", ":a 'b\\"]
QSUF = ['', ';', '\n', ' \n;y', '\n:b\n', "' ;z", '*/ ;z', '` ;z', '/;z']
def p20(tier, rnd, b):
    js = []; q = tier == 'quick'
    for i, p in enumerate(QPRE):
        for k, z in enumerate(QSUF):
            for m in (0, 2):
                js.append(J('qscan %s+2+%s %d' % (p, z, m), 'qscan', [m, (i + k) % 2, 0], T(p) + [HANY] * 2 + T(z)))
                if not q: js.append(J('qscan %s+3+%s %d' % (p, z, m), 'qscan', [m, (i + k + 1) % 2, 0], T(p) + [HANY] * 3 + T(z)))
    return js + std('qscan', [0, 0, 0], 150)(tier, rnd, b) + std('qscan', [0, 1, 1], 60, 1)(tier, rnd, b)
P('P20', h=['h_quick'], jobs=p20, bounds=('quick: 2 free bytes between 27 prefixes and 9 suffixes (quotes, comments, continuations, commands open at that point), with and without commands; a share of the sites; the single-segment flag', 'thorough: 3 free bytes; every site'), reach=['statement', 'command', 'end'])
def p21(tier, rnd, b):
    js = []; q = tier == 'quick'
    seps = [';', ' ; ', ';\n', '; // c\n', ';/* ; */ ', '\n;\n', ';;', '; :cmd a;', ";\n:cmd 'x y' \\\n z // c\n", ';\r\n']
    for i, (s, how, k) in enumerate(sites(tier, rnd, STMTS, 330)): t = mk(s, how, k); js.append(J('qagree %s@%d %s' % (how, k, show(t)), 'qagree', [i % 2 * 2, i % 3 == 0], t))
    for i, s in enumerate(STMTS):
        o = STMTS[(i * 7 + 3) % len(STMTS)]
        for j, p in enumerate(seps if not q else rnd.sample(seps, 3)): js.append(J('qagree two %s%s%s' % (s, p, o), 'qagree', [0, j % 2], s.rstrip(';') + p + '⟦*⟧' + o))
        for f in (' /*;*/ ', ' //;\n') if not corpus.is_cmd(s) else (): js.append(J('qagree dense %s' % s, 'qagree', [0, 0], corpus.dense(s, f)))
    for t in ["RETURN '⟦*2⟧';", 'RETURN "⟦*2⟧";', 'RETURN `a⟦*2⟧`;', 'RETURN 1 /*⟦*2⟧*/;', 'RETURN 1 //⟦*2⟧\n;', ':a ⟦*2⟧\n', ":a '⟦*2⟧'\n", ':a \\⟦*2⟧\nb', ':a /*⟦*2⟧*/ b\nRETURN 1;', 'RETURN {a: "⟦*⟧", `b⟦*⟧`: 1};', "RETURN 'a\\⟦*⟧' + '⟦*⟧';", 'RETURN 1⟦*2⟧;', ':⟦*2⟧', 'RETURN 1;⟦*2⟧', 'MATCH (`a⟦*⟧`:`b⟦*⟧`) RETURN 1;', ':a;⟦*2⟧ RETURN 1;', 'RETURN 1;:a ⟦*2⟧;']: js += [J('qagree %s %d' % (t, m), 'qagree', [m, 0], t) for m in (0, 2)]
    return js
P('P21', h=['h_quick'], jobs=p21, bounds=('quick: every statement form followed by another across 3 of 10 separators with a free byte; a share of the sites; comments containing terminators between all tokens; 17 shapes with 2 free bytes in strings, names, comments and commands', 'thorough: all separators and sites'), reach=['agree', 'erroneous'])
# ---- P26
RICH = ["MATCH p = (a:A:B {x: 1, y: $p})<-[r:R|:S*1..2 {z: 2}]-(b), q = shortestPath((a)-[*]->(b)) USING INDEX a:A(x) USING SCAN b:B USING JOIN ON a, b WHERE a.x IS NOT NULL RETURN DISTINCT *, p AS q, r;", "MATCH (a)<-->(b)--(c)-->()<--(d)<-[]->(e) RETURN [x IN l WHERE x | y], [p = (a)-->(b) WHERE x | y], [(a)--(b) | 1];", "RETURN n {.a, .*, b, c: 1 + 2}, {a: [1, 2], `b c`: {}}, CASE WHEN a THEN b WHEN c THEN d END, CASE a WHEN 1 THEN 2 ELSE 3 END;", "RETURN filter(x IN l WHERE y), extract(x IN l | y), reduce(a = 0, x IN l | a + x), all(x IN l WHERE y), any(x IN l WHERE y), none(x IN l WHERE y), single(x IN l WHERE y);", "START n = node:i(p = 'v'), m = node(1, 2), r = relationship(*), s = rel:j('q') WHERE n.x = 1 RETURN count(DISTINCT *), f.g.h(DISTINCT 1, 2), count(*);", "CALL a.b.c(1, x + 2) YIELD d AS e, f WHERE e = 1 WITH DISTINCT *, e AS g ORDER BY g DESC, e ASCENDING, f SKIP 1 LIMIT 2 WHERE g RETURN l[1], l[1..2], l[..2], l[1..], l[..];", "MERGE p = (a) ON CREATE SET a.x = 1, a += {y: 2}, a:L:M, a = b ON MATCH SET a.b.c = 2 REMOVE a:L:M, a.x DETACH DELETE a, b FOREACH (x IN l | CREATE UNIQUE (x) SET x.y = 1);", "CYPHER 3.0 planner=cost runtime=slow PROFILE USING PERIODIC COMMIT 10 LOAD CSV WITH HEADERS FROM 'f' AS l FIELDTERMINATOR ';' UNWIND l AS x RETURN x UNION ALL RETURN 1;", "RETURN NOT a AND b OR c XOR d, a =~ 'x' , a STARTS WITH b, a ENDS WITH b, a CONTAINS b, a IN b, -a + +b - c * d / e % f ^ g, a < b <= c > d >= e <> f = g, (a:B:C), a IS NULL;", "DROP CONSTRAINT ON (n:Foo) ASSERT n.bar IS UNIQUE; CREATE CONSTRAINT ON ()<-[r:R]->() ASSERT exists(r.p); DROP INDEX ON :L(a, b);"]
def p26(tier, rnd, b):
    js = std('written', [], 550)(tier, rnd, b); q = tier == 'quick'
    for s in RICH:
        for i in range(len(s)):
            for how in ('sub', 'ins'):
                if q and rnd.random() > .25: continue
                t = mk(s, how, i); js.append(J('written %s@%d %s' % (how, i, show(t)), 'written', [], t))
        js.append(J('written dense ' + s, 'written', [], corpus.dense(s, ' /* x */ ')))
        # every punctuation sign and letter pair: two free bytes from the alphabet of the grammar
        for i in range(len(s) - 1):
            if rnd.random() < (.05 if q else .5): t = list(plain(s)); h = hexdom(set(map(ord, "abxAB01 ,.:;=<>|-+*/'\"`{}[]()$~"))); js.append(J('written 2@%d %s' % (i, s), 'written', [], t[:i] + [h, h] + t[i + 2:]))
    return js
P('P26', h=['h_src'], jobs=p26, bounds=('quick: a seeded share of the sites, a quarter of the positions in 10 long statements covering every production of the grammar (one free byte; at some positions two from the signs of the grammar)', 'thorough: every site and position'), reach=['statement'])
# ---- P27 constructors (h_ctor); built with assertions disabled (configure offers that), where a rejected argument is reported by NULL and EINVAL
import gen_ctor
def p27(tier, rnd, b):
    js = []; q = tier == 'quick'
    def job(c, va, ve, nl, ab, rev, tl=None): js.append(J('ctor %s part %d element %d of %d, absent %d, order %d%s' % (gen_ctor.ctors[c][0], va, ve, nl, ab, rev, '' if tl is None else ' text %d' % tl), 'ctor', [c, va, ve, nl, ab, rev], *([] if tl is None else ['⟦*%d⟧' % tl if tl else ''])))
    for c, (n, k, args, order) in enumerate(gen_ctor.ctors):
        if any(a[0] == 's' for a in args):
            for tl in range(0, 5 if q else 9): job(c, -1, 0, 0, 0, 0, tl)
            continue
        lists = any(l for _, l in gen_ctor.slots(n)); opts = [i for i, a in enumerate(args) if a[0] == 'o']
        for rev in (0, 1):
            for nl in ((0, 1, 2, 3) if lists else (0,)):
                for m in range(1 << len(opts)): job(c, -1, 0, nl, sum(1 << o for i, o in enumerate(opts) if m >> i & 1), rev)
        for a, l in gen_ctor.slots(n):
            for nl in ((1, 2, 3) if l else (1,)):
                for e in range({'cmp': nl + 1, 'map': 2 * nl, 'pp': 2 * nl + 1}.get(args[a][0], 2 * nl if args[a][0][0] == 'd' else nl) if l else 1):
                    for rev in ((0, 1) if not q else (rnd.randrange(2),)): job(c, a, e, nl, 0 if rnd.random() < .7 else sum(1 << o for o in opts if o != a and rnd.random() < .5), rev)
    return js
P('P27', h=['h_ctor'], jobs=p27, defs=['-DNDEBUG'], bounds=('every constructor; every argument, of any node kind, absent, or not among the children; lists of 0 to 3 elements; every subset of optional parts absent; children in two orders with comments between; symbolic flags, directions and ranges; texts of up to 4 free bytes', 'as quick with both orders everywhere; texts of up to 8 bytes'), reach=['right kind', 'wrong kind', 'absent', 'not a child', 'constructed'], assume=['the library is built with NDEBUG: with assertions enabled the same conditions abort'])
# ---- P28 the linter (h_lint)
LAYS = [0, 0, 1, 2, 2, 3, 3, 4, 6, 7]
def lintopts(rnd): return [sum(x for x in (1, 2, 4, 8, 16, 32, 64, 128, 256, 512) if rnd.random() < (.3 if x in (1, 4, 16, 32, 64) else .5)), rnd.choice(LAYS), rnd.choice([0, 0, 1, 20, 47, 80, 200]), rnd.choice([0, 0, 0, 2, 4, 6])]
def p28(tier, rnd, b):
    js = [J('lintinfo %d' % k, 'lintinfo', [k]) for k in range(6)]; q = tier == 'quick'; allst = STMTS + BAD
    for i, (s, how, k) in enumerate(sites(tier, rnd, allst, 500)):
        t = mk(s, how, k); o = lintopts(rnd); u = rnd.choice(allst); js.append(J('lint %s %s@%d %s then %s' % (o, how, k, show(t), u), 'lint', o, t, u) if i % 3 else J('lint %s %s then %s@%d %s' % (o, u, how, k, show(t)), 'lint', o, u, t))
    # every option set and file layout on fixed inputs of each outcome
    for o in range(1024):
        if q and rnd.random() > .35: continue
        t = rnd.choice(["RETURN 1; :a b\nRETURN 2;", "RETURN 1; RETURN ^;\n:a", "  RETUN\n\n 1; MATCH (n) RETURN n", "", "// c\n"]); u = rnd.choice(["RETURN 1", "CREATE ;", ":a b"])
        for lay in (rnd.sample(range(8), 2) if q else range(8)): js.append(J('lint %d files %d %r %r' % (o, lay, t, u), 'lint', [o, lay, rnd.choice([0, 30, 80]), rnd.randrange(8)], t + '⟦*⟧', u))
    for i, t in enumerate(LONGE):
        for k in range(0, len(t), 4 if q else 1): js.append(J('lint long %d@%d' % (i, k), 'lint', [(2 if k % 3 == 0 else 0) + (8 if k % 2 else 0), (k // 4) % 3, 0, 0], ins(t, k), ""))
    for s in rnd.sample(allst, 60 if q else len(allst)):
        o = lintopts(rnd); t = s + '⟦*⟧'; js.append(J('lint %s fault %s' % (o, s), 'lint', o + [rnd.randrange(len(s) + 1), rnd.randrange(2)], t, rnd.choice(allst)))
    return js
P('P28', h=['h_lint'], lint=True, jobs=p28, bounds=('quick: a seeded share of the sites under random options, files and terminals; a third of all 1024 sets of options with two arrangements of input files each and a free byte; long broken inputs', 'thorough: every site; every set of options with every arrangement'), reach=['clean', 'errors', 'unreadable', 'usage'])
# ---- P30 faults (h_io)
def p30(tier, rnd, b):
    js = []; q = tier == 'quick'; allst = STMTS + BAD
    seq = [(s, '') for s in allst] + [(s + '\n', o) for s, o in zip(allst, rnd.sample(allst, len(allst)))]
    for i, (s, o) in enumerate(seq):
        for api in (0, 1, 2):
            for fl in ((0, 1, 2, 3) if not q else (rnd.randrange(4),)):
                for base in range(0, len(s + o) + 1, 128): js.append(J('rfault %d %d from %d %s' % (api, fl, base, s + o), 'rfault', [api, fl, base], s + o))
    for i in range(12 if q else 80):   # reads are in blocks: the fault around multiples of the block size, in comments, strings, between and within statements
        u = rnd.choice(["RETURN '", "RETURN `", "// ", "/* ", "RETURN 1; :c ", "RETURN 1;\n" * 40 + "RETURN "]) + 'x' * rnd.choice([900, 960, 1000, 1010, 2000]); z = rnd.choice(["' AS x;\n", '`; RETURN 2;', '*/ RETURN 1;', '\nRETURN 1; ']) * 3
        for base in (896, 1024, 1984, 2048): js += [J('rfault %d long %d from %d' % (api, i, base), 'rfault', [api, i % 4, base], u + z) for api in (0, 1, 2)]
    for s, o in (rnd.sample(seq, 110) if q else seq) + [(r, '') for r in RICH] + [(l, '') for l in LONGE[:2]]:
        for api in ((0, 1, 2) if not q else (rnd.randrange(3),)):
            w, c = rnd.choice([0, 0, 1, 40, 80]), rnd.randrange(2)
            for base in range(0, (9 if q else 40) * 128, 128): js += [J('wfault %d width %d colours %d from %d once %d %s' % (api, w, c, base, once, s + o), 'wfault', [api, w, c, base, once], s + o) for once in ((0, 1) if not q else (rnd.randrange(2),))]
    for i, (s, how, k) in enumerate(sites(tier, rnd, allst, 150)): t = mk(s, how, k); js.append(J('rfault hole %s@%d %s' % (how, k, show(t)), 'rfault', [i % 3, i % 4, 0], t))
    return js
P('P30', h=['h_io'], jobs=p30, bounds=('reading: the fault at every byte of every statement form, alone and followed by another, and around the multiples of the block size in long inputs; by all three stream interfaces; quick: one set of flags each; writing: the fault at every one of the first 1152 bytes printed for a third of the statement forms and 10 long statements', 'all flags; all statement forms; the first 5120 bytes'), reach=['failed', 'not reached'])
def p33(tier, rnd, b):
    js = []; q = tier == 'quick'
    for pre in FREE1: js.append(J('threads free %s+1' % pre, 'threads', [0, 7], T(pre) + [HANY], nogw=True))
    for t in STMTS + BAD: js.append(J('threads whole %s' % t[:40], 'threads', [0, 7], t, nogw=True)); 
    for i, (s, how, k) in enumerate(sites(tier, rnd, STMTS + BAD, 240 if q else 0)): t = mk(s, how, k); js.append(J('threads %s@%d %s' % (how, k, show(t)), 'threads', [0, (4, 3)[i % 2] if q else 7], t, nogw=True))
    return js
P('P33', h=['h_thr'], jobs=p33, bounds=('quick: every statement form and broken input as it is, and a seeded share of the sites with one free byte; parsing from a buffer and a stream, by segments, quick parsing, rendering with and without colours, cloning, describing, annotating and every accessor', 'thorough: every site'), reach=['shared'],
  outside='what two threads do to the same non-constant object; the C library; thread-local and atomic data would be given up, not judged', assume=['calls whose writes reach only objects made by the calling thread, or thread-local ones, cannot race or interfere: what is decided on every path is that no write reaches a variable of the library or a tree that is only being read'])
# ---- P34
SEGS = ["RETURN 1; x y; // c\n:a", ":a b\nRETURN 'x';\n:c 'd e'", "RETURN ; FOO\n;\n\nx", "CREATE (n);/*a*//*b*/ RETURN n AS m;;\n", "// only\n /* comments */ ", "x ^;RETURN 1", "MATCH (a)\nFOO;\n RETURN 'un", ";".join("RETURN %d" % i for i in range(12))]
def p34(tier, rnd, b):
    q = tier == 'quick'; plan = lambda: 1 + rnd.randrange(1 << 30)
    A = [J('retained mode %d every choice %s' % (m, s), 'retained', [m, 0, 0], s, 'RETURN 2; x ;') for i, s in enumerate(SEGS) for m in range(5) if not q or i == 5 or m in (2, 3) and i % 4 == 1 or m not in (2, 3) and (m + i) % 3 == 0]
    rnd.shuffle(A); B = []; C = []
    for pre in FREE1:
        for m in (0, 1, 4): B.append(J('retained mode %d free %s+1' % (m, pre), 'retained', [m, plan(), 0], T(pre) + [HANY] + T(';RETURN 1'), 'RETURN 2; x ;'))
    two = [s + ' RETURN 1 1;\n' + STMTS[(i * 11 + 5) % len(STMTS)] for i, s in enumerate(STMTS + BAD)]
    for i, (s, how, k) in enumerate(sites(tier, rnd, two, 330)): t = mk(s, how, k); B.append(J('retained mode %d %s@%d %s' % ((0, 1, 4)[i % 3], how, k, show(t)), 'retained', [(0, 1, 4)[i % 3], plan(), (0, 0, 1, 2)[i % 4]], t, rnd.choice(STMTS)))
    for i, s in enumerate(two):
        for m in ((2, 3) if not q else (2 + i % 2,)): C.append(J('retained mode %d fault %s' % (m, s), 'retained', [m, plan(), (0, 0, 2)[i % 3]], s, rnd.choice(STMTS)))
    for s in MANY + (LARGE if not q else rnd.sample(LARGE, 3)):
        if s.count(';') + s.count('\n') > 36: continue
        for m in ((0, 1, 4) if not q else (rnd.choice((0, 1, 4)),)): C.append(J('retained long mode %d %s' % (m, s[:50]), 'retained', [m, plan(), 0], s, 'RETURN 2;', maxsteps=10**10))
    rnd.shuffle(C); return many(*[lambda *a, l=l: l for l in (A, B, C)])(tier, rnd, b)
P('P34', h=['h_seg'], jobs=p34, bounds=('quick: 8 inputs of 1 to 12 segments with every choice of which of the first three segments are retained (once, twice or not; 300 and 66000 times in others), released while parsing goes on, and of the order of release; a share of the sites of a statement followed by two more, with one such choice each; from a buffer, a stream, a stream that fails at any byte below 250, with any one of the first 1024 allocations failing, and a callback which stops; at most 40 segments', 'thorough: every site, and every kind of parse for each of the 8 inputs'), reach=['kept', 'done', 'failed'])
# ---- P35
def p35(tier, rnd, b):
    js = []; q = tier == 'quick'; n = 24
    for t in ["RETURN 1;\nx y", ":a b\nRETURN ^;"]:
        for o in range(n):
            js.append(J('configured %d then %d more %s' % (o, 1 if q else 2, t), 'configured', [0, 1 if q else 2, o], t))
        if not q:
            for o in range(n):
                for o2 in range(n): js.append(J('configured %d %d then two %s' % (o, o2, t), 'configured', [0, 2, o, o2], t))
    for i, (s, how, k) in enumerate(sites(tier, rnd, STMTS + BAD, 300)):
        t = mk(s, how, k); js.append(J('configured %s@%d %s' % (how, k, show(t)), 'configured', [i % 4, 0] + [rnd.randrange(n) for _ in range(5)], t))
    return js
P('P35', h=['h_seg'], jobs=p35, bounds=('quick: histories of 2 free operations out of 12 on two configurations (three initial positions, three first ordinals, three colourings; parsing, failing to parse, replacing the configuration), on two inputs; 5 operations on a share of the sites', 'thorough: 4 free operations; every site'), reach=['configured'])
# ---- P36
P('P36', h=['h_exp'], maxsteps=600000000, jobs=std('expected', [0], 900, 1, large=0), bounds=('quick: a seeded share of the sites (one free byte in a statement form or broken input); the first error of each input; every alternative it names, with up to 4 texts each', 'thorough: every site'), reach=['expected', 'none'])
