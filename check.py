#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /repo's current tree by symbolic execution (see DESIGN.md)."""
import os, sys, json, time, random, threading, collections, subprocess, re
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/tools')
import vx, props
pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
P = props.PROPS[pid]; TL = int(os.environ.get('VX_TL', P.get('tl', (55, 780))[tier == 'thorough']))
evf = '%s/evidence/%s.json' % (V, pid)
os.makedirs(V + '/evidence', exist_ok=True); rdir = '%s/evidence/replay-%s' % (V, pid)
def load_known():
    out = []
    try: L = open(V + '/known-findings.txt').read().splitlines()
    except FileNotFoundError: L = []
    for l in L:
        m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l)
        if m and m.group(1) == pid: out.append((re.compile(m.group(2), re.S), m.group(3)))
    return out
def main():
    b = vx.Build(P.get('defs', ())); nat = {}
    try:
        try:
            if not os.path.exists(os.environ.get('VX_SYMX', V + '/engine/symx')): subprocess.check_call(['make', '-s', '-C', V + '/engine'])
            b.prepare()
            def bg():
                try: nat['exe'] = b.native(P['h'], lint=P.get('lint', False))
                except Exception as e: nat['err'] = str(e)
            b.bitcode(P['h'], lint=P.get('lint', False), ubsan=P.get('ubsan', True))
        except vx.BuildError as e: print('BUILD FAILED\n%s' % e); return 2
        th = threading.Thread(target=bg); th.start(); th.join()
        if 'err' in nat: print('BUILD FAILED (native)\n' + nat['err']); return 2
        rnd = random.Random(seed); jobs = P['jobs'](tier, rnd, b)
        for i, j in enumerate(jobs): j.setdefault('samples', 2 if len(jobs) > 300 else 6); j.setdefault('maxsteps', P.get('maxsteps', 60000000))
        rc, out, recs, cov, blocks = vx.symx(b, jobs, TL)
        by = collections.defaultdict(list)
        for r in recs: by[r['t']].append(r)
        errs = [r.get('msg', '') for r in by['err']]
        # a path that calls what neither the tree nor the small C library defines is given up, not judged: no answer only if that is most of them
        gone = [e for e in errs if e.startswith('call to undefined function')]; np_ = sum(s.get('done', 0) for s in by['stat'])
        if gone and len(gone) * 2 < np_: errs = [e for e in errs if e not in set(gone)]
        else: gone = []
        if rc != 0: print('engine exit %d\n%s' % (rc, out[-2000:]))
        # violations: deduplicate, replay on the real code
        sig = collections.OrderedDict()
        for r in by['vio']: sig.setdefault((r['kind'], r['msg'], r.get('where', '')), []).append(r)
        known = load_known(); confirmed, unconf, knownhit = [], [], []
        def confirm(k, rr):
            kind = k[0]
            for r in rr[:3]:
                f = '%s/rp.%d' % (b.dir, abs(hash((k, r['rec']))) % 10**12); open(f, 'w').write(r['rec'])
                try:
                    if kind == 'uninit': rcs, err = vx.replay(b.native(P['h'], P.get('lint', False), 'msan'), f, 60)
                    elif kind in ('globalwrite', 'sharedwrite'): rcs, err = vx.replay(b.native(P['h'], P.get('lint', False), 'tsan'), f, 60)
                    else: rcs, err = vx.replay(nat['exe'], f, 60)
                except subprocess.TimeoutExpired: rcs, err = [95], 'timeout'
                c = rcs[0] if rcs else 0
                if c == 0 or c in (96, 97, 94): continue
                return r, c, err
            return None
        for k, rr in list(sig.items())[:40]:
            c = confirm(k, rr)
            txt = ' '.join(str(x) for x in k)
            if not c: unconf.append(txt); continue
            r, code, err = c; job = r['job']
            hit = [d for rx, d in known if rx.search(txt + ' job=' + job)]
            if hit: knownhit.append(hit[0]); continue
            os.makedirs(rdir, exist_ok=True); path = '%s/%d.rec' % (rdir, len(confirmed)); open(path, 'w').write(r['rec'])
            confirmed.append((txt, job, path, code, err))
        # the engine's own paths against the real code
        samp = [r for r in by['sample']]; rnd.shuffle(samp); samp = samp[:P.get('nval', 400) * (4 if tier == 'thorough' else 1)]
        okv = badv = 0; badl = []
        if samp:
            n = 8; chunks = [samp[i::n] for i in range(n)]
            def run(i):
                if not chunks[i]: return []
                f = '%s/val.%d' % (b.dir, i); open(f, 'w').write('--\n'.join(r['rec'] for r in chunks[i]))
                try: return vx.replay(nat['exe'], f, 200)[0]
                except subprocess.TimeoutExpired: return []
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(run, range(n)))
            for ch, rs in zip(chunks, res):
                for r, c in zip(ch, rs):
                    if c == 0: okv += 1
                    else: badv += 1; badl.append((r['job'], c))
        st = by['stat']; S = lambda k: sum(s.get(k, 0) for s in st)
        reached = collections.Counter()
        for s in st:
            for k, v in (s.get('reached') or {}).items(): reached[k] += v
        want = P.get('reach', []); miss = [w for w in want if not reached.get(w)]
        libb = [(x, c) for x, c in zip(blocks, cov or b'') if x[0] == '1']; fns = sorted({x[1] for x, c in libb if c}); files = sorted({x[2] for x, c in libb if c})
        jobsdone = {s['job'] for s in st}
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(confirmed),
            assumptions=props.ASSUME + P.get('assume', []),
            coverage=dict(states=S('paths'), transitions=S('steps'), traces_validated_against_impl=okv,
                samples=[dict(job=r['job'], record=r['rec'][:400]) for r in samp[:3]] or [dict(job=s['job'], paths=s['paths']) for s in st[:3]],
                what='states: symbolic execution paths completed; transitions: IR instructions executed symbolically; traces_validated: path models re-run natively (ASan+UBSan) with the same outcome trace',
                jobs=len(jobs), jobs_started=len(jobsdone), jobs_not_started=len(by['notrun']), paths_completed=S('done'), paths_left_at_deadline=S('left'), paths_abandoned=S('abandoned') + len(gone), abandoned_because=sorted(set(gone)), infeasible=S('infeasible'),
                forks=S('forks'), symbolic_branches=S('symbr'), assertions_decided=S('asserts'), queries=S('q'), solver_queries=S('z3'), solver_sat=S('sat'), solver_unsat=S('unsat'), solver_unknown=S('unknown'), multi_variable_queries=S('multi'), solver_seconds=round(S('z3s'), 2), table_solver_mismatches=S('mism'),
                functions_encoded=len(fns), functions=fns, files=len(files), blocks_covered=sum(1 for x, c in libb if c), blocks=len(libb),
                bounds=P['bounds'][tier == 'thorough'] if isinstance(P['bounds'], tuple) else P['bounds'], outside=P.get('outside', ''),
                reached=dict(reached), reach_missing=miss, exhaustive=(S('left') == 0 and not by['notrun'] and S('abandoned') == 0 and not gone),
                validation_failures=badl[:10], unconfirmed=unconf[:20], known_findings=sorted(set(knownhit)), engine_errors=errs[:10]))
        json.dump(ev, open(evf, 'w'), indent=1)
        print('%s %s: %d jobs (%d not run), %d paths, %d left, %.1fM steps, %d/%d solver queries, %d functions, %d/%d blocks, %d traces validated, %d differ, %.0fs' % (pid, tier, len(jobs), len(by['notrun']), S('paths'), S('left'), S('steps') / 1e6, S('z3'), S('q'), len(fns), ev['coverage']['blocks_covered'], len(libb), okv, badv, time.time() - t0))
        if miss: print('note: never reached:', miss)
        if gone: print('note: %d paths given up:' % len(gone), sorted(set(gone))[:5])
        if badl: print('note: %d path models behave differently natively:' % badv, badl[:5])
        for e in sorted(set(errs))[:5]: print('engine error:', e)
        for u in unconf[:10]: print('unconfirmed (not reproduced on the real code, not reported):', u)
        for k in sorted(set(knownhit)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
        for txt, job, path, code, err in confirmed[:12]:
            print('  %s\n  job: %s  native exit %d' % (txt, job[:300], code))
            e = [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l or 'VIOL' in l or 'ssert' in l][:2]
            for l in e: print('   ', l[:200])
        if confirmed: print('VIOLATION property=%s replay=%s' % (pid, confirmed[0][2])); return 1
        if errs or rc: return 2
        return 0
    finally: b.close()
sys.exit(main())
