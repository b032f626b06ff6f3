"""Build the real code to bitcode (and natively), run symx over jobs, replay what it reports."""
import os, sys, json, subprocess, shutil, tempfile, time, glob, re, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
NCPU = int(os.environ.get('VX_J', os.cpu_count() or 8))
UBSAN = '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,float-cast-overflow,bool,enum,unreachable,return,vla-bound'
CFG = dict(PACKAGE_VERSION='0.6.4~devel', PACKAGE_MAJOR_VERSION='0', PACKAGE_MINOR_VERSION='6', PACKAGE_PATCH_VERSION='4', PACKAGE_DEVELOPMENT_VERSION='devel', PACKAGE_STATUS_VERSION='1')
class BuildError(Exception): pass
def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd)[:400], p.stdout[-3000:]))
    return p.stdout
class Build:
    def __init__(self, defs=()):
        self.defs = list(defs)
        self.dir = tempfile.mkdtemp(prefix='vx-'); self.lib = self.dir + '/lib/src'; self.lint = self.dir + '/linter/src'
        self.native_dir = {}
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def prepare(self):
        for d in ('lib/src', 'linter/src'):
            os.makedirs(self.dir + '/' + d)
            for f in os.listdir(REPO + '/' + d):
                if os.path.isfile(REPO + '/' + d + '/' + f) and not f.endswith(('.o', '.lo', '.la', '.am')) and not f.endswith('_leg.c') and f not in ('Makefile.in', 'cypher-parser.h'): shutil.copy(REPO + '/' + d + '/' + f, self.dir + '/' + d)
        shutil.copy(V + '/harness/config.h', self.dir + '/config.h')
        s = open(self.lib + '/cypher-parser.h.in').read()
        for k, v in CFG.items(): s = s.replace('@%s@' % k, v)
        open(self.lib + '/cypher-parser.h', 'w').write(s)
        for g in glob.glob(self.lib + '/*.leg'): sh(['leg', '-o', g[:-4] + '_leg.c', g])
        self.csrc = sorted(f for f in glob.glob(self.lib + '/*.c') if not f.endswith('_leg.c'))
        self.lsrc = sorted(glob.glob(self.lint + '/*.c'))
    def flags(self): return ['-std=gnu11', '-DHAVE_CONFIG_H', '-I' + self.dir, '-I' + self.lib, '-I' + self.lint, '-I' + V + '/harness', '-w'] + self.defs
    def cc_bc(self, src, out, extra=()):
        sh(['clang', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-builtin', '-D__NO_INLINE__', '-emit-llvm', '-c'] + self.flags() + list(extra) + [src, '-o', out]); return out
    def bitcode(self, harnesses, lint=False, ubsan=True):
        o = self.dir + '/bc'; os.makedirs(o, exist_ok=True); ub = [UBSAN, '-fsanitize-trap=all'] if ubsan else []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            order = sorted(self.csrc, key=lambda f: -os.path.getsize(f) if 'parser.c' not in f else -10**9)
            libs = [ex.submit(self.cc_bc, f, '%s/lib_%s.bc' % (o, os.path.basename(f)[:-2]), ub) for f in order]
            oth = [ex.submit(self.cc_bc, V + '/harness/minilibc.c', o + '/minilibc.bc')] + [ex.submit(self.cc_bc, V + '/harness/%s.c' % h, '%s/h_%s.bc' % (o, h)) for h in harnesses]
            lin = [ex.submit(self.cc_bc, f, '%s/lint_%s.bc' % (o, os.path.basename(f)[:-2]), ub + ['-Dmain=cypher_lint_main']) for f in self.lsrc] if lint else []
            libs = [f.result() for f in libs]; oth = [f.result() for f in oth]; lin = [f.result() for f in lin]
        passes = '-passes=function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)'
        def one(name, files):
            sh(['llvm-link', '-o', '%s/%s.l.bc' % (o, name)] + sorted(files)); sh(['opt', passes, '%s/%s.l.bc' % (o, name), '-o', '%s/%s.bc' % (o, name)]); return '%s/%s.bc' % (o, name)
        with cf.ThreadPoolExecutor(2) as ex: a = ex.submit(one, 'LIB', libs + lin); b = ex.submit(one, 'HARN', oth); self.bclib, self.bch = a.result(), b.result()
    def native(self, harnesses, lint=False, san='asan'):
        key = san + ('l' if lint else '')
        if key in self.native_dir: return self.native_dir[key]
        o = '%s/n_%s' % (self.dir, key); os.makedirs(o, exist_ok=True)
        if san == 'asan': cc = ['gcc', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute,returns-nonnull-attribute,pointer-overflow,null,alignment,object-size,vptr', '-fsanitize=float-cast-overflow']
        elif san == 'msan': cc = ['clang', '-g', '-O1', '-fsanitize=memory', '-fno-sanitize-recover=all']
        elif san == 'tsan': cc = ['gcc', '-g', '-O1', '-fsanitize=thread', '-DVX_NOALLOC']
        else: cc = ['gcc', '-g', '-O2']
        inc = ['-include', V + '/harness/vx_alloc.h']
        def one(src, out, extra): sh(cc + self.flags() + extra + ['-c', src, '-o', out]); return out
        with cf.ThreadPoolExecutor(NCPU) as ex:
            js = [ex.submit(one, f, '%s/%s.o' % (o, os.path.basename(f)[:-2]), inc) for f in sorted(self.csrc, key=lambda f: 'parser.c' not in f)]
            js += [ex.submit(one, V + '/harness/%s.c' % h, '%s/h_%s.o' % (o, h), inc) for h in harnesses]
            js += [ex.submit(one, V + '/harness/native.c', o + '/native.o', [])]
            if lint: js += [ex.submit(one, f, '%s/l_%s.o' % (o, os.path.basename(f)[:-2]), inc + ['-DVX_LINT', '-Dmain=cypher_lint_main']) for f in self.lsrc]
            objs = [j.result() for j in js]
        exe = o + '/replay'; sh(cc + objs + ['-rdynamic', '-ldl', '-lm', '-lpthread', '-o', exe]); self.native_dir[key] = exe; return exe
ENV = dict(os.environ, ASAN_OPTIONS='exitcode=98:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='exitcode=98:print_stacktrace=1', MSAN_OPTIONS='exitcode=98', TSAN_OPTIONS='exitcode=98:halt_on_error=1')
def replay(exe, recfile, timeout=120):
    p = subprocess.run([exe, recfile], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout, text=True, errors='replace')
    rcs = [int(l.split()[1]) for l in p.stdout.splitlines() if l.split()[0].isdigit()]
    return rcs, p.stderr
def symx(build, jobs, tl, j=None):
    out = build.dir + '/out'; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    jf = build.dir + '/jobs.jsonl'
    with open(jf, 'w') as f:
        for x in jobs: f.write(json.dumps(x) + '\n')
    exe = os.environ.get('VX_SYMX', V + '/engine/symx')
    p = subprocess.run([exe, '--lib', build.bclib, '--bc', build.bch, '--jobs', jf, '--out', out, '-j', str(j or NCPU), '--time', str(tl)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    recs = []
    for fn in glob.glob(out + '/r.*.jsonl'):
        for l in open(fn, errors='replace'):
            try: recs.append(json.loads(l))
            except ValueError: recs.append(dict(t='err', msg='unparsable result line', job='?'))
    cov = None
    for fn in glob.glob(out + '/cov.*'):
        b = open(fn, 'rb').read(); cov = bytearray(b) if cov is None else bytearray(x | y for x, y in zip(cov, b))
    blocks = [l.split() for l in open(out + '/blocks.txt')] if os.path.exists(out + '/blocks.txt') else []
    return p.returncode, p.stdout, recs, cov, blocks
