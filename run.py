#!/usr/bin/env python3
"""Decides one property: builds /repo's current sources to bitcode, executes the harnesses symbolically, replays
violations and sampled passing paths against a native build, writes evidence/<id>.json."""
import struct, sys, os, json, time, subprocess, tempfile, shutil, shlex, glob, fcntl, threading, resource, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, V)
import struct, jobs as J
CXX, LINK = 'clang++', '/usr/lib/llvm-18/bin/llvm-link'
BCFLAGS = '-w -O2 -fno-pic -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -ftrivial-auto-var-init=pattern -emit-llvm -c'.split()
UB = '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,return,unreachable,bool,enum,float-cast-overflow'
UBTRAP = [UB, '-fsanitize-trap=undefined']
ASAN = '-fsanitize=address'; TSAN = {ASAN: '-fsanitize=thread'}
NATFLAGS = '-w -g1 -O1 -fno-omit-frame-pointer -fsanitize=address'.split() + [UB, '-fno-sanitize-recover=undefined']
NCPU = min(8, os.cpu_count() or 1)

class Fatal(Exception): pass
def sh(cmd, timeout=300, cwd=None, env=None):
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired: return 124, 'timeout: ' + ' '.join(cmd)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def ensure_engine():
    os.makedirs(V + '/build', exist_ok=True)
    with open(V + '/build/lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        src = [p for p in glob.glob(V + '/engine/**/*', recursive=True) if os.path.isfile(p)]
        outs = [V + '/build/sx', V + '/build/model.bc']
        if all(os.path.exists(o) and all(os.path.getmtime(o) >= os.path.getmtime(s) for s in src) for o in outs): return
        rc, out = sh(['bash', V + '/engine/build.sh'], 1200)
        if rc: raise Fatal('engine build failed:\n' + out[-3000:])

class Build:
    """Scratch build of /repo's working tree."""
    def __init__(self, need_native):
        self.dir = tempfile.mkdtemp(prefix='pgv.', dir='/tmp'); self.lock = threading.Lock(); self.libs = None; self.cache = {}
        env = dict(os.environ, CC='gcc', CXX='g++')
        rc, out = sh(['cmake', '-S', REPO, '-B', self.dir + '/b', '-G', 'Unix Makefiles', '-DCMAKE_BUILD_TYPE=Release', '-DCMAKE_CXX_FLAGS_RELEASE=-O1', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-Wno-dev'], 120, env=env)
        if rc: raise Fatal('cmake failed:\n' + out[-2000:])
        rc, out = sh(['make', '-C', self.dir + '/b', '-j8', '--no-print-directory', 'protogen' if need_native else 'process_template'], 300, env=env)
        if rc: raise Fatal('build of /repo failed:\n' + out[-2000:])
        self.inc = self.dir + '/b/__include'
        self.cc = {}
        for e in json.load(open(self.dir + '/b/compile_commands.json')):
            a = shlex.split(e['command']); fl = [x for x in a if x.startswith('-I') or x.startswith('-D') or x.startswith('-std')]
            self.cc[e['file']] = fl
        os.makedirs(self.dir + '/pg', exist_ok=True); os.makedirs(self.dir + '/o', exist_ok=True)
        # the text of the run-time library, for C23
        with open(self.dir + '/pg/srctext.hh', 'w') as f:
            f.write('static const struct { const char *name, *text; } SRC[] = {\n')
            for p in sorted(glob.glob(REPO + '/source/cpp/*.hh')): f.write('{"%s", "%s"},\n' % (os.path.basename(p), ''.join('\\%03o' % c for c in open(p, 'rb').read())))
            f.write('};\n')
    def ns(self):
        m = re.search(r'PROTOGEN_VERSION_NAMING\s+"(\w+)"', open(self.inc + '/cmake.hh').read())
        return 'protogen' + m.group(1) if m else 'protogen_3_0_0'
    def header(self, proto):
        """native protogen on one of /verif/protos"""
        out = self.dir + '/pg/' + proto + '.pg.hh'
        with self.lock:
            if os.path.exists(out): return
            rc, txt = sh([self.dir + '/b/protogen', V + '/protos/' + proto + '.proto', out + '.t'], 30)
            if rc: raise Fatal('protogen failed on %s.proto: %s' % (proto, txt))
            os.rename(out + '.t', out)
    def lib_files(self):
        return [f for f in self.cc if not os.path.basename(f) in ('main.cc', 'template.cc', 'tests.cc')]
    def once(self, key, fn):
        with self.lock:
            e = self.cache.get(key)
            if e is None: e = self.cache[key] = [threading.Lock(), None, None]
        with e[0]:
            if e[1] is None:
                try: e[1] = (fn(),)
                except Exception as x: e[1] = (None,); e[2] = x
            if e[2]: raise e[2]
            return e[1][0]
    def comp(self, src, out, flags, mode, ub):
        """mode: 'bc', 'native' (ASan) or 'tsan'"""
        def go():
            if mode == 'bc': cmd = [CXX] + flags + BCFLAGS + (UBTRAP if ub else []) + ['-I' + V + '/engine', '-include', V + '/engine/prefix.h', src, '-o', out]
            else: cmd = [CXX] + flags + [TSAN.get(x, x) if mode == 'tsan' else x for x in NATFLAGS] + ['-c', '-I' + V + '/engine', src, '-o', out]
            rc, txt = sh(cmd, 300)
            if rc: raise Fatal('compile failed: %s\n%s' % (src, txt[-3000:]))
            return out
        return self.once(('comp', out), go)
    def units(self, job, mode):
        """(source, flags) of everything a job links besides model/runtime"""
        std = job.get('std', 'c++11'); res = []
        inc = ['-std=' + std, '-DPG=' + self.ns(), '-I' + self.inc, '-I' + self.dir + '/pg', '-I' + REPO + '/include', '-I' + REPO + '/source', '-I' + V + '/harness']
        res.append((V + '/harness/' + job['src'], inc + ['-DX_' + d for d in job.get('defs', [])], True))
        k = job.get('link', '')
        fl = []
        if k in ('lib', 'cli'): fl += self.lib_files()
        if k == 'cli': fl += [f for f in self.cc if os.path.basename(f) == 'main.cc']
        if k == 'template': fl += [f for f in self.cc if os.path.basename(f) == 'template.cc']
        for f in fl:
            ex = []
            if os.path.basename(f) in ('main.cc', 'template.cc'): ex = ['-Dmain=sx_program_main']
            res.append((f, self.cc[f] + ex, False))
        return res
    def make(self, job, mode):
        ub = job.get('ub', True)
        objs = []
        with ThreadPoolExecutor(4) as ex:
            fs = []
            for i, (src, fl, own) in enumerate(self.units(job, mode)):
                tag = (job['name'] if own else os.path.basename(src)) + ('.ub' if ub else '') + '.' + mode + ('.bc' if mode == 'bc' else '.o')
                fs.append(ex.submit(self.comp, src, self.dir + '/o/' + tag, fl, mode, ub))
            if mode != 'bc': fs.append(ex.submit(self.comp, V + '/engine/native.cc', self.dir + '/o/%s_rt.o' % mode, ['-std=c++17'], mode, False))
            objs = [f.result() for f in fs]
        out = self.dir + '/o/' + job['name'] + ('.linked.bc' if mode == 'bc' else '.exe')
        if mode == 'bc': rc, txt = sh([LINK] + objs + [V + '/build/model.bc', '-o', out])
        else: rc, txt = sh([CXX, TSAN[ASAN] if mode == 'tsan' else ASAN, UB, '-pthread'] + objs + ['-o', out])
        if rc: raise Fatal('link failed (%s): %s' % (job['name'], txt[-2000:]))
        return out
    def locale(self):
        """a locale with a decimal comma, for native runs of jobs that have 'locale'"""
        def go():
            os.makedirs(self.dir + '/loc'); rc, txt = sh(['localedef', '--no-archive', '-c', '-i', 'de_DE', '-f', 'ISO-8859-1', self.dir + '/loc/xx_comma'], 120)
            if not os.path.exists(self.dir + '/loc/xx_comma/LC_NUMERIC'): raise Fatal('localedef failed: ' + txt[-500:])
            return self.dir + '/loc'
        return self.once(('locale',), go)
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

def replay(exe, inputs, workdir, timeout=10, path=None, env2={}):
    if path is None:
        fd, path = tempfile.mkstemp(prefix='rp.', dir=workdir); os.close(fd)
        write_replay(path, inputs)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3000', UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=98', **env2)
    sd = tempfile.mkdtemp(prefix='rd.', dir=workdir)
    try:
        try: p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=sd, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired: return 'hang', 'no termination within %d s' % timeout
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    finally: shutil.rmtree(sd, ignore_errors=True)

def lenv(b, job): return dict(LOCPATH=b.locale(), LC_ALL='xx_comma') if job.get('locale') else {}
def write_replay(path, inputs, head=()):
    with open(path, 'w') as f:
        for h in head: f.write('# ' + h.replace('\n', ' ') + '\n')
        for n, v in inputs: f.write(n + '\t' + v + '\n')

def render(inputs):
    r = []
    for n, v in inputs:
        if v[0] == 'b':
            b = bytes.fromhex(v[1:]); r.append('%s=%s' % (n, repr(b)[1:]))
        else: r.append('%s=%s' % (n, v[1:]))
    return ' '.join(r)

def number_pool(size):
    """floating-point numbers that need all their digits, over the whole range, as hexadecimal bytes"""
    import random, math; r = random.Random(1); l = []
    if size == 8:
        l = [5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1 + 0.2, 1 / 3, 9007199254740993.0, 9007199254740991.0, 123456789012345678.0, 0.1, 1e23, 4503599627370497.5, 1.0, 0.0, 1e15, 1e16, 1e17, 123456.0]
        for k in range(-307, 308, 3): l += [math.nextafter(10.0 ** k, math.inf), r.uniform(1, 10) * 10.0 ** k]
        return [struct.pack('<d', x * g).hex() for g in (1, -1) for x in l]
    l = [1e-45, 1.17549435e-38, 3.4028235e38, 0.1, 1 / 3, 16777217.0, 16777215.0, 123456789.0, 8388609.5, 1.0, 0.0]
    for k in range(-37, 38): l += [r.uniform(1, 9) * 10.0 ** k, r.uniform(1, 9) * 10.0 ** k]
    return [struct.pack('<f', x * g).hex() for g in (1, -1) for x in l]
class BadHeader(Exception): pass
def run_job(b, job, tier, seed, ncpu, log):
    t0 = time.time(); out = b.dir + '/o/' + job['name'] + '.res'
    for p in job.get('protos', []):
        try: b.header(p)
        except Fatal as e:
            if job.get('header'): raise BadHeader('%s.proto\n%s' % (p, e))
            raise
    try: bc = b.make(job, 'bc')
    except Fatal as e: # is it the generated header, on its own, that a C++11 compiler refuses?
        for p in job.get('protos', []) if job.get('header') else []:
            src = b.dir + '/o/h_' + p + '.cc'; open(src, 'w').write('#include "%s.pg.hh"\n' % p)
            rc, txt = sh(['g++', '-std=c++11', '-fsyntax-only', '-w', '-I' + b.dir + '/pg', src], 120)
            if rc: raise BadHeader('%s.proto\n%s' % (p, txt[-2500:]))
        if job.get('probe'): # or does it lack the documented classes and members?
            rc, txt = sh(['g++', '-std=c++11', '-fsyntax-only', '-w', '-DPG=' + b.ns(), '-I' + b.dir + '/pg', '-DX_PROBE'] + ['-DX_' + d for d in job.get('defs', [])] + [V + '/harness/' + job['probe']], 120)
            if rc: raise BadHeader('%s (documented members)\n%s' % (job['protos'][0], txt[-2500:]))
        raise
    nat = ThreadPoolExecutor(1).submit(b.make, job, job.get('native', 'native'))
    tl = job.get('t', 120) if tier == 'quick' else job.get('tt', job.get('t', 120) * 4)
    cmd = [V + '/build/sx', '-o', out, '-t', str(tl), '-j', str(ncpu), '-seed', str(seed + 1), '-samples', str(job.get('samples', 6)), '-viol', str(job.get('viol', 3))]
    for k in ('steps', 'mem', 'alloc'):
        if k in job: cmd += ['-' + k, str(job[k])]
    rc, txt = sh(cmd + [bc], tl + 200)
    if rc not in (0, 4): raise Fatal('engine failed on %s (%s): %s' % (job['name'], rc, txt[-1500:]))
    R = dict(paths=0, pruned=0, forks=0, instructions=0, checks=0, checks_symbolic=0, incomplete=False, pending=0, maxvars=0, solver={}, violations=[], samples=[], unsupported={}, reached={}, known={}, asserts={}, functions={}, lines=set(), crashed=rc == 4)
    if rc == 4: R['incomplete'] = True
    for f in sorted(glob.glob(out + '.*.json')):
        d = json.load(open(f))
        for k in ('paths', 'pruned', 'forks', 'instructions', 'checks', 'checks_symbolic', 'pending'): R[k] += d[k]
        R['maxvars'] = max(R['maxvars'], d['maxvars']); R['incomplete'] |= d['incomplete']
        for k, v in d['solver'].items(): R['solver'][k] = max(R['solver'].get(k, 0), v) if k.endswith('max') else R['solver'].get(k, 0) + v
        R['violations'] += d['violations']; R['samples'] += d['samples']
        for k in ('unsupported', 'reached', 'known'):
            for n, c in d[k]: R[k][n] = R[k].get(n, 0) + c
        for n, a, c in d['asserts']: x = R['asserts'].get(n, (0, 0)); R['asserts'][n] = (x[0] + a, x[1] + c)
        for n, p, fl in d['functions']: R['functions'][n] = (p, fl)
        for l in d['lines']: R['lines'].add(tuple(l))
        os.unlink(f)
    R['engine_wall'] = time.time() - t0
    exe = nat.result(); env2 = lenv(b, job)
    # passing paths against the real code
    rng = R['samples']; step = max(1, len(rng) // job.get('replays', 24)); picked = rng[::step][:job.get('replays', 24)]
    R['validated'] = 0; R['mismatch'] = []; R['confirmed'] = []; R['unconfirmed'] = []; R['shown'] = [render(s)[:400] for s in picked[:4]]
    with ThreadPoolExecutor(NCPU) as ex:
        for s, (rc, txt) in zip(picked, ex.map(lambda s: replay(exe, s, b.dir, env2=env2), picked)):
            if rc == 0: R['validated'] += 1
            elif rc in (77, 78): R['mismatch'].append((render(s), rc, txt[-500:]))
            elif 'FATAL: ThreadSanitizer' in str(txt): pass # cannot run here; nothing is validated
            else: R['confirmed'].append(dict(kind='native', msg='a path the engine passed fails natively: ' + last(txt), where='', stack='', tags='', inputs=s, rc=rc, native=txt[-1500:], job=job['name']))
        seen = {}; vs = []
        for v in R['violations']:
            k = (v['kind'], v['msg'], v['where']); seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 3: vs.append(v)
        for v, (rc, txt) in zip(vs, ex.map(lambda v: replay(exe, v['inputs'], b.dir, env2=env2), vs)):
            v.update(rc=rc, native=txt[-1500:], job=job['name'])
            if v['kind'] == 'known':
                if rc == 79: R['validated'] += 1
                else: R['mismatch'].append((render(v['inputs']), rc, txt[-500:]))
            elif rc in (0, 77, 78, 79): R['unconfirmed'].append(v)
            else: R['confirmed'].append(v)
        # where the engine over-approximates (digits of floating-point numbers), its model may not be a failing input: others of the same kind are tried on the real code
        if job.get('pool'):
            for v in list(R['unconfirmed']):
                alt = [[(n, 'b' + c if n in job['pool'] and x[0] == 'b' else x) for n, x in v['inputs']] for k, x0 in v['inputs'] if k in job['pool'] for c in number_pool(len(x0) // 2)]
                for s, (rc, txt) in zip(alt, ex.map(lambda s: replay(exe, s, b.dir, env2=env2), alt)):
                    if rc not in (0, 77, 78, 79, 'hang'): R['unconfirmed'].remove(v); v.update(rc=rc, native=txt[-1500:], inputs=s); R['confirmed'].append(v); break
    R['wall'] = time.time() - t0; R['exe'] = exe
    return R

def last_error(t):
    for l in t.splitlines():
        if 'error:' in l: return l.strip()[-300:]
    return ''
def last(t):
    for l in t.splitlines():
        if 'CHECK FAILED' in l or 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'terminate called' in l: return l.strip()
    l = [x for x in t.strip().splitlines() if x.strip()]
    return l[-1][:200] if l else ''

def known_findings():
    kf = {}
    for l in open(V + '/known-findings.txt') if os.path.exists(V + '/known-findings.txt') else []:
        m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l.strip())
        if m: kf.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return kf

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1); only = None; keep = False; rp = None; verbose = False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--job': only = a.pop(0)
        elif x == '--keep': keep = True
        elif x == '--replay': rp = a.pop(0)
        elif x == '-v': verbose = True
    t0 = time.time()
    js = [j for j in J.jobs(pid, tier) if only is None or re.fullmatch(only, j['name'])]
    if rp: # replay one recorded violation on the real code
        jn = [l.split(':', 1)[1].strip() for l in open(rp) if l.startswith('# job:')][0]; js = [j for j in J.jobs(pid, 'thorough') + J.jobs(pid, 'quick') if j['name'] == jn][:1]
    ensure_engine()
    b = Build(True)
    try:
        if rp:
            for p in js[0].get('protos', []): b.header(p)
            rc, txt = replay(b.make(js[0], js[0].get('native', 'native')), None, b.dir, path=os.path.abspath(rp), env2=lenv(b, js[0])); print(txt); print('exit', rc); return 0 if rc == 0 else 1
        res = {}; errs = []; bad = []
        # jobs share the cores: 'w' is the number of processes a job gets
        sem = threading.Condition(); free = [NCPU]
        def one(j):
            w = min(NCPU, j.get('w', 2))
            with sem:
                while free[0] < w: sem.wait()
                free[0] -= w
            try: res[j['name']] = run_job(b, j, tier, seed, w, print)
            except BadHeader as e: bad.append((j['name'], str(e)))
            except Fatal as e: errs.append('%s: %s' % (j['name'], e))
            finally:
                with sem: free[0] += w; sem.notify_all()
            if verbose and j['name'] in res:
                R = res[j['name']]; print('  %-22s paths %d pruned %d forks %d checks %d/%d z3 %d (%.1fs) instr %.1fM val %d viol %d/%d inc %s uns %s known %s %.1fs (engine %.1f)' % (j['name'], R['paths'], R['pruned'], R['forks'], R['checks'], R['checks_symbolic'], R['solver'].get('z3_queries', 0), R['solver'].get('z3_time', 0), R['instructions'] / 1e6, R['validated'], len(R['confirmed']), len(R['violations']), R['incomplete'], dict(list(R['unsupported'].items())[:4]), R['known'], R['wall'], R['engine_wall'])); sys.stdout.flush()
        with ThreadPoolExecutor(16) as ex: list(ex.map(one, sorted(js, key=lambda j: -j.get('cost', 0))))
        return report(pid, tier, seed, js, res, errs, t0, only, verbose, bad)
    finally:
        if keep: print('kept', b.dir)
        else: b.close()

def report(pid, tier, seed, js, res, errs, t0, only, verbose, bad=()):
    rdir = V + '/replay/' + pid; shutil.rmtree(rdir, ignore_errors=True)
    kf = known_findings().get(pid, {}); viol = []; problems = list(errs); knownseen = {}
    reached = set()
    for n, R in res.items():
        reached |= set(R['reached'])
        for v in R['confirmed']: viol.append(v)
        for v in R['unconfirmed']: problems.append('%s: not reproduced natively: %s %s at %s (inputs %s)' % (n, v['kind'], v['msg'], v['where'], render(v['inputs'])[:300]))
        for m in R['mismatch']: problems.append('%s: replay diverged (%s) on %s: %s' % (n, m[1], m[0][:300], m[2][-200:]))
        for k, c in R['known'].items():
            if k in kf: knownseen[k] = knownseen.get(k, 0) + c
            else:
                for v in R['violations']:
                    if v['kind'] == 'known' and v['msg'] == k: v = dict(v, kind='check', msg='unlisted finding ' + k); viol.append(v); break
    for n, t in bad: viol.append(dict(kind='compile', msg='the generated header is refused: ' + t.split('\n')[0], where=last_error(t), stack='', inputs=[], rc='', native=t, job=n))
    missing = []
    for j in js:
        R = res.get(j['name'])
        for l in j.get('reach', []):
            if R is not None and l not in R['reached']: missing.append(j['name'] + ':' + l)
    inc = [n for n, R in res.items() if R['incomplete']]
    uns = {}
    for n, R in res.items():
        for k, c in R['unsupported'].items(): uns[n + ': ' + k] = c
    tot = lambda k: sum(R[k] for R in res.values())
    funcs = {}
    for R in res.values():
        for f, (p, fl) in R['functions'].items():
            base = os.path.basename(fl)
            if 'model' in fl or 'harness' in fl or p.startswith('sx') : continue
            if fl.startswith('/usr') : continue
            funcs[p or f] = base
    lines = {}
    for R in res.values():
        for f, l in R['lines']:
            if f.startswith(REPO) or '.pg.hh' in f: lines.setdefault(os.path.basename(f), set()).add(l)
    solver = {}
    for R in res.values():
        for k, v in R['solver'].items(): solver[k] = round(max(solver.get(k, 0), v) if k.endswith('max') else solver.get(k, 0) + v, 3)
    samples = []
    for n, R in res.items():
        for s in R['shown'][:2]: samples.append(n + ': ' + s)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(states=tot('paths'), transitions=tot('forks'), traces_validated_against_impl=tot('validated'), samples=samples[:40], exhaustive=not inc and not uns and not problems,
            what='states = symbolic paths explored to the end; transitions = two-way branches decided on symbolic data; traces_validated_against_impl = solver models of explored paths re-executed on the native ASan/UBSan build of the same code with the same verdict',
            jobs={j['name']: dict(bounds=j.get('bounds', ''), paths=res[j['name']]['paths'], pruned=res[j['name']]['pruned'], assertions={k: dict(evaluated=v[0], symbolic=v[1]) for k, v in res[j['name']]['asserts'].items()}, symbolic_variables_max=res[j['name']]['maxvars'], instructions=res[j['name']]['instructions'], complete=not res[j['name']]['incomplete'] and not res[j['name']]['unsupported'], reached=res[j['name']]['reached'], wall_s=round(res[j['name']]['wall'], 2)) for j in js if j['name'] in res},
            assertions_checked=tot('checks'), assertions_symbolic=tot('checks_symbolic'), solver=solver, functions_encoded=sorted(set(funcs))[:400], functions_encoded_count=len(funcs), repo_lines_executed={k: len(v) for k, v in lines.items()},
            incomplete_jobs=inc, unsupported=uns, vacuity_labels_missing=missing, problems=problems[:20], known_findings={k: knownseen.get(k, 0) for k in kf}),
        assumptions=J.assumptions(pid))
    os.makedirs(V + '/evidence', exist_ok=True)
    if only is None: json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s %s: %d jobs, %d paths, %d branches, %d assertions (%d symbolic), %d z3 queries in %.1fs, %d traces validated natively, %.0fs' % (pid, tier, len(res), tot('paths'), tot('forks'), tot('checks'), tot('checks_symbolic'), solver.get('z3_queries', 0), solver.get('z3_time', 0), tot('validated'), time.time() - t0))
    for k in kf: print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kf[k]))
    for k, c in uns.items(): print('INCOMPLETE: %s (%d paths)' % (k, c))
    for n in inc: print('INCOMPLETE: %s stopped at its time limit with %d pending states' % (n, res[n]['pending']))
    if viol:
        os.makedirs(rdir, exist_ok=True); seen = set()
        for i, v in enumerate(viol):
            k = (v['msg'], v['where'])
            if k in seen: continue
            seen.add(k); p = '%s/%d.txt' % (rdir, len(seen))
            write_replay(p, v['inputs'], ['property: ' + pid, 'job: ' + v['job'], 'kind: ' + v['kind'], 'what: ' + v['msg'], 'where: ' + v['where'], 'stack: ' + v['stack'], 'native: %s %s' % (v.get('rc'), last(v.get('native', ''))), 'inputs: ' + render(v['inputs']), 'rerun: python3 /verif/run.py %s --replay %s' % (pid, p)])
            print('  %s [%s] %s at %s\n    inputs: %s\n    native run: %s %s' % (v['job'], v['kind'], v['msg'], v['where'], render(v['inputs'])[:600], v.get('rc'), last(v.get('native', ''))))
            print('VIOLATION property=%s replay=%s' % (pid, p))
            if len(seen) >= 12: break
        for p in problems: print('PROBLEM: ' + p)
        return 1
    for m in missing: print('VACUOUS: label never reached: ' + m)
    for p in problems: print('PROBLEM: ' + p)
    if problems or missing or (not res and not bad): return 2
    return 0
if __name__ == '__main__':
    try: rc = main()
    except Fatal as e: print('ERROR: %s' % e); rc = 2
    sys.exit(rc)
