#!/usr/bin/env python3
"""Decide one property:  check.py <property-id> [--tier quick|thorough]
Regenerates the encoding (LLVM bitcode) from the current sources in /repo, executes the harnesses
of the property symbolically with engine/osym, replays every counterexample natively, and
writes evidence/<id>.json.  Exit 0 held, 1 violated (a VIOLATION line), 2 no answer."""
import sys, os, json, hashlib, subprocess, time, glob, shutil, re, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('OSYM_REPO', '/repo'); B = os.path.join(V, 'build')
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'harness'))
import checks
LLVM = '/usr/lib/llvm-18/bin'
NCPU = os.cpu_count() or 4
CXXF = ['-std=c++14', '-O1', '-g1', '-fno-math-errno', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-pie', '-fno-pic',
        '-emit-llvm', '-c', '-w', '-I' + V + '/env/include', '-I' + R + '/src', '-I' + R + '/tpl']
EXCLUDE = re.compile(r'Omega_h_(meshb|egads|exodus|stk|dolfin|for)\.cpp$')
WRAPS = 'malloc,calloc,realloc,free,mkdir,access,stat,lstat,remove,rmdir,unlink,getcwd,opendir,readdir,closedir,system'.split(',')

class NoAnswer(Exception): pass
def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return r.returncode, r.stdout
def must(cmd, what):
    rc, o = sh(cmd)
    if rc: raise NoAnswer('%s failed:\n%s\n%s' % (what, ' '.join(cmd), o[-3000:]))
    return o
def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else p.encode()); m.update(b'\0')
    return m.hexdigest()[:20]
def rd(p):
    with open(p, 'rb') as f: return f.read()

def build_engine():
    out = B + '/engine/osym'
    srcs = sorted(glob.glob(V + '/engine/*.[chi]pp') + glob.glob(V + '/engine/*.inc') + [V + '/engine/Makefile'])
    key = h(*[rd(s) for s in srcs]); kf = B + '/engine/key'
    if not (os.path.exists(out) and os.path.exists(kf) and rd(kf).decode() == key):
        must(['make', '-s', '-j4', '-C', V + '/engine'], 'building the engine')
        open(kf, 'w').write(key)
    return out

_hdr = None
def hdr_key():
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(R + '/src/*.hpp') + glob.glob(R + '/src/*.h') + glob.glob(R + '/tpl/**/*', recursive=True) + glob.glob(V + '/env/include/*'))
        _hdr = h(*[p.encode() + rd(p) for p in fs if os.path.isfile(p)])
    return _hdr
def compile_bc(src, flags=None, cc='clang++'):
    flags = CXXF if flags is None else flags
    key = h(hdr_key(), rd(src), src, ' '.join(flags), *([rd(x) for x in sorted(glob.glob(V + '/harness/*.hpp'))] if '/harness/' in src else [])); out = B + '/bc/' + os.path.basename(src) + '.' + key + '.bc'
    if not os.path.exists(out):
        tmp = out + '.%d.%d' % (os.getpid(), threading.get_ident())
        must([LLVM + '/' + cc] + flags + [src, '-o', tmp], 'compiling ' + os.path.basename(src)); os.rename(tmp, out)
    return out
def nm(bc):
    c = bc + '.nm'
    if not os.path.exists(c):
        o = must([LLVM + '/llvm-nm', bc], 'nm'); t = c + '.%d.%d' % (os.getpid(), threading.get_ident()); open(t, 'w').write(o); os.rename(t, c)
    d, u, w = set(), set(), set()
    for l in open(c):
        f = l.split()
        if len(f) < 2: continue
        k, n = f[-2], f[-1]
        if k == 'U': u.add(n)
        elif k in 'wv': u.add(n)
        else: (w if k in 'WV' else d).add(n)
    return d, u, w

class Lib:
    """bitcode of the library and the environment"""
    def __init__(self, ex):
        os.makedirs(B + '/bc', exist_ok=True)
        self.srcs = [s for s in sorted(glob.glob(R + '/src/Omega_h_*.cpp')) if not EXCLUDE.search(s)]
        self.f = [ex.submit(compile_bc, s) for s in self.srcs]
        e = V + '/env/'
        self.fenv = [ex.submit(compile_bc, e + f) for f in ('io_model.cpp', 'mpi_sim.cpp')]
        self.fl = [ex.submit(compile_bc, e + 'engine_libc.c', ['-w', '-O1', '-g1', '-fno-pie', '-fno-builtin', '-emit-llvm', '-c', '-I' + e + 'include'], 'clang'),
                   ex.submit(compile_bc, e + 'engine_libc.cpp', CXXF + ['-fno-builtin'])]
    def done(self):
        self.lib = [f.result() for f in self.f]; self.env = [f.result() for f in self.fenv]; self.libc = [f.result() for f in self.fl]
        self.bysym = {}
        for b in self.lib + self.env:
            d, u, w = nm(b)
            for s in d: self.bysym.setdefault(s, b)
        for b in self.lib + self.env:
            for s in nm(b)[2]: self.bysym.setdefault(s, b)
    def closure(self, roots):
        seen, todo = [], list(roots)
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.append(b)
            for s in nm(b)[1]:
                if s in self.bysym and self.bysym[s] not in seen: todo.append(self.bysym[s])
                elif s == 'mkdir' or s == 'access' or s == 'opendir':
                    if self.env[0] not in seen: todo.append(self.env[0])
        return seen
def link(lib, hbc, entry, extra_opt=()):
    objs = lib.closure([hbc]); key = h(*[os.path.basename(o) for o in objs + lib.libc], entry)
    base = B + '/link/' + entry + '.' + key; os.makedirs(B + '/link', exist_ok=True)
    eng, nat = base + '.eng.bc', base + '.nat.bc'
    pub = '-internalize-public-api-list=' + entry + ',__wrap_*,osym*,mpi_sim*'
    def one(objs, out, pub):
        if os.path.exists(out): return
        t = out + '.%d.%d' % (os.getpid(), threading.get_ident())
        must([LLVM + '/llvm-link', *objs, '-o', t], 'linking'); must([LLVM + '/opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + pub, t, '-o', t + '2'], 'dce')
        os.rename(t + '2', out); os.unlink(t)
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(one, objs + lib.libc, eng, entry + ',__wrap_*'); b = ex.submit(one, objs, nat, entry + ',__wrap_*'); a.result(); b.result()
    return eng, nat, [os.path.basename(o).split('.')[0] for o in objs]

_natlock = threading.Lock()
def native(nat, entry, asan=False):
    out = nat[:-7] + ('.asan' if asan else '.exe')
    with _natlock:
        if os.path.exists(out): return out
        t = out + '.%d.%d' % (os.getpid(), threading.get_ident()); bc = nat
        wr = ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)]
        if asan:
            must([LLVM + '/opt', '-passes=forceattrs', '-force-attribute=sanitize_address', nat, '-o', t + '.bc'], 'asan attrs'); bc = t + '.bc'
        o = t + '.o'
        must([LLVM + '/clang++', '-O0', '-w', '-fno-pie', '-c', '-x', 'ir', bc, '-o', o] + (['-fsanitize=address'] if asan else []), 'native code generation')
        must([LLVM + '/clang++', '-std=c++14', '-O1', '-w', '-fno-pie', '-I' + V + '/env/include', '-DOSYM_ENTRY=' + entry, V + '/env/runtime.cpp', o, '-no-pie', '-o', t] + wr + (['-fsanitize=address', '-DOSYM_ASAN'] if asan else []), 'native link')
        os.unlink(o); os.rename(t, out)
    return out
def write_replay(path, params, inputs, comment=''):
    with open(path, 'w') as f:
        for k, v in params.items(): f.write('p %s %d\n' % (k, v & (2**64 - 1)))
        for i in inputs: f.write('v %s %d\n' % (i[0].replace(' ', '_'), i[2]))
    if comment: open(path + '.txt', 'w').write(comment)
def run_native(exe, rep, timeout=20, fill=None):
    env = dict(os.environ, OSYM_REPLAY=rep, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:exitcode=95:abort_on_error=0:alloc_dealloc_mismatch=1')
    if fill is not None: env['OSYM_FILL'] = str(fill); env['ASAN_OPTIONS'] += ':max_malloc_fill_size=1000000:malloc_fill_byte=%d' % fill
    d = rep + '.cwd'; os.makedirs(d, exist_ok=True)
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=d)
        return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired: return 'timeout', '', ''
    finally: shutil.rmtree(d, ignore_errors=True)
def confirm(v, nat, entry, params, rep):
    """replay a counterexample against the compiled code; returns a description or None"""
    exe = native(nat, entry)
    kind = v['kind']
    uninit = any(len(i) > 3 and i[3] for i in v['inputs'])
    fills = [None] + ([0, 255, 127, 165, 1] if uninit or kind in ('MEMORY',) else [])
    for fb in fills:
        rc, o, e = run_native(exe, rep, fill=fb, timeout=10 if kind == 'STEP-LIMIT' else 30)
        if rc == 99 or rc == 97 or rc == 96 or (isinstance(rc, int) and rc < 0):
            last = [l for l in o.splitlines() if not l.startswith('OBS')][-1:] or ['signal %s' % rc]
            return 'native replay: ' + last[0] + (' (heap filled with byte %d)' % fb if fb is not None else '') + (' | ' + e.strip().splitlines()[0][:200] if e.strip() else '')
        if rc == 'timeout': return 'native replay: does not terminate within the time limit'
        if rc not in (0, 98) : return 'native replay: exit status %s %s' % (rc, e.strip()[:200])
    if kind in ('MEMORY', 'DIV', 'UNREACHABLE', 'EXCEPTION'):
        try:
            ax = native(nat, entry, asan=True)
            rc, o, e = run_native(ax, rep)
            m = re.search(r'ERROR: AddressSanitizer: (.*)', e)
            if m: return 'native replay under AddressSanitizer: ' + m.group(1)[:160]
            if rc not in (0, 98): return 'native replay under AddressSanitizer: exit status %s' % rc
        except NoAnswer as ex: return None
    return None

def run_one(eng_bin, lib, run, tier, seed, tmo, procs, prop):
    hsrc = V + '/harness/' + run['h'] + '.cpp'; entry = run['e']
    hbc = compile_bc(hsrc, CXXF + run.get('cflags', []))
    eng, nat, tus = link(lib, hbc, entry)
    params = dict(run.get('p', {}));
    if tier == 'thorough': params.update(run.get('tp', {}))
    name = run.get('name', entry); od = B + '/run/%s-%s' % (prop, name); shutil.rmtree(od, ignore_errors=True); os.makedirs(od)
    cmd = [eng_bin, eng, '-o', od, '-e', entry, '-t', str(tmo), '-j', str(procs), '--traces', str(run.get('traces', 12))]
    for k, v in params.items(): cmd += ['-p', '%s=%d' % (k, v)]
    cmd += run.get('o', []) + (run.get('to', []) if tier == 'thorough' else [])
    t0 = time.time(); fn = None
    with open(od + '/log', 'w') as lf:
        pr = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT)
        try: natf = native(nat, entry); nerr = None
        except NoAnswer as e: nerr = e
        rc = pr.wait()
    if nerr: raise nerr
    recs = []
    for f in glob.glob(od + '/out.*.jsonl'):
        for l in open(f, errors='replace'):
            try: recs.append(json.loads(l))
            except ValueError: pass
    res = dict(name=name, harness=run['h'], entry=entry, params=params, rc=rc, wall_s=round(time.time() - t0, 2), tus=tus, viol=[], unconfirmed=[], incomplete=[], traces=0, trace_bad=[], samples=[], functions=[])
    res['summary'] = next((r for r in recs if r['t'] == 'summary'), {})
    res['functions'] = sorted({f for r in recs if r['t'] == 'functions' for f in r['f']})
    if os.environ.get('OSYM_P'): print('done %-22s %6.1fs paths=%s steps=%s queries=%s solver=%s' % (name, time.time() - t0, res['summary'].get('paths'), res['summary'].get('steps'), res['summary'].get('queries'), res['summary'].get('solver_s')), flush=True)
    res['incomplete'] = sorted({r.get('why', '') + ' @ ' + r.get('where', '')[:160] for r in recs if r['t'] == 'incomplete'})
    rdir = B + '/replay'; os.makedirs(rdir, exist_ok=True)
    seen = set(); n = 0
    for r in recs:
        if r['t'] != 'violation': continue
        k = (r['kind'], r['msg'], r.get('where', '')[:200])
        if k in seen: continue
        seen.add(k); n += 1
        rep = rdir + '/%s-%s-%d.in' % (prop, name, n)
        write_replay(rep, params, r['inputs'])
        c = confirm(r, nat, entry, params, rep)
        r['confirmed'] = c; r['replay'] = rep; r['run'] = name
        doc = 'property %s, harness %s (%s)\n%s: %s\nat %s\ninputs: %s\nnotes: %s\n%s\nreplay: OSYM_REPLAY=%s %s\n' % (prop, run['h'], entry, r['kind'], r['msg'], r.get('where'), json.dumps([[i[0], sgn(i[2], i[1])] for i in r['inputs']]), json.dumps(r.get('notes', [])), c, rep, native(nat, entry))
        open(rep + '.txt', 'w').write(doc)
        (res['viol'] if c else res['unconfirmed']).append(r)
    # translation check: sampled paths are replayed natively and must observe the same values
    tr = [r for r in recs if r['t'] == 'trace'][:run.get('traces', 12)]
    exe = native(nat, entry)
    for i, r in enumerate(tr):
        r['inputs'] = [x for x in r['inputs'] if x[3] in (0, 3)]
        rep = od + '/t%d.in' % i; write_replay(rep, params, r['inputs'])
        nrc, o, e = run_native(exe, rep)
        obs = [l.split()[1:] for l in o.splitlines() if l.startswith('OBS ')]
        want = [[x[0], str(x[1])] for x in r['obs']]
        if nrc == 0 and [[a[0], a[1]] for a in obs] == want: res['traces'] += 1
        elif run.get('inexact'): pass
        else: res['trace_bad'].append(dict(replay=rep, rc=nrc, want=want[:40], got=obs[:40], out=o[-400:], err=e[-300:]))
        if len(res['samples']) < 3: res['samples'].append(dict(harness=entry, inputs=[[x[0], sgn(x[2], x[1])] for x in r['inputs']][:40], observed=want[:24]))
    miss = [l for l, c in res['summary'].get('reach', {}).items() if not c]
    opt = run.get('unreached', [])
    res['unreached'] = [l for l in miss if l not in opt]
    return res
def sgn(v, w): return v - (1 << w) if w <= 64 and v >> (w - 1) & 1 else v

def known(prop):
    out = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) run=(\S+) kind=(\S+) match=(.*?) :: (.*)$', l.strip())
            if m and m.group(1) == prop: out.append(dict(run=m.group(2), kind=m.group(3), match=m.group(4), text=m.group(5)))
    return out
def is_known(v, kf):
    for k in kf:
        if k['run'] == v['run'] and k['kind'] == v['kind'] and k['match'] in v['msg'] + ' @ ' + str(v.get('where')): return k
    return None

def main():
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None
    for i, x in enumerate(a):
        if x == '--tier': tier = a[i + 1]
        if x == '--only': only = a[i + 1].split(',')
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    if prop == 'setup':
        os.makedirs(B, exist_ok=True); build_engine(); return 0
    spec = checks.CHECKS[prop]; runs = [r for r in spec['runs'] if (tier == 'thorough' or not r.get('thorough_only')) and not (tier == 'thorough' and r.get('quick_only'))]
    if only: runs = [r for r in runs if r.get('name', r['e']) in only]
    os.makedirs(B, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    results = []; err = None
    try:
        with ThreadPoolExecutor(NCPU) as ex:
            fe = ex.submit(build_engine); lib = Lib(ex)
            hb = [ex.submit(compile_bc, V + '/harness/' + r['h'] + '.cpp', CXXF + r.get('cflags', [])) for r in runs]
            lib.done(); [x.result() for x in hb]; eng_bin = fe.result()
        tb = time.time() - t0
        # run the harnesses: big ones get all processors one after another, small ones share
        par = min(len(runs), spec.get('par', 3)); procs = max(2, NCPU // max(1, par))
        tmo = (spec.get('timeout', 700) if tier == 'quick' else spec.get('thorough_timeout', 3600)); tmo = int(os.environ.get('OSYM_T', tmo))
        with ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(run_one, eng_bin, lib, r, tier, seed, r.get('t', tmo), procs, prop) for r in runs]
            results = [f.result() for f in fs]
    except NoAnswer as e:
        err = str(e)
    kf = known(prop); viol, kn = [], {}
    for r in results:
        for v in r['viol']:
            k = is_known(v, kf)
            if k: kn.setdefault(k['text'], []).append(v)
            else: viol.append(v)
    problems = []
    if err: problems.append(err)
    for r in results:
        hasv = bool(r['viol'])
        if r['rc'] not in (0, 1, 2): problems.append('%s: the engine failed (status %s), see build/run/%s-%s/log' % (r['name'], r['rc'], prop, r['name']))
        if r['incomplete'] : problems.append('%s: incomplete: %s' % (r['name'], '; '.join(r['incomplete'])[:600]))
        if r['unconfirmed']: problems.append('%s: counterexample not reproduced natively: %s' % (r['name'], '; '.join(v['kind'] + ' ' + v['msg'] + ' @ ' + str(v.get('where'))[:300] for v in r['unconfirmed'])))
        if r['trace_bad']: problems.append('%s: engine and native run disagree: %s' % (r['name'], json.dumps(r['trace_bad'][0])[:800]))
        if r['unreached'] and not hasv: problems.append('%s: vacuous: never reached %s' % (r['name'], r['unreached']))
    S = lambda k: sum(r['summary'].get(k, 0) for r in results)
    fns = sorted({f for r in results for f in r['functions'] if 'Omega_h' in f})
    try: dem = subprocess.run(['c++filt'], input='\n'.join(fns), text=True, stdout=subprocess.PIPE).stdout.split('\n')
    except OSError: dem = fns
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
      coverage=dict(states=S('paths') + S('forks'), transitions=S('steps'), traces_validated_against_impl=sum(r['traces'] for r in results),
        samples=[s for r in results for s in r['samples']][:12] or ['none'],
        paths_explored=S('paths'), assertions_discharged=S('asserts'), symbolic_assertions=S('asserts_symbolic'), solver_queries=S('queries'), solver_cache_hits=S('cache_hits'), queries_sat=S('sat'), queries_unsat=S('unsat'), queries_unknown=S('unknown'), float_uf_queries=S('uf_queries'), float_exact_queries=S('fpa_queries'), solver_seconds=round(S('solver_s'), 2),
        functions_encoded=len(fns), functions=[d[:160] for d in dem][:400],
        runs=[dict(name=r['name'], harness=r['harness'], params=r['params'], wall_s=r['wall_s'], summary=r['summary'], vacuity_witnesses=r['summary'].get('reach'), source_files=sorted(r['tus'])) for r in results],
        bounds=spec.get('bounds', ''), outside_bounds=spec.get('outside', ''), exhaustive=not problems and not viol),
      assumptions=spec.get('assumptions', checks.ASSUMPTIONS))
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    for t, vs in kn.items(): print('KNOWN-FINDING: property=%s %s' % (prop, t))
    for r in results: print('run %-28s paths=%-6s steps=%-9s queries=%-6s solver=%.1fs wall=%.1fs traces=%d' % (r['name'], r['summary'].get('paths'), r['summary'].get('steps'), r['summary'].get('queries'), r['summary'].get('solver_s', 0), r['wall_s'], r['traces']))
    for p in problems: print('PROBLEM', p)
    for v in viol:
        print('  %s %s\n    at %s\n    %s' % (v['kind'], v['msg'], v.get('where'), v['confirmed'])); print('    inputs %s' % json.dumps([[i[0], sgn(i[2], i[1])] for i in v['inputs']][:60]))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    print('%s %s: %s in %.1fs' % (prop, tier, 'VIOLATED' if viol else 'NO ANSWER' if problems else 'held', time.time() - t0))
    return 1 if viol else 2 if problems else 0
if __name__ == '__main__': sys.exit(main())
