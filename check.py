#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo by symbolic execution + SMT (engine/), replay counterexamples natively."""
import sys, os, json, hashlib, subprocess, time, re, threading, fcntl, resource, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = '/repo'; B = os.path.join(HERE, '.build')
sys.path.insert(0, HERE)
import specs
SYMEX = os.path.join(B, 'symex'); NCPU = os.cpu_count() or 8
PETSC = '/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include'; MPI = '/usr/lib/x86_64-linux-gnu/openmpi/include'
FLAGS = ['-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-DEIGEN_DONT_VECTORIZE', '-fno-math-errno', '-w', '-DFVENS_VERIFY', '-DOMPI_SKIP_MPICXX=1']
INC = ['-I' + REPO + '/src', '-I' + HERE + '/harness', '-I/usr/include/eigen3']
SYSINC = ['-I' + PETSC, '-I/usr/include/scotch', '-I' + MPI, '-I' + MPI + '/openmpi']
class CheckError(Exception): pass

def sh(cmd, timeout=None, mem=None, cwd=None, env=None):
    def lim():
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setpgid(0, 0)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim, cwd=cwd, env=dict(os.environ, **env) if env else None)
    try: o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: p.kill()
        o, e = p.communicate(); return -9, o.decode(errors='replace'), e.decode(errors='replace')
    return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')

def build_engine():
    os.makedirs(B, exist_ok=True)
    with open(B + '/lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        rc, o, e = sh(['make', '-s', '-C', HERE + '/engine', '-j4', 'B=' + B])
        if rc: raise CheckError('engine build failed:\n' + o + e)

_srchash = None
def source_hash():
    global _srchash
    if _srchash is None:
        h = hashlib.sha256()
        for root in (REPO + '/src', HERE + '/harness'):
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                for n in sorted(fs):
                    p = os.path.join(d, n); h.update(p.encode()); h.update(open(p, 'rb').read())
        _srchash = h.hexdigest()
    return _srchash

def compile_bc(src, flags):
    """bitcode of one translation unit; keyed by the content of the whole source tree, so it always reflects the current tree"""
    key = hashlib.sha256((source_hash() + src + ' '.join(flags)).encode()).hexdigest()[:20]
    out = B + '/bc/' + key + '.bc'
    if os.path.exists(out): return out
    os.makedirs(B + '/bc', exist_ok=True)
    rc, o, e = sh(['clang++'] + FLAGS + flags + [src, '-o', out + '.%d.tmp' % threading.get_ident()], timeout=300)
    if rc: raise CheckError('cannot compile %s:\n%s' % (src, e[-3000:]))
    os.replace(out + '.%d.tmp' % threading.get_ident(), out); return out

def build_module(m, work):
    """compile harness + repo sources to bitcode, link, and make a native executable of the same module"""
    pre = ['-I' + HERE + '/harness/' + d for d in m.get('stubs', [])]; fl = ['-D' + d for d in m.get('defs', [])] + m.get('flags', [])
    flags = pre + INC + SYSINC + fl
    srcs = [HERE + '/harness/' + m['harness'] + '.cpp'] + [HERE + '/harness/' + x + '.cpp' for x in m.get('support', [])] + [REPO + '/src/' + t + '.cpp' for t in m['tus']]
    with ThreadPoolExecutor(NCPU) as ex: bcs = list(ex.map(lambda s: compile_bc(s, flags), srcs))
    name = m['name']; l = '%s/%s.bc' % (work, name)
    rc, o, e = sh([SYMEX, 'link', l, 'omp!' if m.get('omp') else ''] + bcs, timeout=300)
    if rc: raise CheckError('link failed: ' + e[-2000:])
    obj = l[:-3] + '.o'; sen = work + '/sen.o'; nat = l[:-3] + '.nat'
    rc, o, e = sh(['clang++', '-O1', '-g', '-c', l, '-o', obj], timeout=300)
    if rc: raise CheckError('native compile failed: ' + e[-2000:])
    if not os.path.exists(sen):
        rc, o, e = sh(['clang++', '-O1', '-g', '-c', '-w', '-I' + HERE + '/harness', HERE + '/harness/se_native.cpp', '-o', sen], timeout=300)
        if rc: raise CheckError('native runtime compile failed: ' + e[-2000:])
    rc, o, e = sh(['clang++', '-rdynamic', obj, sen, '-ldl', '-o', nat] + m.get('libs', []), timeout=300)
    if rc: raise CheckError('native link failed: ' + e[-3000:])
    return l, nat

_asan = {}; _asan_lock = threading.Lock()
def asan_build(mod, nat):
    """the same linked bitcode with AddressSanitizer, built only when a memory error has to be confirmed"""
    with _asan_lock:
        if nat not in _asan:
            _asan[nat] = None; l = nat[:-4] + '.bc'; a = nat + '.san'; m = specs.MODULES[mod]; sen = os.path.dirname(nat) + '/sen.o'
            if not m.get('omp') and sh([SYMEX, 'asan', l, a + '.bc'], timeout=120)[0] == 0 and sh(['clang++', '-O0', '-g', '-fsanitize=address', '-c', a + '.bc', '-o', a + '.o'], timeout=300)[0] == 0 and sh(['clang++', '-fsanitize=address', '-rdynamic', a + '.o', sen, '-ldl', '-o', a] + m.get('libs', []), timeout=300)[0] == 0: _asan[nat] = a
        return _asan[nat]

def run_job(job, mods, work, seed, tier):
    l, nat = mods[job['mod']]; out = '%s/%s.json' % (work, job['id'])
    cmd = [SYMEX, 'run', l, '--entry', job['entry'], '--out', out, '--seed', str(seed), '--budget', str(job['budget']), '--branch-ms', str(job.get('branch_ms', 1500)), '--prove-ms', str(job.get('prove_ms', 10000)), '--max-paths', str(job.get('max_paths', 20000)), '--poly-limit', str(job.get('poly_limit', 40000)), '--witnesses', str(job.get('witnesses', 2))]
    for k, v in job.get('param', {}).items(): cmd += ['--param', '%s=%d' % (k, v)]
    for k, v in job.get('fix', {}).items(): cmd += ['--fix', '%s=%r' % (k, float(v))]
    if job.get('only'): cmd += ['--only', job['only']]
    t = time.time(); rc, o, e = sh(cmd, timeout=job['budget'] * 1.5 + 90, mem=job.get('mem', 8) << 30)
    r = {'job': job, 'wall': time.time() - t, 'rc': rc}
    if os.path.exists(out) and rc == 0:
        try: r.update(json.load(open(out)))
        except Exception as x: r['error'] = 'bad engine output %s' % x
    else: r['error'] = 'engine ended with %s %s' % (rc, e[-400:])
    return r

def native(job, nat, inputs, path, vg=False, tol=None, env=None, limit=120):
    with open(path, 'w') as f:
        for k, v in inputs.items(): f.write('%s %s\n' % (k, v if isinstance(v, str) else repr(v)))
        for k, v in job.get('fix', {}).items():
            if k not in inputs: f.write('%s %r\n' % (k, float(v)))
    cmd = [nat, job['entry'], path] + ['%s=%d' % kv for kv in job.get('param', {}).items()]
    if tol or job.get('tol'): cmd.append('tol=%g' % (tol or job['tol']))
    if vg: cmd = ['valgrind', '-q', '--error-exitcode=99'] + cmd
    rc, o, e = sh(cmd, timeout=limit, env=env)
    lines = [x.split('\t') for x in o.splitlines()]
    return {'rc': rc, 'lines': lines, 'err': e[-1500:], 'errfull': e, 'cmd': cmd, 'assume': any(x[0].startswith('ASSUME') for x in lines), 'done': any(x[0] == 'DONE' for x in lines)}

def close(a, b, tol=1e-6): return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

def check_witness(job, nat, w, path):
    """engine value of every observed expression == value computed by the native code at the same inputs"""
    n = native(job, nat, w['inputs'], path)
    got = {}; order = []
    for x in n['lines']:
        if x[0] in ('ok', 'FAIL') and len(x) >= 4 and x[3] not in ('<', '<='): order.append((x[1], x[2], x[3]))
        elif x[0] == 'obs': order.append((x[1], x[2], None))
    obs = w['obs']; i = 0; bad = None; cnt = 0
    seq = []
    for lbl, a, b in order:
        if b is None: seq.append((lbl, a))
        else: seq += [(lbl + '.l', a), (lbl + '.r', b)]
    # integer assertions are printed natively but not observed by the engine: align by label
    d = {}
    for k, v in seq: d.setdefault(k, []).append(v)
    for k, v in obs:
        if isinstance(v, str) or not d.get(k): continue
        if job.get('wskip') and re.search(job['wskip'], k): d[k].pop(0); continue   # depends on a function known to the engine only by axioms
        x = d[k].pop(0)
        try: x = float(x)
        except ValueError: continue
        cnt += 1
        if not close(x, v, job.get('wtol', 1e-6)): bad = bad or '%s native %r engine %r' % (k, x, v)
    return {'compared': cnt, 'bad': bad, 'assume': n['assume'], 'done': n['done']}

def replay_candidate(job, nat, c, path):
    """does the concrete counterexample fail in the native build of the real code? returns (bool, description)"""
    inp = {k: v for k, v in c['inputs'].items() if not isinstance(v, str)}
    # values the solver gives for constants introduced by uninterpreted functions cannot be replayed: natively a fixed function is used
    n = native(job, nat, inp, path, tol=None if c.get('confirmed') else max(1e-5, job.get('tol', 0)), limit=12 if c['kind'] == 'hang' else 120)
    if n['assume']: return False, 'assumption not satisfied natively'
    if c['kind'] == 'hang':
        for x in n['lines']:
            if x[0] == 'FAIL' and 'uncaught' in x[1]: return True, '\t'.join(x)
        return (True, 'the native run has not ended after 12 s; ' + c['note']) if n['rc'] == -9 and not n['done'] else (False, 'not reproduced')
    if c['kind'] in ('eq', 'bool'):
        for x in n['lines']:
            if x[0] == 'FAIL' and len(x) > 1 and x[1] == c['label']: return True, '\t'.join(x)
        if not n['done']: return True, 'native run ended abnormally rc=%s %s' % (n['rc'], n['err'])
        # again with allocated memory filled with a pattern: results that depend on memory nothing wrote
        n = native(job, nat, inp, path, tol=None if c.get('confirmed') else max(1e-5, job.get('tol', 0)), env={'MALLOC_PERTURB_': '64'})
        for x in n['lines']:
            if x[0] == 'FAIL' and len(x) > 1 and x[1] == c['label']: return True, '(allocated memory filled with a pattern) ' + '\t'.join(x)
        return False, 'not reproduced'
    for x in n['lines']:
        if x[0] == 'FAIL' and 'uncaught' in x[1] and c['kind'] in ('exception', 'abort'): return True, '\t'.join(x)
    if not n['done'] and n['rc'] not in (0,): return True, 'native run ended abnormally rc=%s %s' % (n['rc'], n['err'])
    if c['kind'] == 'memory':
        n = native(job, nat, inp, path, vg=True)
        if n['rc'] == 99: return True, 'valgrind: ' + n['err'][:600]
        san = asan_build(job['mod'], nat)
        if san:
            n = native(job, san, inp, path, env={'ASAN_OPTIONS': 'detect_leaks=0:alloc_dealloc_mismatch=0:detect_odr_violation=0'}); m = re.search(r'AddressSanitizer: (stack-buffer-\S+|heap-buffer-\S+|global-buffer-\S+|heap-use-after-free|stack-use-after-\S+|dynamic-stack-buffer-\S+|attempting double-free)[^\n]*', n['errfull'])
            if m: return True, m.group(0)
    if c['kind'] == 'div0':
        for x in n['lines']:
            if any(y in ('nan', '-nan', 'inf', '-inf') for y in x): return True, '\t'.join(x)
    return False, 'not reproduced'

def known_findings(prop):
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) params=(\S*) label=/(.*?)/ (.*)$', line.strip())
            if m and m.group(1) == prop: out.append({'entry': m.group(2), 'params': m.group(3), 'label': m.group(4), 'text': m.group(5)})
    return out

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    spec = specs.SPECS[prop]; work = '%s/run/%s' % (B, prop); shutil.rmtree(work, ignore_errors=True); build_engine(); os.makedirs(work); os.makedirs(HERE + '/evidence', exist_ok=True)
    mods = {}
    jobs = specs.jobs(prop, tier)
    only = os.environ.get('VERIF_ONLY')
    if only: jobs = [j for j in jobs if re.search(only, j['id'])]
    for m in sorted({j['mod'] for j in jobs}): mods[m] = build_module(dict(specs.MODULES[m], name=m), work)
    tb = time.time() - t0
    order = sorted(jobs, key=lambda j: -j.get('cost', j['budget']))
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(lambda j: run_job(j, mods, work, seed, tier), order))
    kf = known_findings(prop); hit = set(); violations = []; notes = []; inconcl = []; samples = []; wv = 0; wbad = []; unrep = []
    tot = dict(paths=0, forks=0, infeasible=0, obligations=0, identity=0, confirmed=0, modulo=0, unsat=0, trivial=0, unknown=0, queries=0, solver_s=0.0, steps=0); fns = set(); labels = 0; vac = []
    for r in res:
        j = r['job']
        if 'error' in r: inconcl.append('%s: %s' % (j['id'], r['error'])); continue
        for k in tot: tot[k] += r.get(k, 0)
        fns.update(r['functions']); labels += len(r['labels'])
        if not r['complete']: inconcl.append('%s: incomplete (%s)' % (j['id'], r['why']))
        for u in r['unsupported'][:3]: inconcl.append('%s: not encodable: %s' % (j['id'], u[:200]))
        for u in r['unknowns'][:3]: inconcl.append('%s: undecided: %s' % (j['id'], u))
        nat = mods[j['mod']][1]
        for i, w in enumerate(r['witnesses']):
            cw = check_witness(j, nat, w, '%s/%s.w%d' % (work, j['id'], i))
            if cw['bad']: wbad.append('%s: %s' % (j['id'], cw['bad']))
            elif cw['assume'] or not cw['done']: notes.append('%s: witness %d not usable natively' % (j['id'], i))
            else: wv += 1
            if len(samples) < 4 and not cw['bad']: samples.append({'job': j['id'], 'inputs': w['inputs'], 'values': w['obs'][:6]})
        if not r['witnesses'] and not r['candidates'] and not r['unsupported'] and r['complete']: vac.append(j['id'])
        for i, c in enumerate(r['candidates']):
            path = '%s/%s.c%d' % (work, j['id'], i); ok, why = replay_candidate(j, nat, c, path)
            ps = ','.join('%s=%s' % kv for kv in sorted(j.get('param', {}).items()))
            if not ok: unrep.append('%s: %s [%s]: %s' % (j['id'], c['label'], c['kind'], why)); continue
            known = None
            for k in kf:
                if k['entry'] == j['entry'] and set(x for x in k['params'].split(',') if x) <= set(ps.split(',')) and re.fullmatch(k['label'], c['label']): known = k
            if known: hit.add(known['text']); continue
            rp = '%s/replay/%s-%s-%d.json' % (B, prop, j['id'], i); os.makedirs(os.path.dirname(rp), exist_ok=True)
            json.dump({'property': prop, 'job': j, 'label': c['label'], 'kind': c['kind'], 'inputs': c['inputs'], 'native': why, 'how': './check.py --replay ' + rp}, open(rp, 'w'), indent=1)
            violations.append((rp, j['id'], c['label'], why))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
          'assumptions': spec.get('assume', []) + ['IEEE arithmetic is modelled by exact real arithmetic; machine integers and memory are modelled bit-precisely'],
          'coverage': {'states': tot['paths'], 'transitions': tot['forks'] + tot['paths'], 'traces_validated_against_impl': wv, 'samples': samples or [{'note': 'no witness recorded'}],
            'functions_encoded': sorted(fns), 'bounds': spec.get('bounds', ''), 'jobs': [{'id': r['job']['id'], 'entry': r['job']['entry'], 'param': r['job'].get('param', {}), 'fixed_inputs': r['job'].get('fix', {}), 'paths': r.get('paths'), 'obligations': r.get('obligations'), 'complete': r.get('complete', False), 'wall_s': round(r['wall'], 2)} for r in res],
            'obligations': tot['obligations'], 'discharged_by_normal_form': tot['identity'], 'of_which_reconfirmed_by_solver': tot['confirmed'], 'of_which_modulo_path_equalities': tot['modulo'], 'discharged_by_solver': tot['unsat'], 'discharged_syntactically': tot['trivial'], 'undecided': tot['unknown'],
            'infeasible_paths': tot['infeasible'], 'distinct_assertions': labels, 'queries': tot['queries'], 'solver_s': round(tot['solver_s'], 2), 'ir_steps': tot['steps'], 'build_s': round(tb, 1), 'inconclusive': inconcl[:40], 'witness_mismatches': wbad[:10], 'unreproduced_candidates': unrep[:10], 'jobs_without_witness': vac, 'notes': notes[:10]}}
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    print('%s [%s] jobs=%d paths=%d obligations=%d (normal form %d, solver %d, syntactic %d, undecided %d) queries=%d solver=%.1fs witnesses validated=%d wall=%.1fs' % (prop, tier, len(res), tot['paths'], tot['obligations'], tot['identity'], tot['unsat'], tot['trivial'], tot['unknown'], tot['queries'], tot['solver_s'], wv, time.time() - t0))
    for x in inconcl[:12]: print('INCONCLUSIVE', x)
    for x in wbad[:6]: print('WITNESS-MISMATCH', x)
    for x in unrep[:6]: print('UNREPRODUCED', x)
    for x in vac: print('NO-WITNESS', x)
    for x in sorted(hit): print('KNOWN-FINDING: property=%s %s' % (prop, x))
    for rp, jid, lbl, why in violations[:10]: print('  %s: %s: %s' % (jid, lbl, why[:300]))
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, violations[0][0])); return 1
    return 0

def replay(path):
    d = json.load(open(path)); build_engine(); work = B + '/run/replay'; shutil.rmtree(work, ignore_errors=True); os.makedirs(work); j = d['job']
    l, nat = build_module(dict(specs.MODULES[j['mod']], name=j['mod']), work); ok, why = replay_candidate(j, nat, {'inputs': d['inputs'], 'kind': d['kind'], 'label': d['label'], 'confirmed': True}, work + '/in'); print(('REPRODUCED ' if ok else 'not reproduced ') + why); return 1 if ok else 0

if __name__ == '__main__':
    try: sys.exit(replay(sys.argv[2]) if sys.argv[1] == '--replay' else main())
    except CheckError as e: print('ERROR', e); sys.exit(2)
