#!/usr/bin/env python3
"""Solver-based checks: ./check.py C01 [--tier quick|thorough].

Builds the symbolic engine and the property's harnesses against the current
tree of /repo, explores them, replays counterexamples against a native build of
the same harness, and writes evidence/<property>.json."""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
REPO = os.environ.get('PARMCB_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
NCPU = min(8, os.cpu_count() or 1)
ENGINE_SRC = ['SymxPass.cpp', 'runtime.cpp', 'llvm_ops.h', 'symx.h', 'main.cpp', 'native.cpp']
LIBS = ['-lz3', '-lboost_timer', '-lboost_program_options', '-lboost_system', '-lboost_filesystem', '-ltbb', '-lpthread']


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd, errors='replace')
    return p.returncode, p.stdout


def must(cmd, **kw):
    rc, out = sh(cmd, **kw)
    if rc:
        raise CheckError('command failed (%d): %s\n%s' % (rc, ' '.join(cmd), out[-4000:]))
    return out


def hash_files(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def build_engine():
    src = [os.path.join(VERIF, 'engine', f) for f in ENGINE_SRC] + [os.path.join(VERIF, 'harness', f) for f in ('oracle.cpp', 'oracle.h')]
    d = os.path.join(BUILD, 'engine-' + hash_files(src))
    if os.path.exists(os.path.join(d, 'ok')):
        return d
    tmp = d + '.tmp%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    e = os.path.join(VERIF, 'engine')
    flags = must(['llvm-config-18', '--cxxflags']).split()
    cmds = [
        ['clang++-18', '-fPIC', '-shared', '-O1'] + flags + [e + '/SymxPass.cpp', '-o', tmp + '/symxpass.so'],
        ['g++', '-std=c++17', '-O2', '-w', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fPIC', '-shared', '-fno-omit-frame-pointer', e + '/runtime.cpp', '-o', tmp + '/libsymx.so', '-lz3', '-ldl'],
        ['g++', '-std=c++17', '-O2', '-fPIC', '-shared', VERIF + '/harness/oracle.cpp', '-o', tmp + '/liboracle.so'],
        ['g++', '-O1', '-c', e + '/main.cpp', '-o', tmp + '/main.o'],
        ['g++', '-std=c++14', '-O1', '-c', e + '/native.cpp', '-o', tmp + '/native.o'],
        ['g++', '-std=c++14', '-O1', '-DNATIVE_SANITIZE', '-fsanitize=address,undefined', '-c', e + '/native.cpp', '-o', tmp + '/native_san.o'],
        ['g++', '-std=c++14', '-O1', '-DNATIVE_SANITIZE', '-DNATIVE_TSAN', '-fsanitize=thread', '-c', e + '/native.cpp', '-o', tmp + '/native_tsan.o'],
    ]
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(must, cmds))
    open(tmp + '/ok', 'w').write('ok')
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def repo_files():
    r = []
    for sub in ('include', 'src'):
        for root, _, fs in os.walk(os.path.join(REPO, sub)):
            r += [os.path.join(root, f) for f in fs]
    return r


def gen_config(d):
    """config.hpp as the build generates it here: everything on except logging"""
    os.makedirs(d + '/parmcb', exist_ok=True)
    out = []
    for line in open(os.path.join(REPO, 'include/parmcb/config.hpp.in')):
        m = re.match(r'\s*#cmakedefine\s+(\w+)', line)
        out.append(line if not m else '' if m.group(1) == 'PARMCB_LOGGING' else '#define %s\n' % m.group(1))
    open(d + '/parmcb/config.hpp', 'w').write(''.join(out))


def harness_dir(h, eng):
    files = repo_files() + glob.glob(VERIF + '/harness/*.hpp') + glob.glob(VERIF + '/harness/*.h') + [VERIF + '/harness/%s.cpp' % h['src']] + glob.glob(VERIF + '/harness/mock/**/*', recursive=True)
    files = [f for f in files if os.path.isfile(f)]
    d = os.path.join(BUILD, 'h-%s-%s' % (h['src'], hash_files(files, json.dumps(h, sort_keys=True) + os.path.basename(eng))))
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + '/parmcb/config.hpp'):
        gen_config(d)
    return d


def includes(h, d, native=False):
    inc = []
    for m in h.get('mock', []) if not (native and h.get('realnat')) else []:
        inc += ['-I', VERIF + '/harness/mock/' + m]
    return inc + ['-I', d, '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'), '-I', VERIF + '/harness']


def build_harness(h, eng):
    d = harness_dir(h, eng)
    exe = d + '/sym'
    if not os.path.exists(exe):
        env = dict(os.environ)
        for v in h.get('passenv', []):
            env[v] = '1'
        obj = d + '/sym%d.o' % os.getpid()
        must(['clang++-18', '-std=c++14', '-O1', '-g0', '-fno-vectorize', '-fno-slp-vectorize', '-fno-pic', '-fno-omit-frame-pointer', '-w', '-fpass-plugin=' + eng + '/symxpass.so'] + h.get('flags', []) + h.get('symflags', []) + includes(h, d) + ['-c', VERIF + '/harness/%s.cpp' % h['src'], '-o', obj], env=env, timeout=400)
        must(['g++', '-no-pie', obj, eng + '/main.o', '-o', exe + '.tmp%d' % os.getpid(), '-L' + eng, '-lsymx', '-loracle'] + LIBS + h.get('libs', []) + ['-Wl,-rpath,' + eng])
        os.rename(exe + '.tmp%d' % os.getpid(), exe)
        os.unlink(obj)
    return exe


def build_native(h, eng, san=False):
    d = harness_dir(h, eng)
    plain = san == 'plain'
    if plain:
        san = False
    exe = d + ('/nat_tsan' if san == 'tsan' else '/nat_san' if san else '/nat_plain' if plain else '/nat')
    if not os.path.exists(exe):
        opts = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS'] if san else ['-O0', '-g1'] if plain else ['-O1']
        if san == 'tsan':
            opts = ['-O1', '-g1', '-fsanitize=thread', '-DSYMX_TSAN']
        must(['g++', '-std=c++14', '-w', '-DSYMX_NATIVE', '-fno-omit-frame-pointer'] + opts + h.get('flags', []) + h.get('natflags', []) + includes(h, d, True) + [VERIF + '/harness/%s.cpp' % h['src'], eng + ('/native_tsan.o' if san == 'tsan' else '/native_san.o' if san else '/native.o'), VERIF + '/harness/oracle.cpp', '-o', exe + '.tmp'] + [l for l in LIBS if l != '-lz3'] + h.get('libs', []), timeout=400)
        os.rename(exe + '.tmp', exe)
    return exe


def prune_builds():
    ds = sorted(glob.glob(BUILD + '/h-*'), key=os.path.getmtime)
    for d in ds[:-60]:
        shutil.rmtree(d, ignore_errors=True)


def parse_replay(path):
    r = {'key': '', 'msg': '', 'config': '', 'inputs': [], 'path': path}
    for line in open(path, errors='replace'):
        line = line.rstrip('\n')
        for k in ('key', 'msg', 'config'):
            if line.startswith('# %s ' % k):
                r[k] = line[len(k) + 3:]
        if line and line[0] != '#':
            r['inputs'].append(line)
    return r


def replay_valgrind(exe, path):
    """use of an undefined value: decided by memcheck on the plain native build"""
    try:
        rc, out = sh(['timeout', '-k', '2', '280', 'valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--num-callers=6', exe, path, '250'], timeout=300, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return 'misfit', 'memcheck ran out of time'
    ls = [l for l in out.splitlines() if 'uninitialised' in l]
    if rc == 99 and ls:
        return 'reproduced', 'REPRODUCED memcheck: ' + re.sub(r'^==\d+== *', '', ls[0])
    return ('holds', 'HOLDS') if rc == 0 else ('misfit', out[-200:])


def replay_native(exe, path, h, tmo=20):
    """-> (status, text): reproduced | holds | misfit"""
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1' % (1 if h.get('leaks', True) else 0)
    env['TSAN_OPTIONS'] = 'exitcode=99:report_bugs=1:history_size=4'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
    try:
        rc, out = sh(['timeout', '-k', '2', str(tmo + 20), exe, path, str(tmo)], timeout=tmo + 60, env=env, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return 'reproduced', 'time limit'
    if 'REPRODUCED' in out:
        return 'reproduced', [l for l in out.splitlines() if l.startswith('REPRODUCED')][0]
    if rc == 66 and 'ThreadSanitizer' in out and 'data race' not in out:
        return 'misfit', out[:300]
    if rc == 99 or 'runtime error:' in out or 'AddressSanitizer' in out or 'LeakSanitizer' in out:
        ls = [l for l in out.splitlines() if 'ERROR:' in l or 'runtime error:' in l or 'SUMMARY' in l or 'WARNING: ThreadSanitizer' in l]
        return 'reproduced', 'REPRODUCED sanitizer: ' + (ls[0] if ls else out[:200])
    if rc == 0 and ('HOLDS' in out or 'SKIP' in out):
        return 'holds', 'HOLDS'
    if rc == 3:
        return 'misfit', out[:200]
    if rc < 0 or rc in (124, 134, 137, 139):
        return 'reproduced', 'REPRODUCED crash: exit status %d %s' % (rc, out[-200:])
    return 'misfit', 'rc=%d %s' % (rc, out[:300])


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def matches(f, pid, v):
    """a finding is identified by the violated clause and the specific inputs"""
    if f['property'] != pid or not v['key'].startswith(f['key']):
        return False
    if 'config' in f and f['config'] != v['config'] and not re.fullmatch(f['config'], v['config']):
        return False
    if 'inputs' in f and f['inputs'] != [' '.join(i.split()[:2]) for i in v['inputs']]:
        return False
    return True


def short(fn):
    out, depth = [], 0
    i = 0
    fn = re.sub(r'operator(<<|<=|<|>>|>=|->|>)', lambda m: 'operator' + {'<<': 'shl', '<': 'lt', '<=': 'le', '>>': 'shr', '>': 'gt', '>=': 'ge', '->': 'arrow'}[m.group(1)], fn)
    for c in fn:
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        elif depth == 0:
            out.append(c)
    s = ''.join(out).strip()
    s = re.sub(r'\s+(const|volatile)$', '', s)
    return s.split(' ')[-1] if '::' in s.split(' ')[-1] else s


def run_job(pid, job, eng, tier, seed, outdir, log, no_stop=False, extra=()):
    h = job['harness']
    exe = build_harness(h, eng)
    os.makedirs(outdir, exist_ok=True)
    cfg = outdir + '/configs.txt'
    open(cfg, 'w').write('\n'.join(job['configs']) + '\n')
    stats = outdir + '/stats.json'
    cmd = [exe, '--out', outdir, '--stats', stats, '--workers', str(NCPU), '--deadline', str(job['deadline']), '--timeout', str(job.get('path_timeout', 10)), '--configs', cfg, '--samples', str(job.get('samples', 12)), '--viol-limit', str(job.get('viol_limit', 3)), '--seed', str(seed)]
    for x in job.get('engine', []):
        cmd.append(x)
    for f in load_known()['findings']:
        if f['property'] == pid:
            cmd += ['--exempt', f['key']]
    if no_stop:
        cmd += ['--keep-going']
    cmd += list(extra)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, errors='replace', cwd=outdir)
    try:
        out, _ = p.communicate(timeout=job['deadline'] + 120)
    except subprocess.TimeoutExpired:
        out = ''
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if not os.path.exists(stats):
        raise CheckError('engine gave no result for %s: rc=%s %s' % (h['src'], p.returncode, out[-2000:]))
    st = json.load(open(stats))
    st['exe'] = exe
    return st


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='regular expression on job names (development)')
    ap.add_argument('--config', help='regular expression on configurations (development)')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    eng = build_engine()
    if a.property == 'engine':
        print('engine ready in', eng)
        return 0
    import jobs
    pid = a.property
    spec = jobs.SPEC[pid]
    js = spec['jobs'](a.tier)
    if a.only:
        js = [j for j in js if re.search(a.only, j['name'])]
    if a.config:
        js = [dict(j, configs=[c for c in j['configs'] if re.search(a.config, c)]) for j in js]
        js = [j for j in js if j['configs']]
    # compile all harness variants in parallel
    hs, seen = [], set()
    for j in js:
        k = json.dumps(j['harness'], sort_keys=True)
        if k not in seen:
            seen.add(k)
            hs.append(j['harness'])
    tb = time.time()
    with ThreadPoolExecutor(NCPU) as ex:
        futs = [(h, ex.submit(build_harness, h, eng), ex.submit(build_native, h, eng, h.get('san', False))) for h in hs]
        broken = {}
        for h, f, g in futs:
            try:
                f.result()
                g.result()
            except CheckError as e:   # an internal the harness names is gone: its jobs are skipped and counted as incomplete
                broken[json.dumps(h, sort_keys=True)] = str(e)
    build_s = time.time() - tb
    work = os.environ.get('VERIF_WORK') or os.path.join(VERIF, 'evidence', 'work', pid)
    shutil.rmtree(work, ignore_errors=True)
    known = load_known()
    tot = {}
    notes, functions, cfgs, samples = {}, set(), {}, []
    skip = [j for j in js if json.dumps(j['harness'], sort_keys=True) in broken]
    if skip and len(skip) == len(js):
        raise CheckError('no harness builds: ' + list(broken.values())[0])
    for j in skip:
        notes['skipped: job %s, harness does not build on this tree' % j['name']] = 1
        print('job %s skipped: %s' % (j['name'], broken[json.dumps(j['harness'], sort_keys=True)][:1500]))
    js = [j for j in js if j not in skip]
    confirmed, unconfirmed, kf_hits = [], [], {}
    validated = mism = 0
    jobrep = []
    for j in js:
        if confirmed and os.environ.get('VERIF_FIRST'):   # development
            break
        outdir = os.path.join(work, j['name'])
        st = run_job(pid, j, eng, a.tier, seed, outdir, None)
        nat = build_native(j['harness'], eng, j['harness'].get('san', False))

        filtered = []

        def judge(outdir):
            vs = [parse_replay(p) for p in sorted(glob.glob(outdir + '/viol_*.txt'))]
            if 'only' in j:   # other failures are other properties' business
                other = [v for v in vs if not re.match(j['only'], v['key'])]
                vs = [v for v in vs if v not in other]
                filtered.extend(other)
            got = 0
            if any(v['key'].startswith('uninitialised') for v in vs):
                plain = build_native(j['harness'], eng, 'plain')

            def one(v):
                if v['key'].startswith('uninitialised'):
                    return replay_valgrind(plain, v['path'])
                return replay_native(nat, v['path'], j['harness'], j.get('native_timeout', 20))
            with ThreadPoolExecutor(NCPU) as ex:
                rs = list(ex.map(one, vs))
            for v, (s, txt) in zip(vs, rs):
                v['native'] = txt
                v['job'] = j['name']
                ks = [f for f in known['findings'] if matches(f, pid, v)]
                if s == 'reproduced' and ks:
                    kf_hits.setdefault(ks[0]['id'], []).append(v)
                    got += 1
                elif s == 'reproduced':
                    confirmed.append(v)
                    got += 1
                else:
                    unconfirmed.append(v)
            return got
        judge(outdir)
        if (unconfirmed or filtered) and not confirmed and st.get('stopped'):
            # the counterexample is not one of the real code: explore on without stopping
            outdir2 = outdir + '_full'
            st = run_job(pid, j, eng, a.tier, seed, outdir2, None, no_stop=True)
            judge(outdir2)
            outdir = outdir2
        # fidelity: concrete inputs of explored paths replayed on the native build
        sp = sorted(glob.glob(outdir + '/sample_*.txt'))
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda p: replay_native(nat, p, j['harness'], j.get('native_timeout', 20)), sp))
        jv = 0
        for p, (s, txt) in zip(sp, rs):
            if s == 'holds':
                jv += 1
                if jv <= 2:
                    v = parse_replay(p)
                    samples.append({'job': j['name'], 'config': v['config'], 'inputs': v['inputs'][:40]})
            elif s == 'reproduced' and j.get('trust_samples', True):
                v = parse_replay(p)
                v['native'] = txt
                m = re.match(r'REPRODUCED (\S+?):', txt)
                v['key'] = m.group(1) if m else 'native'
                v['msg'] = 'found on the native replay of an explored path'
                v['job'] = j['name']
                ks = [f for f in known['findings'] if matches(f, pid, v)]
                if ks:
                    kf_hits.setdefault(ks[0]['id'], []).append(v)
                else:
                    confirmed.append(v)
            else:
                mism += 1
                notes['fidelity: %s' % txt[:80]] = notes.get('fidelity: %s' % txt[:80], 0) + 1
        validated += jv
        for k in ('paths', 'pruned', 'decisions', 'implied', 'choices', 'queries', 'sat', 'unsat', 'unknown', 'checks', 'checks_unsat', 'solver_s', 'divergences', 'mismatches', 'crashes', 'timeouts', 'open_left', 'reached', 'region_points'):
            tot[k] = tot.get(k, 0) + st[k]
        for k, n in st['notes'].items():
            notes[k] = notes.get(k, 0) + n
        functions |= {short(f) for f in st['functions'] if 'parmcb' in short(f) or '::main' in f or 'demo_main' in f}
        jobrep.append({'job': j['name'], 'harness': j['harness']['src'], 'bounds': j.get('bounds', ''), 'configs': len(j['configs']), 'paths': st['paths'], 'decisions': st['decisions'], 'queries': st['queries'], 'assertion_queries': st['checks'], 'solver_s': st['solver_s'], 'wall_s': st['wall_s'], 'complete': st['open_left'] == 0 and not any(k.startswith('incomplete') for k in st['notes'])})
        for c, n in st['configs'].items():
            cfgs[j['name'] + ': ' + c] = n
        if st['reached'] == 0 and not confirmed and not kf_hits:
            raise CheckError('job %s never reached its assertion (vacuous): notes %s' % (j['name'], st['notes']))
        if confirmed:
            break
    prune_builds()
    wall = time.time() - t0
    incomplete = {k: v for k, v in notes.items() if k.split(':')[0] in ('incomplete', 'divergence', 'mismatch', 'dropped', 'fidelity', 'skipped')}
    complete = not incomplete and tot['open_left'] == 0
    cov = {
        'states': tot['paths'], 'transitions': tot['decisions'] + tot['choices'],
        'traces_validated_against_impl': validated,
        'samples': samples[:8] or [{'none': 'no path ended'}],
        'exhaustive': complete,
        'explanation': 'states = complete symbolic paths of the real code (each a set of inputs), transitions = branch decisions and choices on symbolic inputs; every open decision was flipped by an SMT query; on every path the assertions were discharged by SMT (PC and not P unsat)',
        'bounds': spec['bounds'], 'outside_bounds': spec.get('outside', ''),
        'functions_encoded': sorted(functions), 'jobs': jobrep,
        'smt_queries': tot['queries'], 'smt_sat': tot['sat'], 'smt_unsat': tot['unsat'], 'smt_unknown': tot['unknown'], 'solver_s': round(tot['solver_s'], 2),
        'assertion_checks': tot['checks'], 'assertion_checks_unsat': tot['checks_unsat'], 'decisions_implied_without_query': tot['implied'],
        'paths_reaching_assertions': tot['reached'], 'open_branches_left': tot['open_left'],
        'incomplete': incomplete, 'paths_per_config': cfgs if len(cfgs) <= 200 else dict(list(cfgs.items())[:200]),
        'harness_build_s': round(build_s, 1), 'unconfirmed_counterexamples': len(unconfirmed), 'known_findings_seen': sorted(kf_hits),
    }
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': spec.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': spec['assumptions'], 'wall_s': round(wall, 2), 'violations': len(confirmed)}
    if not a.no_evidence:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d paths, %d decisions, %d queries (%.1fs solver), %d assertion checks, %d traces validated natively, wall %.1fs%s' % (pid, a.tier, tot['paths'], tot['decisions'], tot['queries'], tot['solver_s'], tot['checks'], validated, wall, '' if complete else ', incomplete: %s' % json.dumps(incomplete)[:600]))
    for v in unconfirmed[:5]:
        print('  counterexample not reproduced natively (not reported): %s %s [%s] -> %s' % (v['key'], v['msg'], v['config'], v['native']))
    for k in sorted(kf_hits):
        f = [x for x in known['findings'] if x['id'] == k][0]
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if confirmed:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(confirmed[:5]):
            dst = os.path.join(rd, '%s_%d.txt' % (pid, n))
            shutil.copy(v['path'], dst)
            print('  [%s] %s: %s; native replay: %s' % (v['config'], v['key'], v['msg'], v['native']))
            print('VIOLATION property=%s replay=%s' % (pid, dst))
        return 1
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('CHECK-ERROR', e)
        sys.exit(2)
