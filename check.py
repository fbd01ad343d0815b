#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property by symbolic execution of /repo's current C sources with
symx (verif/symx): clang lowers the sources and the harness to LLVM IR, symx
executes the IR path-wise with symbolic inputs, Z3 decides every assertion.
Counterexamples are replayed against a native (ASan/UBSan) build of the same
sources before they are reported.  Exit 0: held on everything explored.
Exit 1 + "VIOLATION property=.. replay=..": a replayed counterexample.
Exit 2: the check itself could not give an answer (build error, engine error)."""
import sys, os, json, subprocess, hashlib, time, tempfile, shutil, fcntl, threading, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
sys.path.insert(0, V)
import props as P

JOBS = int(os.environ.get('VERIF_JOBS', '8'))
INC = ['', 'device', 'panel', 'model2030', 'model2050', 'model1052', 'model1442', 'model1443', 'model2415', 'model2844', 'model2841']

def sh(cmd, timeout=600, cwd=None, env=None, inp=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env, stdin=subprocess.DEVNULL)

def die(msg):
    print('check: error: ' + msg)
    sys.exit(2)

def symx_bin():
    h = hashlib.sha256()
    for f in sorted(os.listdir(V + '/symx')):
        h.update(open(V + '/symx/' + f, 'rb').read())
    os.makedirs(V + '/build', exist_ok=True)
    out = V + '/build/symx-' + h.hexdigest()[:12]
    if os.path.exists(out): return out
    with open(V + '/build/lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if os.path.exists(out): return out
        for f in os.listdir(V + '/build'):
            if f.startswith('symx-'): os.unlink(V + '/build/' + f)
        r = sh(['sh', V + '/symx/build.sh', out])
        if r.returncode: die('cannot build symx: ' + r.stderr.decode()[-2000:])
    return out

ROS = {  # header -> (generator sources, input, dir)
    'model2030_ros.h': ('model2030/cros2030.c', 'model2030/ccros2030.txt'),
    'model2050_ros.h': ('model2050/cros2050.c', 'model2050/ros.txt'),
    'model2844_ros.h': ('model2844/cros2844.c', 'model2844/model2844_ros.txt'),
    'model2841_ros.h': ('model2841/cros2841.c', 'model2841/ros.txt'),
}

class Ctx: pass

def gen_ros(d, hdr):
    gen, txt = ROS[hdr]
    exe = d + '/' + os.path.basename(gen)[:-2]
    if os.path.exists(d + '/' + hdr): return
    r = sh(['gcc', '-O1', '-w', '-I' + SRC, '-I' + SRC + '/device', SRC + '/' + gen, '-o', exe])
    if r.returncode: die('generator does not build: ' + r.stderr.decode()[-1000:])
    r = sh([exe, SRC + '/' + txt, d + '/' + hdr], timeout=60)
    if r.returncode or not os.path.exists(d + '/' + hdr): die('generator failed: ' + gen)

def src_path(s):
    return V + '/harness/' + s[2:] if s.startswith('h:') else SRC + '/' + s

def cflags(u, d):
    return ['-w', '-I' + V + '/harness', '-I' + d] + ['-I' + SRC + ('/' + i if i else '') for i in INC] + u.get('cflags', [])

class Unit:
    """one harness linked with the sources it exercises"""
    def __init__(s, u, d):
        s.u = u; s.d = d; s.name = u['name']; s.lock = threading.Lock(); s.native = None; s.err = None
    def files(s):
        return ['h:' + s.u['harness']] + s.u['srcs']
    def bitcode(s, pool):
        u, d = s.u, s.d
        base = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c', '-fno-builtin']
        if u.get('bounds', True): base += ['-fsanitize=bounds', '-fsanitize-trap=bounds']
        outs = []; jobs = []
        for i, f in enumerate(s.files() + ['h:clib.c']):
            fl = cflags(u, d)
            if f.startswith('h:'): fl = fl + ['-fno-sanitize=bounds']
            else: fl = fl + u.get('srcflags', [])
            o = '%s/%s.%d.bc' % (d, s.name, i)
            outs.append(o); jobs.append(pool.submit(sh, base + fl + [src_path(f), '-o', o]))
        for j in jobs:
            r = j.result()
            if r.returncode: s.err = 'compile: ' + r.stderr.decode()[-1500:]; return
        a = d + '/' + s.name + '.all.bc'; b = d + '/' + s.name + '.bc'
        r = sh(['llvm-link'] + outs + ['-o', a])
        if r.returncode: s.err = 'link: ' + r.stderr.decode()[-1500:]; return
        r = sh(['opt', '-passes=function(sroa,early-cse,simplifycfg,early-cse,simplifycfg)', a, '-o', b])
        if r.returncode: s.err = 'opt: ' + r.stderr.decode()[-1500:]; return
        s.bc = b
    def native_exe(s):
        with s.lock:
            if s.native: return s.native
            u, d = s.u, s.d
            exe = d + '/' + s.name + '.native'
            objs = []; ps = []
            for i, f in enumerate(s.files() + ['h:native.c']):
                o = '%s/%s.%d.n.o' % (d, s.name, i)
                fl = cflags(u, d) + ['-DNATIVE'] + u.get('nflags', [])
                san = ['-fsanitize=address'] if f == 'h:native.c' else ['-fsanitize=address,integer-divide-by-zero' + (',bounds' if u.get('bounds', True) and not f.startswith('h:') else ''), '-fno-sanitize-recover=all']
                if not f.startswith('h:'): fl = fl + u.get('srcflags', [])
                ps.append(subprocess.Popen(['clang', '-O0', '-g', '-fno-builtin', '-ftrivial-auto-var-init=pattern'] + san + fl + ['-c', src_path(f), '-o', o], stderr=subprocess.PIPE)); objs.append(o)
            for p in ps:
                e = p.communicate()[1]
                if p.returncode: s.nerr = e.decode()[-1000:]; return None
            noops = d + '/' + s.name + '.noop.c'
            with open(noops, 'w') as f:
                for n in u.get('noop', []): f.write('long %s(){return 0;}\n' % n)
            r = sh(['clang', '-O0', '-w', '-fno-builtin', '-fsanitize=address'] + objs + [noops, '-Wl,--allow-multiple-definition', '-Wl,--unresolved-symbols=ignore-all', '-lm', '-o', exe])
            if r.returncode: s.nerr = r.stderr.decode()[-1000:]; return None
            s.native = exe
            return exe
    def replay(s, case, inputs, tag):
        """-> (verdict text, asserts failed, obs)"""
        exe = s.native_exe()
        if not exe: return 'nobuild', [], []
        f = '%s/%s.%s.in' % (s.d, s.name, tag)
        with open(f, 'w') as o:
            for n, h in inputs: o.write('%s %s\n' % (n, h))
        env = {'SYMX_INPUT': f, 'SYMX_CASE': str(case), 'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=170:allocator_may_return_null=1', 'PATH': os.environ['PATH']}
        try: r = sh([exe], timeout=30, env=env, cwd=s.d)
        except subprocess.TimeoutExpired: return 'timeout', [], []
        out = r.stdout.decode(errors='replace'); err = r.stderr.decode(errors='replace')
        fails = [l[14:].strip() for l in out.splitlines() if l.startswith('ASSERT-FAILED ')]
        obs = [int(l[4:]) for l in out.splitlines() if l.startswith('OBS ')]
        if 'REPLAY-DESYNC' in err: v = 'desync'
        elif 'AddressSanitizer' in err or 'runtime error' in err or r.returncode < 0: v = 'crash'
        elif r.returncode == 3 and 'ASSUME-FALSE' in out: v = 'assume'
        elif fails: v = 'assert'
        elif 'END' in out: v = 'end'
        else: v = 'exit%d' % r.returncode
        return v, fails, obs

def run_case(sx, unit, case, tier, seed, tlimit):
    u = unit.u
    out = '%s/%s.%d.json' % (unit.d, unit.name, case)
    cmd = [sx, unit.bc, '--out', out, '--time', str(tlimit), '--samples', str(u.get('samples', 2)), '--seed', str(seed + case), '--set', 'symx_case=%d' % case,
           '--max-steps', str(u.get('max_steps', 2000000000)), '--qtimeout', str(u.get('qtimeout', 60000))]
    if u.get('noop'): cmd += ['--noop', ','.join(u['noop'])]
    if u.get('hang'): cmd += ['--hang', str(u['hang'])]
    cmd += u.get('symx', [])
    if os.environ.get('VERIF_PROF'): cmd += ['--prof']
    try: r = sh(cmd, timeout=tlimit + 240)
    except subprocess.TimeoutExpired: return {'error': 'engine did not stop', 'case': case}
    if os.environ.get('VERIF_PROF'): print(r.stderr.decode()[-4000:])
    if r.returncode not in (0, 1) or not os.path.exists(out):
        return {'error': 'engine exit %d: %s' % (r.returncode, r.stderr.decode()[-600:]), 'case': case}
    j = json.load(open(out)); j['case'] = case
    return j

def fkey(unit, case, f):
    return {'unit': unit.name, 'case': case, 'label': f['label'], 'kind': f['kind'], 'where': f['where'].split(':')[0]}

def known_match(known, prop, unit, case, f):
    for k in known:
        if k.get('status') != 'finding' or k['property'] != prop: continue
        if k['unit'] != unit.name or k['label'] != f['label']: continue
        if 'cases' in k and case not in k['cases']: continue
        if 'where' in k and not f['where'].startswith(k['where']): continue
        if 'inputs' in k:
            d = {}
            for n, h in f['inputs']: d.setdefault(n, h)
            if any(d.get(n) != v for n, v in k['inputs'].items()): continue
        return k
    return None

def main():
    if sys.argv[1] == '--setup': print(symx_bin()); return
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = P.PROPS[prop]; t0 = time.time()
    os.makedirs(V + '/evidence', exist_ok=True)
    ev_path = V + '/evidence/%s.json' % prop
    sx = symx_bin()
    d = tempfile.mkdtemp(prefix='vchk-')
    try:
        rc = go(prop, tier, seed, p, t0, ev_path, sx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

def go(prop, tier, seed, p, t0, ev_path, sx, d):
    pool = ThreadPoolExecutor(JOBS)
    cfg = open(d + '/config.h', 'w'); cfg.write('#define HAVE_UNISTD_H 1\n'); cfg.close()
    only = os.environ.get('VERIF_UNIT'); onlyc = os.environ.get('VERIF_CASE')
    units = [Unit(u, d) for u in p['units'] if (not only or u['name'] == only)]
    for u in units:
        for h in u.u.get('ros', []): gen_ros(d, h)
    bpool = ThreadPoolExecutor(4)
    list(bpool.map(lambda u: u.bitcode(pool), units))
    for u in units:
        if u.err: die('unit %s: %s' % (u.name, u.err))
    jobs = []
    for u in units:
        cs = u.u.get('cases', [0])
        if tier == 'thorough': cs = list(cs) + list(u.u.get('thorough_cases', []))
        for c in cs:
            if onlyc and int(onlyc) != c: continue
            tl = u.u.get('time', 120) if tier == 'quick' else u.u.get('thorough_time', 3600)
            jobs.append((u, c, pool.submit(run_case, sx, u, c, tier, seed, tl)))
    known = json.load(open(V + '/known_findings.json')) if os.path.exists(V + '/known_findings.json') else []
    agg = dict(byte_domain=0, paths=0, killed=0, errpaths=0, forks=0, merges=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, asserts=0, asserts_trivial=0, asserts_solver=0, unresolved=0)
    solver_s = 0.0; funcs = {}; labels = {}; reached = {}; inc = []; errors = []; viol = []; kf = []; unconf = []; samples_ev = []; validated = 0; mism = []
    repjobs = []; per_case = []
    for u, c, j in jobs:
        r = j.result()
        if 'error' in r: errors.append('%s case %d: %s' % (u.name, c, r['error'])); continue
        for k in agg: agg[k] += r.get(k, 0)
        solver_s += r['solver_s']
        for f, n in r['functions'].items(): funcs[f] = funcs.get(f, 0) + n
        for f, n in r['labels'].items(): labels[f] = labels.get(f, 0) + n
        rr = reached.setdefault(u.name, {})
        for f, n in r['reached'].items(): rr[f] = rr.get(f, 0) + n
        if r['incomplete'] or r['unresolved']: inc.append('%s case %d: %s' % (u.name, c, r['incomplete_why'] or 'time limit'))
        if u.u.get('case_reach') and not r['reached']  and not r['failures']: errors.append('%s case %d: vacuous (no path reaches the end)' % (u.name, c))
        per_case.append({'unit': u.name, 'case': c, 'paths': r['paths'], 'queries': r['queries'], 'wall_s': r['wall_s']})
        if os.environ.get('VERIF_V'): print('%s case %d: paths %d killed %d err %d forks %d merges %d q %d+%d solver %.1fs wall %.1fs asserts %d/%d inc=%s reach=%s' % (u.name, c, r['paths'], r['killed'], r['errpaths'], r['forks'], r['merges'], r['queries'], r['byte_domain'], r['solver_s'], r['wall_s'], r['asserts_solver'], r['asserts'], r['incomplete'] and (r['incomplete_why'] or 'time'), r['reached']))
        seen = {}
        for i, f in enumerate(r['failures']):
            k = (f['label'], f['where'])
            seen[k] = seen.get(k, 0) + 1
            repjobs.append(('f', u, c, f, pool.submit(u.replay, c, f['inputs'], 'f%d_%d' % (c, i))))
        for i, s in enumerate(r['samples']):
            repjobs.append(('s', u, c, s, pool.submit(u.replay, c, s['inputs'], 's%d_%d' % (c, i))))
    rd = V + '/evidence/replay'
    for kind, u, c, f, j in repjobs:
        v, fails, obs = j.result()
        if kind == 's':
            if v in ('end', 'assert') and (obs == f['obs'] or u.u.get('noobs')):
                validated += 1
                if len(samples_ev) < 6: samples_ev.append({'unit': u.name, 'case': c, 'inputs': f['inputs'][:12], 'native_observations': obs[:12]})
            else: mism.append({'unit': u.name, 'case': c, 'native': v, 'failed': fails, 'obs': obs[:20], 'expected': f['obs'][:20], 'inputs': f['inputs']})
            continue
        ok = (f['label'] in fails) if f['kind'] == 'assert' else (v == 'crash' or (f['kind'] in ('stack', 'hang') and v == 'timeout') or (f['kind'] == 'exit' and v.startswith('exit')))
        k = known_match(known, prop, u, c, f)
        rec = dict(fkey(u, c, f), where=f['where'], inputs=f['inputs'], native=v)
        if not ok: unconf.append(rec)
        elif k: kf.append((k['what'], rec))
        else: viol.append(rec)
    for u in units:
        for l in u.u.get('reach', []):
            if not reached.get(u.name, {}).get(l) and not any(x['unit'] == u.name for x in viol + [b for a, b in kf]) and not onlyc: errors.append('%s: vacuous: never reached %s' % (u.name, l))
    for w in sorted(set(a for a, b in kf)): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    rc = 0
    if viol:
        os.makedirs(rd, exist_ok=True)
        byu = {}
        for i, x in enumerate(viol[:int(os.environ.get('VERIF_MAXV','20'))]):
            path = '%s/%s.%d.json' % (rd, prop, i); json.dump(dict(x, property=prop, how='SYMX_INPUT=<file of "name hex" lines> SYMX_CASE=%d on the native build of unit %s' % (x['case'], x['unit'])), open(path, 'w'), indent=1)
            if i < 5: print('VIOLATION property=%s replay=%s  (%s case %d: %s %s at %s)' % (prop, path, x['unit'], x['case'], x['kind'], x['label'], x['where']))
        rc = 1
    if unconf:
        print('note: %d counterexample(s) did not reproduce natively and are not reported as violations' % len(unconf))
        if os.environ.get('VERIF_V'): print(json.dumps(unconf[:4], indent=1))
    if mism:
        print('note: %d sampled path(s) differ between the encoding and the native build' % len(mism))
        if os.environ.get('VERIF_V'): print(json.dumps(mism[:3], indent=1))
    for i in inc: print('note: bound not exhausted: ' + i)
    for e in errors: print('note: error: ' + e)
    if (errors or mism) and not viol: rc = 2
    if unconf and not viol: rc = rc or 0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': p.get('level', 'model_checking'), 'wall_s': round(time.time() - t0, 2),
          'coverage': {'states': agg['paths'] + agg['killed'] + agg['errpaths'], 'transitions': agg['instructions'], 'traces_validated_against_impl': validated, 'samples': samples_ev,
                       'rule': 'state = one symbolic path (each stands for every input satisfying its path condition); transition = one IR instruction executed symbolically',
                       'functions_encoded': sorted(f for f in funcs if not f.startswith(('h_', 'harness', 'symx_'))), 'bounds': p.get('bounds', ''), 'exhausted': not inc and not errors,
                       'not_exhausted': inc, 'cases': len(jobs), 'queries': agg['queries'], 'branch_conditions_decided_over_one_byte': agg['byte_domain'], 'queries_sat': agg['sat'], 'queries_unsat': agg['unsat'], 'queries_unknown': agg['unknown'], 'solver_s': round(solver_s, 2),
                       'assertions_evaluated': agg['asserts'], 'assertions_decided_by_solver': agg['asserts_solver'], 'assertions_constant': agg['asserts_trivial'], 'assertion_labels': labels, 'branch_forks': agg['forks'], 'branch_merges': agg['merges'],
                       'reach_witnesses': reached, 'trace_mismatches': mism[:5], 'unconfirmed_counterexamples': unconf[:5], 'known_findings_seen': sorted(set(a for a, b in kf)), 'errors': errors, 'per_case': per_case[:60]},
          'assumptions': p.get('assumptions', []), 'violations': len(viol)}
    json.dump(ev, open(ev_path, 'w'), indent=1)
    print('%s %s: %s; %d paths, %d assertions (%d by solver), %d queries, solver %.1f s, %d native traces, wall %.1f s' % (prop, tier, 'VIOLATED' if viol else 'held on everything explored' if rc == 0 else 'NO ANSWER', agg['paths'], agg['asserts'], agg['asserts_solver'], agg['queries'], solver_s, validated, time.time() - t0))
    return rc

if __name__ == '__main__': main()
