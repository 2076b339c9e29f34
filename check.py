#!/usr/bin/env python3
"""Runner: builds LLVM IR from /repo's current tree, runs the abstract
interpreter (engine/) or an IR rule (rules/) on every job of a property, and
reports.  usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR]"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import specs

ENGINE = os.path.join(HERE, 'engine', 'build', 'absint')
CLANG, LINK, OPT = 'clang-18', 'llvm-link-18', 'opt-18'
BASE = ['-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-fno-stack-protector', '-D__NO_CTYPE',
        '-D_FORTIFY_SOURCE=0', '-emit-llvm', '-c', '-w', '-std=gnu11']

class Broken(Exception):
    pass

def ensure_engine():
    if not os.path.exists(ENGINE):
        r = subprocess.run(['make', '-s', '-j4', '-C', os.path.join(HERE, 'engine')], capture_output=True, text=True)
        if r.returncode or not os.path.exists(ENGINE):
            raise Broken('engine does not build: ' + r.stderr[-2000:])

class Builder:
    def __init__(self, repo, tmp):
        self.repo, self.tmp, self.cache, self.n = repo, tmp, {}, 0
    def compile(self, src, flags):
        key = (src, tuple(flags))
        out = os.path.join(self.tmp, 'o%d.bc' % (abs(hash(key)) % (1 << 60)))
        inc = ['-I' + os.path.join(HERE, 'harness')] + ['-I' + os.path.join(self.repo, d) for d in specs.INCLUDES]
        r = subprocess.run([CLANG] + BASE + inc + list(flags) + [src, '-o', out], capture_output=True, text=True)
        if r.returncode:
            raise Broken('does not compile: %s\n%s' % (src, r.stderr[-3000:]))
        return out
    def units(self, job):
        u = []
        for s in job['src']:
            fl = list(job.get('flags', []))
            if isinstance(s, tuple):
                s, extra = s; fl += list(extra)
            path = os.path.join(HERE, s[1:]) if s.startswith('@') else os.path.join(self.repo, s)
            u.append((path, tuple(fl)))
        return u

def run_job(job, b, pool_objs, tmp):
    t0 = time.time()
    objs = [pool_objs[u] for u in b.units(job)]
    bc = os.path.join(tmp, job['name'] + '.bc')
    r = subprocess.run([LINK] + objs + ['-o', bc + '.l'], capture_output=True, text=True)
    if r.returncode:
        raise Broken('link of job %s: %s' % (job['name'], r.stderr[-2000:]))
    r = subprocess.run([OPT, '-passes=' + job.get('passes', 'sroa,mem2reg'), bc + '.l', '-o', bc], capture_output=True, text=True)
    if r.returncode:
        raise Broken('opt of job %s: %s' % (job['name'], r.stderr[-2000:]))
    if 'rule' in job:
        res = job['rule'](bc, job, b)
    else:
        js = bc + '.json'
        cmd = [ENGINE, '-entry', job.get('entry', 'harness'), '-time', str(job.get('time', 240)), '-o', js] + (job.get('opts') or []) + [x for t in job.get('tags', []) for x in ('-only', t)] + [x for t in job.get('kinds', []) for x in ('-kind', t)] + [bc]
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=job.get('time', 240) + 120)
        if r.returncode not in (0, 4) or not os.path.exists(js):
            raise Broken('engine failed on job %s (%d): %s' % (job['name'], r.returncode, r.stderr[-2000:]))
        with open(js) as f:
            res = json.load(f)
    res['job'] = job['name']
    res['job_wall'] = time.time() - t0
    return res

def rel(path, repo):
    return os.path.relpath(path, repo) if path.startswith(repo + '/') else (os.path.relpath(path, HERE) if path.startswith(HERE + '/') else path)

def alarm_id(a, repo):
    tag = re.sub(r'\S*/(\w+\.[ch]):\d+', r'\1', a.get('tag') or '')
    return '%s:%s:%s%s' % (rel(a['file'], repo), a['function'], a['kind'], ':' + tag if tag else '')

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo'); ap.add_argument('--job'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
    t0 = time.time(); repo = os.path.abspath(a.repo)
    try:
        spec = specs.PROPS[a.prop]
    except KeyError:
        print('no such property: ' + a.prop); return 2
    tmp = tempfile.mkdtemp(prefix='fcv-')
    try:
        ensure_engine()
        jobs = [j for j in spec['jobs'] if a.tier == 'thorough' or not j.get('thorough')]
        if a.job: jobs = [j for j in jobs if j['name'] == a.job]
        if not jobs: raise Broken('no jobs')
        b = Builder(repo, tmp)
        units = sorted({u for j in jobs for u in b.units(j)})
        with cf.ThreadPoolExecutor(8) as ex:
            objs = dict(zip(units, ex.map(lambda u: b.compile(*u), units)))
            futs = [ex.submit(run_job, j, b, objs, tmp) for j in sorted(jobs, key=lambda j: -j.get('weight', 1))]
            results = [f.result() for f in futs]
        return report(a, spec, jobs, results, repo, t0)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.prop, e)); return 2
    except subprocess.TimeoutExpired as e:
        print('ANALYSIS-BROKEN property=%s timeout %s' % (a.prop, e.cmd[:3])); return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def known():
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l.strip())
            if m: out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out

def report(a, spec, jobs, results, repo, t0):
    kn = known().get(a.prop, {}); viol = []; incomplete = []; seen = set(); hits = {}
    byname = {j['name']: j for j in jobs}
    for r in results:
        j = byname[r['job']]; ign = j.get('ignore', [])
        for al in r['alarms']:
            if al['kind'] == 'internal': incomplete.append('%s: %s' % (r['job'], al['msg'])); continue
            if al['kind'] in ign: continue
            only = j.get('tags')
            if only and al['kind'] == 'assert' and not any(re.search(t, al['tag']) for t in only): continue
            i = alarm_id(al, repo)
            if i in kn: hits[i] = kn[i]; continue
            if (i, al['line']) in seen: continue
            seen.add((i, al['line'])); viol.append((i, r['job'], al))
        if not r['alarms']:
            for t in sorted(set(r.get('reach_all', [])) - set(r.get('reached', []))):
                if r.get('budget_exhausted') or (j.get('tags') and not any(re.search(x, t) for x in j['tags'])): continue
                i = 'unreachable:' + r['job'] + ':' + t
                viol.append((i, r['job'], dict(kind='unreachable', file='', line=0, function='', tag=t, msg='required outcome "%s" can no longer happen on any path' % t, stack=[], trace=[], state='')))
        if r.get('budget_exhausted'): incomplete.append('%s: %s' % (r['job'], r.get('budget_why')))
    fns = sorted({f for r in results for f in r.get('functions', [])})
    ob = {}; sites = {}
    for r in results:
        for k, v in r.get('obligations', {}).items(): ob[k] = ob.get(k, 0) + v
        for k, v in r.get('obligation_sites', {}).items(): sites[k] = sites.get(k, 0) + v
    nob = sum(v for k, v in ob.items() if not k.startswith(('reach:', 'completed')))
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec['level'],
        'coverage': {
            'explanation': spec['explain'],
            'rule': spec['rule'],
            'jobs': [{'job': r['job'], 'functions': len(r.get('functions', [])), 'abstract_states': r.get('states'), 'steps': r.get('steps'), 'joins': r.get('joins'), 'widenings': r.get('widenings'),
                      'loop_fixpoints': [rel(x.rsplit(':', 1)[0], repo) + ':' + x.rsplit(':', 1)[1] for x in r.get('loop_fixpoints', [])], 'call_sites': r.get('callsites'), 'paths_completed': r.get('completed'),
                      'wall_s': round(r['job_wall'], 2), 'reached': r.get('reached', []), 'unmodelled_externals': r.get('havoced', []), 'complete': not r.get('budget_exhausted', False)} for r in results],
            'functions_analysed': [f for f in fns if not f.startswith(('v_', 'vp_', 'harness'))],
            'obligation_sites': sites, 'obligations_checked': nob, 'obligations': nob, 'discharged': nob - len(viol),
            'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (a.prop, a.tier), 'trusted_base': spec.get('trusted', specs.TRUSTED),
        },
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for i, t in sorted(hits.items()): print('KNOWN-FINDING: property=%s %s %s' % (a.prop, i, t))
    if viol:
        d = os.path.join(HERE, 'out', 'replay'); os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, a.prop + '.json')
        with open(rp, 'w') as f:
            json.dump([{'id': i, 'job': jn, 'kind': al['kind'], 'file': rel(al['file'], repo) if al['file'] else '', 'line': al['line'], 'function': al['function'], 'message': al['msg'], 'call_stack': al['stack'], 'path': al['trace'], 'abstract_state': al.get('state', '')} for i, jn, al in viol], f, indent=1)
        for i, jn, al in viol[:20]:
            print('  %s:%s %s: [%s] %s (job %s)' % (rel(al['file'], repo) if al['file'] else '-', al['line'], al['function'], al['kind'], al['msg'], jn))
            if al['stack'] and a.v: print('     via ' + ' < '.join(al['stack']))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    if incomplete:
        print('ANALYSIS-INCOMPLETE property=%s budget used up, held on everything explored: %s' % (a.prop, '; '.join(incomplete)))
    if nob == 0: print('ANALYSIS-BROKEN property=%s no obligation was generated' % a.prop); return 2
    print('OK property=%s jobs=%d functions=%d obligations=%d wall=%.1fs' % (a.prop, len(results), len(fns), nob, time.time() - t0))
    return 0
sys.exit(main())
