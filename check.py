#!/usr/bin/env python3
"""Build the simulator and the workloads from /repo's current tree, search, judge.

usage: check.py PROPERTY [quick|thorough]      decide one property
       check.py --build [WORKLOAD...]          only build (setup_cmd)
       check.py --replay FILE                  replay a recorded violation
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
EVID = os.path.join(ROOT, 'evidence')
JOBS = max(2, min(8, os.cpu_count() or 2))
MPI_INC = '/usr/lib/x86_64-linux-gnu/openmpi/include'

sys.path.insert(0, ROOT)
from workloads import LIBSETS, WORKLOADS, PROPS      # noqa: E402

CXX = 'g++'
BASE = ['-w', '-std=gnu++14', '-pthread', '-fPIC', '-DOMPI_SKIP_MPICXX', '-fno-gnu-unique',
        '-I' + MPI_INC, '-I' + REPO + '/src', '-I' + ROOT + '/config']
HOST = ['-w', '-std=gnu++17', '-O2', '-g', '-pthread', '-I' + MPI_INC]
LINK = ['-lfftw3f', '-lfftw3', '-lopenblas']


def sha(path):
    h = hashlib.sha256()
    try:
        with open(path, 'rb') as f:
            h.update(f.read())
    except OSError:
        return 'missing'
    return h.hexdigest()


_sha_cache = {}


def csha(path):
    if path not in _sha_cache:
        _sha_cache[path] = sha(path)
    return _sha_cache[path]


class BuildError(Exception):
    pass


def compile_one(job):
    """(source, object, flags): compile unless the object is up to date by content."""
    src, obj, flags = job
    stamp = obj + '.stamp'
    key = ' '.join(flags)
    if os.path.exists(obj) and os.path.exists(stamp):
        try:
            st = json.load(open(stamp))
            if st['key'] == key and all(csha(p) == h for p, h in st['deps'].items()):
                return False
        except (ValueError, KeyError):
            pass
    dep = obj + '.d'
    cxx = CXX
    if flags[0] == 'clang++':
        cxx, flags = 'clang++', [f for f in flags[1:] if f != '-fno-gnu-unique']
    cmd = [cxx] + flags + ['-MMD', '-MF', dep, '-c', src, '-o', obj]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        errs = [l for l in r.stdout.splitlines() if 'error' in l][:5]
        raise BuildError('%s does not compile:\n%s' % (src, '\n'.join(errs)[:3000]))
    txt = open(dep).read().replace('\\\n', ' ')
    deps = txt.split(':', 1)[1].split()
    deps = {p: csha(p) for p in deps if not p.startswith('/usr/')}
    json.dump({'key': key, 'deps': deps}, open(stamp, 'w'))
    return True


def run_cmd(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + r.stdout[-3000:])


def build(workloads):
    os.makedirs(BUILD, exist_ok=True)
    jobs, links = [], []
    host_objs = []
    for n in ('core', 'mem', 'mpi', 'race', 'io', 'runner'):
        o = '%s/host_%s.o' % (BUILD, n)
        jobs.append(('%s/sim/host/%s.cpp' % (ROOT, n), o, HOST))
        host_objs.append(o)
    links.append((BUILD + '/sim', host_objs, ['-rdynamic', '-pthread', '-ldl']))
    libs_done = set()
    for w in workloads:
        W = WORKLOADS[w]
        flags = ([W['cxx']] if 'cxx' in W else []) + BASE + W.get('flags', ['-O1'])
        objs = []
        lset = W.get('lib', 'default')
        lflags = BASE + W.get('libflags', W.get('flags', ['-O1']))
        tag = lset + '_' + hashlib.md5(' '.join(lflags).encode()).hexdigest()[:8]
        for s in LIBSETS[lset]:
            o = '%s/lib_%s_%s.o' % (BUILD, tag, s.replace('/', '_').replace('.cpp', ''))
            if o not in libs_done:
                libs_done.add(o)
                jobs.append(('%s/src/%s' % (REPO, s), o, lflags))
            objs.append(o)
        for i, part in enumerate(W['parts']):
            src, extra = part
            o = '%s/wl_%s_%d.o' % (BUILD, w, i)
            jobs.insert(0, ('%s/wl/%s' % (ROOT, src), o, flags + extra))
            objs.append(o)
        links.append((BUILD + '/wl_%s.so' % w, objs, ['-shared', '-Wl,-Bsymbolic'] + W.get('link', []) + LINK))
    built = 0
    with ThreadPoolExecutor(JOBS) as ex:
        for b in ex.map(compile_one, jobs):
            built += b
    for out, objs, opts in links:
        key = hashlib.sha256(('|'.join([csha_now(o) for o in objs]) + ' '.join(opts)).encode()).hexdigest()
        st = out + '.link'
        if os.path.exists(out) and os.path.exists(st) and open(st).read() == key:
            if out.endswith('/sim') or all(os.path.exists('%s.%d' % (out, i)) for i in range(6)):
                continue
        run_cmd([CXX] + ['-o', out + '.tmp'] + objs + opts)
        os.replace(out + '.tmp', out)
        if not out.endswith('/sim'):
            for i in range(6):
                shutil.copyfile(out, '%s.%d' % (out, i))
        open(st, 'w').write(key)
    return built


def csha_now(p):
    return sha(p)


def host_sources_hash():
    h = hashlib.sha256()
    for d in ('sim', 'sim/host', 'wl', 'config/ovxx/detail'):
        for f in sorted(os.listdir(os.path.join(ROOT, d))):
            p = os.path.join(ROOT, d, f)
            if os.path.isfile(p):
                h.update(open(p, 'rb').read())
    return h.hexdigest()


def known_findings():
    """known_findings.txt: 'known: property=<id> class=<class> match=<regex> ...' """
    res = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) match="([^"]*)" (.*)', line)
            if m:
                res.append(dict(property=m.group(1), cls=m.group(2), match=m.group(3), text=m.group(4).strip()))
    return res


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == '--build':
        n = build(sys.argv[2:] or sorted(WORKLOADS))
        print('built (%d objects compiled)' % n)
        return 0
    if sys.argv[1] == '--setup':
        # every check rebuilds what it needs; here only the simulator itself
        build([])
        print('simulator built')
        return 0
    if sys.argv[1] == '--replay':
        text = open(sys.argv[2]).read()
        w = re.search(r'^workload (\S+)', text, re.M).group(1)
        build([w])
        r = subprocess.run([BUILD + '/sim', '--lib', BUILD + '/wl_%s.so' % w, '--replay', os.path.abspath(sys.argv[2])] +
                           sys.argv[3:])
        return r.returncode

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    P = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    build([w['workload'] for w in P['runs']])
    t_build = time.time() - t0
    os.makedirs(EVID, exist_ok=True)
    budget = P.get(tier, {}).get('time', 30 if tier == 'quick' else 600)
    res, viols, others, errors = [], [], [], []
    tot = sum(w.get('share', 1) for w in P['runs'])
    for k, w in enumerate(P['runs']):
        out = '%s/run_%s_%d.json' % (BUILD, prop, k)
        tl = budget * w.get('share', 1) / tot
        cmd = [BUILD + '/sim', '--lib', BUILD + '/wl_%s.so' % w['workload'], '--seed', str(seed * 1000 + k),
               '--count', '100000000', '--jobs', str(JOBS), '--time', '%.1f' % tl, '--min-time', '20' if tier == 'quick' else '90',
               '--det', str(w.get('det', 40)), '--out', out, '--prop', prop]
        if w.get('classes'):
            cmd += ['--classes', ','.join(w['classes'])]
        if w.get('not'):
            cmd += ['--not', ','.join(w['not'])]
        kf = [k for k in known_findings() if k['property'] == prop]
        if kf:
            open(out + '.known', 'w').write(''.join('%s\t%s\n' % (k['cls'], k['match']) for k in kf))
            cmd += ['--known', out + '.known']
        if w.get('bias'):
            cmd += ['--bias', w['bias']]
        if os.path.exists(out):
            os.unlink(out)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=tl + 500)
        if r.returncode or not os.path.exists(out):
            errors.append('%s: simulator exit %d: %s' % (w['workload'], r.returncode, r.stdout[-1500:]))
            continue
        d = json.load(open(out))
        res.append((w, d))
        if d['determinism_mismatches'] and not d['violations']:
            errors.append('%s: nondeterministic runs: %s' % (w['workload'], d['nondet'][:3]))
        if d['internal'] and not d['violations']:
            errors.append('%s: internal: %s' % (w['workload'], d['internal'][:3]))
        if d['unreproducible'] and not d['violations']:
            errors.append('%s: %d violations did not reproduce' % (w['workload'], d['unreproducible']))
        for v in d['violations']:
            # gate: replay in a fresh process; exit 1 = the same violation and the same history
            rr = subprocess.run([BUILD + '/sim', '--lib', BUILD + '/wl_%s.so' % w['workload'], '--replay', v['replay']],
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            v['replay_rc'] = rr.returncode
            v['workload'] = w['workload']
            if rr.returncode == 1:
                viols.append(v)
            else:
                errors.append('%s: seed %s class %s does not replay (rc %d)' % (w['workload'], v['seed'], v['class'], rr.returncode))
    known = [k for k in known_findings() if k['property'] == prop]
    fresh = viols
    write_evidence(prop, tier, seed, P, res, fresh, t_build, time.time() - t0, known)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    for w, d in res:
        print('%s: %s: %d runs (%d distinct non-trivial, %d schedules), %.0f runs/s, %.2f simulated s, faults in %d runs, determinism %d/%d'
              % (prop, w['workload'], d['runs'], d['distinct_runs'], d['distinct_schedules'], d['runs'] / max(d['wall'], .01), d['sim_seconds'],
                 d['runs_with_injected_fault'], d['determinism_pairs'] - d['determinism_mismatches'], d['determinism_pairs']))
    if fresh:
        rdir = os.path.join(EVID, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for v in fresh:
            dst = os.path.join(rdir, os.path.basename(v['replay']))
            shutil.copyfile(v['replay'], dst)
            print('%s: seed %s, %s after minimisation: %d ranks, %d operations, %d choices, %d faults: %s'
                  % (v['class'], v['seed'], v['workload'], v['ranks'], v['ops'], v['choices'], v['faults'], v['message'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, dst))
        return 1
    if errors:
        for e in errors:
            print('ERROR: ' + e)
        return 3
    return 0


def write_evidence(prop, tier, seed, P, res, fresh, t_build, wall, known):
    ev = sum(d['runs'] for _, d in res)
    dn = sum(d['distinct_runs'] for _, d in res)
    stats, runs_with = {}, {}
    for _, d in res:
        for k, v in d['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in d['runs_with'].items():
            runs_with[k] = runs_with.get(k, 0) + v
    search_wall = sum(d['wall'] for _, d in res) or 1e-9
    samples = []
    for w, d in res:
        samples += [w['workload'] + ' ' + s[:700] for s in d['samples'][:3]]
    if len(samples) < 3:
        samples += ['seed %d (no notes)' % i for i in range(3 - len(samples))]
    fk = {k: v for k, v in stats.items() if v and ('inject' in k or k in (
        'sends_rendezvous', 'sends_late_buffered', 'messages_reordered_across_links', 'slow_rank_runs', 'rank_stalls',
        'preemptions_at_memory_access', 'clock_skewed_runs', 'buffered_sends_full', 'collectives_synchronising'))}
    probes = {}
    for w, d in res:
        names = P.get('probes') or WORKLOADS[w['workload']].get('probes', [])
        for i, n in enumerate(names):
            probes[n] = probes.get(n, 0) + d['probes'][i]
    doc = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'),
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': dn,
            'rule': 'One evaluation is one complete simulated run of a generated program under one seed. A run counts as distinct and '
                    'non-trivial if ranks or threads interacted in it (a message, a collective, a context switch at a shared access) or a fault '
                    'fired, and the pair (program hash, hash of all scheduling/network/fault choices) had not been seen before.',
            'samples': samples[:6],
            'simulated_runs': ev, 'seeds_per_hour': int(ev / search_wall * 3600),
            'simulated_seconds': round(sum(d['sim_seconds'] for _, d in res), 3),
            'scheduler_steps': sum(d['steps'] for _, d in res),
            'distinct_schedules': sum(d['distinct_schedules'] for _, d in res),
            'distinct_programs': sum(d['distinct_programs'] for _, d in res),
            'fault_kinds_injected': fk, 'runs_with': {k: v for k, v in runs_with.items() if v},
            'runs_with_injected_fault': sum(d['runs_with_injected_fault'] for _, d in res),
            'runs_ended_by_injected_fault': {k: v for _, d in res for k, v in d['fault_endings'].items()},
            'probes': probes,
            'determinism_pairs_checked': sum(d['determinism_pairs'] for _, d in res),
            'determinism_mismatches': sum(d['determinism_mismatches'] for _, d in res),
            'per_workload': {('%s#%d' % (w['workload'], i)): {'runs': d['runs'], 'distinct': d['distinct_runs'], 'runs_per_s': round(d['runs'] / max(d['wall'], .01))}
                             for i, (w, d) in enumerate(res)},
            'build_s': round(t_build, 1),
            'components': {'real': P.get('real', WORKLOADS[P['runs'][0]['workload']].get('real', 'OpenVSIP headers and libovxx sources of the current tree, compiled unmodified')),
                           'stub': P.get('stub', 'MPI library (simulated network and collectives), thread scheduler, heap, clock, mutex')},
        },
        'wall_s': round(wall, 2),
        'assumptions': P.get('assumptions', []) + [
            'The simulated MPI follows the MPI standard (non-overtaking channels, any legal buffering and completion order); it is a stub, not Open MPI.',
            'Code is compiled with g++ for x86-64; scheduling is sequentially consistent.'],
        'violations': len(fresh),
    }
    if fresh:
        doc['coverage']['violation_list'] = [{'replay': os.path.basename(v['replay']), 'class': v['class'], 'message': v['message'][:500],
                                              'seed': v['seed']} for v in fresh]
    if known:
        doc['coverage']['known_findings'] = [k['text'] for k in known]
    json.dump(doc, open('%s/%s.json' % (EVID, prop), 'w'), indent=1)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        print('ERROR: build failed: %s' % e)
        sys.exit(3)
