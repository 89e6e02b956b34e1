#!/usr/bin/env python3
"""Mutation campaign: how many small changes of the library do the workloads notice?

  mutate.py FILE-OF-GROUPS OUT.jsonl COUNT SEED

Works on a copy of /repo under /tmp/mm; not used by any check."""
import json, os, random, re, subprocess, sys

GROUPS = {
    'par': (['src/ovxx/parallel/assign_chain.hpp', 'src/ovxx/parallel/assign_block_vector.hpp', 'src/ovxx/parallel/copy_chain.cpp', 'src/vsip/map.hpp', 'src/vsip/impl/dist.hpp',
             'src/ovxx/parallel/map_utils.hpp', 'src/ovxx/parallel/dist_utils.hpp', 'src/ovxx/parallel/util.hpp', 'src/ovxx/parallel/support.hpp', 'src/ovxx/mpi/chain_builder.hpp'],
            ['dist', 'elem7']),
    'expr': (['src/ovxx/parallel/expr.hpp', 'src/ovxx/parallel/assign.hpp', 'src/ovxx/parallel/subset_map_decl.hpp', 'src/ovxx/parallel/transpose_map_decl.hpp', 'src/ovxx/parallel/map_subset_block.hpp',
              'src/ovxx/parallel/proxy_local_block.hpp', 'src/ovxx/parallel/get_local_view.hpp', 'src/ovxx/parallel/scalar_map.hpp', 'src/ovxx/parallel/assign_local.hpp'],
             ['expr', 'dist', 'elem5']),
    'elem': (['src/ovxx/parallel/distributed_block.hpp', 'src/vsip/impl/replicated_map.hpp', 'src/vsip/impl/local_map.hpp', 'src/ovxx/reductions/reductions.hpp', 'src/ovxx/reductions/reductions_idx.hpp'],
             ['elem4', 'elem5', 'elem7', 'user']),
    'mpi': (['src/ovxx/mpi/communicator.hpp', 'src/ovxx/mpi/communicator.cpp', 'src/ovxx/mpi/group.hpp', 'src/ovxx/mpi/group.cpp', 'src/ovxx/mpi/datatype.hpp', 'src/ovxx/mpi/service.cpp', 'src/ovxx/mpi/exception.hpp',
             'src/ovxx/library.cpp', 'src/ovxx/allocator.cpp'],
            ['comm', 'life', 'elem4:faults', 'comm:faults']),
    'user': (['src/ovxx/storage/manager.hpp', 'src/ovxx/storage/user.hpp', 'src/ovxx/storage/host.hpp', 'src/ovxx/storage/block.hpp', 'src/ovxx/dda/accessor.hpp', 'src/ovxx/dda/runtime.hpp', 'src/ovxx/layout.hpp',
              'src/ovxx/parallel/distributed_block.hpp'],
             ['user']),
    'thr': (['src/ovxx/refcounted.hpp', 'src/ovxx/allocator.cpp', 'src/ovxx/library.cpp', 'src/ovxx/signal/fir.hpp', 'src/vsip/impl/signal/fir.hpp', 'src/ovxx/fftw/fft.cpp', 'src/ovxx/fftw/fftw.cpp'],
            ['thr', 'life']),
    'sig': (['src/ovxx/signal/fir.hpp', 'src/ovxx/signal/conv.hpp', 'src/ovxx/signal/corr.hpp', 'src/ovxx/signal/fft.hpp', 'src/ovxx/signal/fft/workspace.hpp', 'src/vsip/impl/signal/fir.hpp', 'src/vsip/impl/signal/iir.hpp',
             'src/vsip/impl/signal/histo.hpp', 'src/vsip/impl/signal/conv.hpp', 'src/vsip/impl/signal/corr.hpp', 'src/vsip/impl/signal/fft.hpp', 'src/vsip/random.hpp', 'src/ovxx/fftw/fft.cpp', 'src/vsip/impl/signal/freqswap.hpp', 'src/ovxx/signal/freqswap.hpp', 'src/ovxx/signal/window.cpp'],
            ['sig']),
    'dsp': (['src/ovxx/signal/fft.hpp', 'src/ovxx/signal/fft/workspace.hpp', 'src/ovxx/signal/fft/functor.hpp', 'src/ovxx/expr/vmmul.hpp', 'src/vsip/impl/vmmul.hpp', 'src/ovxx/expr/unary.hpp'],
            ['dsp', 'sig']),
    'solve': (['src/ovxx/lapack/lu.hpp', 'src/ovxx/lapack/qr.hpp', 'src/ovxx/lapack/cholesky.hpp', 'src/ovxx/lapack/svd.hpp', 'src/ovxx/lapack/blas.hpp', 'src/vsip/impl/solver/toepsol.hpp', 'src/vsip/impl/solver/llsqsol.hpp',
               'src/vsip/impl/solver/covsol.hpp', 'src/vsip/impl/solver/lu.hpp', 'src/vsip/impl/solver/qr.hpp', 'src/vsip/impl/solver/svd.hpp', 'src/vsip/impl/matvec.hpp', 'src/vsip/impl/matvec_prod.hpp'],
              ['solve']),
    'view': (['src/vsip/vector.hpp', 'src/vsip/matrix.hpp', 'src/vsip/tensor.hpp', 'src/vsip/selgen.hpp', 'src/vsip/complex.hpp', 'src/vsip/dense.hpp', 'src/vsip/impl/vector.hpp', 'src/ovxx/expr/subset.hpp', 'src/ovxx/expr/sliced.hpp',
              'src/ovxx/expr/diag.hpp', 'src/ovxx/expr/transposed.hpp', 'src/ovxx/expr/permuted.hpp', 'src/ovxx/expr/component.hpp', 'src/ovxx/expr/unary.hpp', 'src/ovxx/expr/binary.hpp', 'src/ovxx/expr/ternary.hpp',
              'src/ovxx/assign/copy.hpp', 'src/ovxx/assign/loop_fusion.hpp', 'src/ovxx/assign/rbo.hpp', 'src/ovxx/layout.hpp', 'src/ovxx/strided.hpp', 'src/ovxx/reductions/reductions.hpp', 'src/ovxx/reductions/reductions_idx.hpp',
              'src/ovxx/reductions/functors.hpp', 'src/ovxx/element_proxy.hpp', 'src/ovxx/view/cast.hpp', 'src/ovxx/view/view.hpp', 'src/ovxx/math/scalar.hpp', 'src/ovxx/domain_utils.hpp', 'src/vsip/domain.hpp'],
             ['view']),
    'pool': (['src/ovxx/storage/host.hpp', 'src/ovxx/storage/manager.hpp', 'src/ovxx/storage/block.hpp', 'src/ovxx/allocator.cpp', 'src/ovxx/aligned_allocator.hpp', 'src/ovxx/dda/accessor.hpp', 'src/vsip/impl/local_map.hpp'], ['pool']),
    'ser': (['src/vsip/serialization.hpp', 'src/vsip/dda.hpp', 'src/ovxx/dda/accessor.hpp', 'src/ovxx/layout.hpp', 'src/ovxx/storage/block.hpp'], ['ser']),
}
OPS = [(r'<(?=[ \w(])(?![<=])', '<='), (r'<=', '<'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\+ ?1\b', ''), (r'- ?1\b', ''), (r'>(?=[ \d])', '>='),
       (r'\+ (?=\w)', '- '), (r' - (?=\w)', ' + '), (r' \* (?=\w)', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r'\blhs_', 'rhs_'), (r'\brhs_', 'lhs_'), (r'\bdim0\b', 'dim1'), (r'\bdim1\b', 'dim0'),
       (r'\(0\)', '(1)'), (r'\(1\)', '(0)'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.first\(\)', '.last()'), (r'\.first\b', '.second'), (r'\.second\b', '.first'), (r'= ?0;', '= 1;'),
       (r'\bstd::min', 'std::max'), (r'\bstd::max', 'std::min'), (r'\bif ?\((?!.*\bconstexpr)', 'if (!'), (r'\bcontinue;', ';'), (r'\bbreak;', ';'), (r'\bsize\b', 'size'), (r'\.stride\(\)', '.size()')]
DEL = re.compile(r'^\s+[\w.\->:]+(\.|->|_|\+\+|\()[\w\s.,()\[\]>\-&*:+]*\)?;\s*$')


def mutants(root, files, rnd, count):
    out = []
    for f in files:
        lines = open(root + '/' + f).read().split('\n')
        mine = []
        for n, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(('//', '#', '*', '/*', 'template', 'typedef', 'OVXX_PRECOND', 'assert', 'class', 'struct', 'friend', 'using')) or 'include' in s or 'OVXX_TRACE' in s or '<<' in s:
                continue
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    if pat[0] in '<>' and pat[:2] not in ('<=',) and ('<' + '>' in re.sub('[^<>]', '', l.replace('->', '')) or 'template' in l or re.search(r'<[A-Za-z_:]+ ?(,|>| const)', l)):
                        continue
                    if '//' in l[:m.start()]:
                        continue
                    new = l[:m.start()] + (rep + '(' if rep == 'if (!' else rep) + l[m.end():]
                    if rep == 'if (!':
                        # negate the whole condition when it closes on this line
                        d = 1
                        for i in range(m.end(), len(l)):
                            d += {'(': 1, ')': -1}.get(l[i], 0)
                            if d == 0:
                                new = l[:m.start()] + 'if (!(' + l[m.end():i] + '))' + l[i + 1:]
                                break
                        else:
                            continue
                    if new != l:
                        mine.append((f, n, l, new))
            if DEL.match(l) and not s.startswith(('return', 'delete this')) and '=' not in s:
                mine.append((f, n, l, re.match(r'\s*', l).group(0) + ';'))
        rnd.shuffle(mine)
        out += mine[:max(4, len(mine) // 6)]
    rnd.shuffle(out)
    return out[:count]


def sh(cmd, env=None, t=600):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, ''


def main():
    groups, out, count, seed = sys.argv[1].split(','), sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    secs = os.environ.get('SECS', '12')
    jobs = os.environ.get('J', '8')
    rnd = random.Random(seed)
    tag = re.sub('[^a-z0-9]', '', groups[0])
    root = '/tmp/mm/repo' + tag
    os.makedirs('/tmp/mm', exist_ok=True)
    if not os.path.isdir(root):
        if os.environ.get('BASE'):
            sh('mkdir -p %s && cp -a %s/src %s/' % (root, os.environ['BASE'], root))
        else:
            sh('mkdir -p %s && git -C /repo archive HEAD src | tar -x -C %s' % (root, root))
    env = dict(os.environ, VERIF_REPO=root, VERIF_BUILD='/tmp/mm/build' + tag)
    for g in groups:
        if g.endswith('.py'):   # a file with LIST = [(file, text, replacement, workloads), ...]: changes of whole pieces of text
            d = {}
            exec(open(g).read(), d)
            todo = [(f, None, o, nw, w) for f, o, nw, w in d['LIST'][seed::max(1, int(os.environ.get('STEP', '1')))]][:count]
        else:
            files, wls = GROUPS[g]
            todo = [(f, n, o, nw, wls) for f, n, o, nw in mutants(root, files, rnd, count)]
        for f, n, old, new, wls in todo:
            src = open(root + '/' + f).read()
            if n is None:
                if src.count(old) < 1:
                    print('not found', f, old)
                    continue
                n = src[:src.index(old)].count('\n')
                open(root + '/' + f, 'w').write(src.replace(old, new, 1))
            else:
                lines = src.split('\n')
                assert lines[n] == old
                lines[n] = new
                open(root + '/' + f, 'w').write('\n'.join(lines))
            rec = {'group': g, 'file': f, 'line': n + 1, 'old': old.strip(), 'new': new.strip(), 'result': 'SURVIVED'}
            try:
                for w in wls:
                    w, _, bias = w.partition(':')
                    rc, o = sh('python3 /verif/check.py --build %s' % w, env)
                    if rc:
                        rec['result'] = 'no-build'
                        break
                    rc, o = sh('%s/sim --lib %s/wl_%s.so --seed %d --count 10000000 --jobs %s --time %s --det 0 --out %s/o.json --prop X %s' %
                               (env['VERIF_BUILD'], env['VERIF_BUILD'], w, 5, jobs, secs, env['VERIF_BUILD'], '--bias ' + bias if bias else ''), env)
                    try:
                        v = json.load(open(env['VERIF_BUILD'] + '/o.json'))['violations']
                    except Exception as e:
                        rec['result'] = 'sim failed: ' + o[-200:]
                        break
                    if v:
                        rec['result'] = 'killed %s %s' % (w, v[0]['class'])
                        break
            finally:
                open(root + '/' + f, 'w').write(src)
            open(out, 'a').write(json.dumps(rec) + '\n')
    sh('rm -rf %s %s' % (root, env['VERIF_BUILD']))


main()
