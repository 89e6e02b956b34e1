"""Workloads, the library sources they link, and the properties they decide."""
import glob, os
REPO = os.environ.get('VERIF_REPO', '/repo')


def lib_sources():
    """The library sources of the current tree that the configuration enables."""
    out = []
    for pat in ('vsip/*.cpp', 'ovxx/*.cpp', 'ovxx/signal/*.cpp', 'ovxx/mpi/*.cpp', 'ovxx/parallel/*.cpp'):
        out += [os.path.relpath(p, REPO + '/src') for p in sorted(glob.glob(REPO + '/src/' + pat))
                if not p.endswith('huge_page_allocator.cpp')]
    return out + ['ovxx/fftw/fft.cpp']


LIBSETS = {'default': lib_sources()}

PAIR_PARTS = []
for t, d, kinds in (('float', 1, 3), ('float', 2, 8), ('float', 3, 4), ('vsip::complex<float>', 1, 3), ('vsip::complex<float>', 2, 8), ('int', 1, 3)):
    for k in range(kinds):
        nk = {1: 3, 2: 8, 3: 4}[d]
        rng = [(0, nk - 1)] if d == 1 else [(lo, min(lo + 3, nk - 1)) for lo in range(0, nk, 4)]
        for lo, hi in rng:
            PAIR_PARTS.append(('pairs.cpp', ['-DPT=' + t, '-DPD=%d' % d, '-DPK=%d' % k, '-DPKS_LO=%d' % lo, '-DPKS_HI=%d' % hi]))

WORKLOADS = {
    'dist': {
        'cxx': 'clang++',
        'parts': [('dist.cpp', [])] + PAIR_PARTS,
        'flags': ['-O0', '-g0'], 'libflags': ['-O1'],
        'real': 'vsip/map.hpp, vsip/impl/parallel.hpp, ovxx/parallel/* (assignment algorithms, copy chains, distributed blocks), '
                'ovxx/mpi/* (communicator, groups, datatypes, chain builder, service), ovxx/library.cpp: compiled unmodified from the current tree',
    },
}

REAL_PAR = WORKLOADS['dist']['real']
for m in (4, 5, 7):
    WORKLOADS['elem%d' % m] = {'parts': [('elem.cpp', ['-DWL_MODE=%d' % m, '-DWL_PART=%d' % p]) for p in range(7)], 'cxx': 'clang++',
                               'flags': ['-O0', '-g0'], 'libflags': ['-O1'], 'real': REAL_PAR}

LIVE = ['deadlock', 'no-progress', 'hang', 'collective-mismatch', 'assert', 'abort', 'signal', 'terminate', 'uncaught-exception']
CONSERVE = ['message-leak', 'request-leak', 'type-leak', 'send-buffer-modified', 'mpi-truncate', 'mpi-type-mismatch', 'mpi-usage', 'collective-mismatch',
            'mpi-not-finalized', 'mpi-abort', 'use-after-free', 'heap-corruption', 'assert', 'signal', 'terminate']
LEAKS = ['message-leak', 'request-leak', 'type-leak', 'send-buffer-modified']

PROPS = {
    'C01': {'runs': [{'workload': 'dist', 'not': LEAKS}], 'quick': {'time': 60}, 'thorough': {'time': 1800}},
    'C04': {'runs': [{'workload': 'elem4'}], 'quick': {'time': 40}, 'thorough': {'time': 1200}},
    'C05': {'runs': [{'workload': 'elem5'}], 'quick': {'time': 40}, 'thorough': {'time': 1200}},
    'C07': {'runs': [{'workload': 'elem7'}], 'quick': {'time': 40}, 'thorough': {'time': 1200}},
}

# expressions: combinations of map kinds (destination, operands)
EXPR = []
for t, d, a, b in (('float', 1, '0,1,2', '1,0,0'), ('float', 1, '2,1,0', '0,0,1'), ('vsip::complex<float>', 1, '0,0,2', '1,1,0'), ('float', 1, '2,2,1', '0,2,1'),
                   ('int', 1, '0,2,0', None), ('vsip::complex<float>', 2, '0,7,1', '5,0,6'),
                   ('float', 2, '0,7,4', None), ('float', 2, '7,0,5', None), ('float', 2, '1,6,0', None), ('float', 2, '5,1,7', None), ('float', 2, '6,5,5', None),
                   ('float', 2, '4,2,7', None), ('float', 2, '2,0,3', None), ('float', 2, '3,7,1', None), ('float', 2, '0,0,6', None), ('float', 2, '6,7,0', None),
                   ('float', 3, '0,2,3', None), ('float', 3, '3,1,0', None)):
    EXPR.append(('expr.cpp', ['-DWL_D=%d' % d, '-DWL_T=' + t, '-DWL_A=' + a] + (['-DWL_B=' + b] if b else [])))
WORKLOADS['expr'] = {'cxx': 'clang++', 'parts': [('expr.cpp', ['-DWL_MAIN'])] + EXPR, 'flags': ['-O0', '-g0'], 'libflags': ['-O1'], 'real': REAL_PAR,
                     'probes': ['transposes', 'row operations', 'subdomain expressions', 'in-place updates']}
PROPS['C06'] = {'runs': [{'workload': 'expr'}], 'quick': {'time': 40}, 'thorough': {'time': 1200}}

# communicators, groups and messages
COMM_PAIRS = [p for p in PAIR_PARTS if '-DPT=float' in p[1] and ('-DPD=1' in p[1] or ('-DPD=2' in p[1] and p[1][2] in ('-DPK=0', '-DPK=5', '-DPK=7')))]
WORKLOADS['comm'] = {'cxx': 'clang++', 'parts': [('comm.cpp', [])] + COMM_PAIRS, 'flags': ['-O0', '-g0'], 'libflags': ['-O1'], 'real': REAL_PAR,
                     'probes': ['groups run different operations at the same time', 'processors outside the current group', 'messages pending across other operations',
                                'distributed data within a group']}
PROPS['C08'] = {'runs': [{'workload': 'comm'}], 'quick': {'time': 40}, 'thorough': {'time': 1200}}

# threads of one processor
WORKLOADS['thr'] = {'parts': [('thr.cpp', [])], 'cxx': 'clang++', 'flags': ['-O1', '-g0', '-fsanitize=thread'], 'real': REAL_PAR,
                    'probes': ['copies of shared views', 'parts of shared vectors written', 'vectors handed over', 'vectors taken over', 'copies of filters',
                               'transforms', 'shared vectors whose last user is another thread']}
PROPS['C09'] = {'runs': [{'workload': 'thr'}], 'quick': {'time': 40}, 'thorough': {'time': 1200},
                'technique': 'deterministic simulation: seeded preemption at memory accesses of the real library (compiler-instrumented), with happens-before checking of every access and a serial reference model'}

# lifetime of the library
WORKLOADS['life'] = {'parts': [('life.cpp', [])], 'cxx': 'clang++', 'flags': ['-O1', '-g0', '-fsanitize=thread'], 'real': REAL_PAR,
                     'probes': ['nested library objects', 'library started again', 'library objects ended out of order', 'threads start and end the library by themselves',
                                'start failed for lack of memory', 'default communicator replaced', 'threads beside the main thread']}
PROPS['C10'] = {'runs': [{'workload': 'life'}], 'quick': {'time': 40}, 'thorough': {'time': 1200},
                'technique': 'deterministic simulation: seeded search over histories of library lifetimes, preemptions and allocation failures, with invariants after every step'}

# progress and conservation over every kind of data-parallel program
MIX = [('dist', 3), ('expr', 2), ('comm', 1), ('elem4', 1), ('elem5', 1)]
PROPS['C02'] = {'runs': [{'workload': w, 'classes': LIVE, 'bias': 'unbuffered', 'share': n} for w, n in MIX], 'quick': {'time': 80}, 'thorough': {'time': 2400}}
PROPS['C03'] = {'runs': [{'workload': w, 'classes': CONSERVE, 'bias': 'unbuffered', 'share': n} for w, n in MIX], 'quick': {'time': 80}, 'thorough': {'time': 2400}}

# failing communication
PROPS['C11'] = {'runs': [{'workload': w, 'bias': 'faults', 'share': n} for w, n in (('dist', 2), ('expr', 2), ('comm', 2), ('elem4', 1), ('elem5', 1), ('elem7', 1))],
                'quick': {'time': 80}, 'thorough': {'time': 2400},
                'technique': 'deterministic simulation with fault injection: seeded failures of communication calls of the real library at arbitrary points, judged against what each processor reports and a serial reference model'}

# memory shared between the program and blocks
WORKLOADS['user'] = {'parts': [('user.cpp', [])], 'cxx': 'clang++', 'flags': ['-O0', '-g0'], 'libflags': ['-O1'], 'real': REAL_PAR,
                     'probes': ['format of bound memory changed', 'distributed objects', 'processors that hold nothing bound memory', 'allocation failures handled by the program',
                                'rebound to another size', 'access to copies', 'access to whole distributed objects', 'access to slices, transposes and components']}
PROPS['C12'] = {'runs': [{'workload': 'user'}], 'quick': {'time': 45}, 'thorough': {'time': 1200},
                'technique': 'deterministic simulation with fault injection: seeded histories of bindings, admissions and direct accesses on one to three simulated processors with failing allocations, against a reference model of block and memory'}

# memory pools
WORKLOADS['pool'] = {'parts': [('pool.cpp', [])], 'cxx': 'clang++', 'flags': ['-O0', '-g0'], 'libflags': ['-O1'],
                     'real': 'ovxx/allocator.*, ovxx/aligned_allocator.hpp, ovxx/storage/*.hpp, vsip/dense.hpp, ovxx/strided.hpp, ovxx/dda/*, the views, maps, signal and solver objects that take memory, and the parallel support: compiled unmodified from the current tree; the pools are the workload\'s (they check every piece taken and given back, and run dry on demand)',
                     'probes': ['pools that ran dry', 'objects ended under another default pool', 'pools closed after use', 'objects made by another thread', 'library started again',
                                'pools that ran dry half way through making an object', 'memory shared by several views']}
PROPS['C18'] = {'runs': [{'workload': 'pool'}], 'quick': {'time': 40}, 'thorough': {'time': 1200},
                'technique': 'deterministic simulation with fault injection: seeded histories of objects, default pools and threads with pools that run dry at any allocation, against a model of what is out of each pool'}

# timers
WORKLOADS['tim'] = {'parts': [('tim.cpp', [])], 'cxx': 'clang++', 'flags': ['-O1', '-g0', '-fsanitize=thread'],
                    'real': 'ovxx/timer.hpp, ovxx/chrono.hpp, ovxx/chrono.cpp and the library around them: compiled unmodified from the current tree (the clock is simulated)',
                    'probes': ['spans of more than a second', 'spans of an hour and more', 'copies of running timers', 'timers of several threads', 'library started again', 'points of time compared']}
PROPS['C19'] = {'runs': [{'workload': 'tim'}], 'quick': {'time': 20}, 'thorough': {'time': 600},
                'technique': 'deterministic simulation with fault injection: seeded histories of timers on a simulated clock with suspended processes, jumps of the wall clock, preempted threads and unreadable machine descriptions, against the simulated true time'}

# signal processing objects
WORKLOADS['sig'] = {'parts': [('sig.cpp', ['-DSIG_PART=%d' % p]) for p in range(8)], 'cxx': 'clang++', 'flags': ['-O0', '-g0'], 'libflags': ['-O1'],
                    'real': 'vsip/impl/signal/*.hpp, ovxx/signal/*.hpp, ovxx/signal/fft/*, ovxx/fftw/*, vsip/random.hpp and the views, blocks and data access they use: compiled unmodified from the current tree (FFTW is the installed library)',
                    'probes': ['FIR filters', 'decimating FIR filters', 'copies', 'assignments', 'resets', 'allocation failures handled by the program', 'histograms', 'IIR filters', 'random generators',
                               'convolutions', 'transforms', 'data with strides']}
PROPS['C13'] = {'runs': [{'workload': 'sig'}], 'quick': {'time': 40}, 'thorough': {'time': 1200},
                'technique': 'deterministic simulation with fault injection: seeded histories of frames, resets, copies and assignments of signal processing objects with failing allocations, against a reference model that keeps the whole stream'}
# signal processing of distributed data
WORKLOADS['dsp'] = {'parts': [('dsp.cpp', ['-DDSP_PART=0'])] + [('dsp.cpp', ['-DDSP_PART=1', '-DDSP_KIND=%d' % k]) for k in (0, 1, 2, 5, 6, 7)],
                    'cxx': 'clang++', 'flags': ['-O0', '-g0'], 'libflags': ['-O1'],
                    'real': 'ovxx/signal/fft.hpp, ovxx/signal/fft/*, ovxx/expr/{vmmul,unary}.hpp, vsip/impl/vmmul.hpp, ovxx/parallel/*, ovxx/mpi/* and the views and blocks: compiled unmodified from the current tree (FFTW is the installed library)',
                    'probes': ['transforms in place', 'transforms out of place', 'transforms by value', 'transforms of transforms', 'products with replicated vectors', 'products with distributed vectors',
                               'operations on the rows a processor holds', 'transforms where a processor holds nothing', 'real transforms', 'products with transforms', 'cyclic distributions']}
PROPS['C14'] = {'runs': [{'workload': 'dsp'}], 'quick': {'time': 40}, 'thorough': {'time': 1200},
                'technique': 'deterministic simulation: seeded search over programs, distributions and message schedules on one to five simulated processors, against the serial result after every operation'}

# decompositions and solvers
WORKLOADS['solve'] = {'cxx': 'clang++', 'parts': [('solve.cpp', ['-DSLV_PART=0'])] + [('solve.cpp', ['-DSLV_PART=1', '-DSLV_T=%d' % t]) for t in range(4)],
                      'flags': ['-O0', '-g0'], 'libflags': ['-O1'],
                      'real': 'vsip/impl/solver/*.hpp, ovxx/lapack/*.hpp, vsip/impl/matvec*.hpp, ovxx/aligned_array.hpp, ovxx/parallel/* and the views and blocks: compiled unmodified from the current tree; LAPACK and BLAS are the installed OpenBLAS, with one thread',
                      'probes': ['LU', 'Cholesky', 'QR', 'singular values', 'copies', 'assignments', 'allocation failures handled by the program', 'distributed data', 'systems that must be refused', 'decomposed again',
                                 'Toeplitz systems', 'least squares', 'products', 'vectors']}
PROPS['C15'] = {'runs': [{'workload': 'solve'}], 'quick': {'time': 40}, 'thorough': {'time': 1200},
                'technique': 'deterministic simulation with fault injection: seeded histories of solver objects and products over operands of every storage shape on one to four simulated processors with failing allocations, against a reference model of every matrix'}

# views of local data
WORKLOADS['view'] = {'cxx': 'clang++', 'parts': [('view.cpp', ['-DVW_PART=0'])] + [('view.cpp', ['-DVW_PART=1', '-DVW_T=%d' % t, '-DVW_D=%d' % d]) for t in range(3) for d in (2, 1, 3)]
                     + [('view.cpp', ['-DVW_PART=2', '-DVW_T=%d' % t]) for t in range(3)],
                     'flags': ['-O0', '-g0'], 'libflags': ['-O1'],
                     'real': 'vsip/{vector,matrix,tensor,selgen,complex}.hpp, ovxx/expr/*, ovxx/assign/*, ovxx/view/*, ovxx/reductions/*, ovxx/strided.hpp, ovxx/layout.hpp, ovxx/storage/*: compiled unmodified from the current tree',
                     'probes': ['copies', 'expressions', 'in-place operations', 'transposition in place', 'views held', 'allocation failures handled by the program', 'reductions', 'references to elements', 'selection functions',
                                'element-wise functions', 'views that outlived their source', 'every form of parts of views and of constant views', 'reductions of tensors stored in other orders']}
PROPS['C16'] = {'runs': [{'workload': 'view'}], 'quick': {'time': 40}, 'thorough': {'time': 1200},
                'technique': 'deterministic simulation with fault injection: seeded histories over many views of the same local memory with failing allocations, against a reference model of flat memory and lists of elements'}

# serialization
WORKLOADS['ser'] = {'cxx': 'clang++', 'parts': [('ser.cpp', ['-DSER_PART=0'])] + [('ser.cpp', ['-DSER_PART=1', '-DSER_T=%d' % t]) for t in range(8)],
                    'flags': ['-O0', '-g0'], 'libflags': ['-O1'],
                    'real': 'vsip/serialization.hpp, vsip/dda.hpp, ovxx/dda/*, ovxx/storage/*, ovxx/layout.hpp, ovxx/strided.hpp, ovxx/mpi/* and the views and blocks: compiled unmodified from the current tree',
                    'probes': ['data access by copy', 'parts', 'transposed views', 'memory of the program described', 'views that cannot be sent as they are', 'data sent to another processor', 'split format', 'interleaved format',
                               'allocation failures handled by the program', 'real and imaginary parts', 'tensors', 'bound again to other memory']}
PROPS['C17'] = {'runs': [{'workload': 'ser'}], 'quick': {'time': 40}, 'thorough': {'time': 1200},
                'technique': 'deterministic simulation with fault injection: seeded histories in which one to four simulated processors pass arrays on to each other as bytes and descriptions, with failing allocations, against a reference model of every array'}
