"""The text of the properties (source of properties.jsonl)."""


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': a}


PROPERTIES = [
    P('C01', 'Assignment between distributed objects moves every element to where it belongs',
      'After a program assigns one distributed vector, matrix or tensor (or a subdomain of one) to another, every element of the destination has the value '
      'a serial program would have computed, on every processor that holds it, and every other element is unchanged. This holds for every combination of '
      'block, block-cyclic, whole and replicated distributions, number of processors, processor set, layout and element type, including objects of which some '
      'processors hold nothing.',
      ['schedules', 'inputs', 'programs', 'configurations'],
      'All programs of creations, fills and whole or strided-subdomain assignments over up to four 1-, 2- and 3-dimensional objects on 1 to 6 processors, all '
      'pairs of map kinds, under every relative speed of the processors and every legal MPI buffering and completion order.',
      'The tests of the repository run each parallel test as one process (no second processor exists), with a handful of maps; the placement of elements and the '
      'matching of messages depend on processor count, map pairs and timing.',
      ['src/ovxx/parallel/assign.hpp', 'src/ovxx/parallel/assign_chain.hpp', 'src/ovxx/parallel/assign_block_vector.hpp', 'src/ovxx/parallel/copy_chain.cpp',
       'src/vsip/map.hpp', 'src/vsip/dist.hpp', 'src/ovxx/mpi/chain_builder.hpp'],
      [('send/receive/copy lists built from intersections of owned patches', 'src/ovxx/parallel/assign_chain.hpp'),
       ('per-intersection transfer of block-distributed vectors', 'src/ovxx/parallel/assign_block_vector.hpp'),
       ('ownership arithmetic of maps and distributions', 'src/vsip/map.hpp')],
      observe=['local part of every object on every processor, at arbitrary points and at the end']),
    P('C02', 'Data-parallel programs always make progress',
      'If all processors run the same data-parallel program, the program terminates on every processor after a bounded number of steps, whatever their relative '
      'speeds and whether the message layer buffers messages or makes senders wait for receivers as far as the MPI standard allows. No operation on distributed data waits for a message or '
      'collective that no other processor will issue.',
      ['schedules', 'programs', 'configurations'],
      'All programs of C01, C04, C05 and C06, with every message needing its receiver (rendezvous), buffered, or a mixture; any processor may be arbitrarily slow.',
      'Deadlocks need at least two processors, particular buffering and timing; the existing tests run one process and real MPI buffers small messages.',
      ['src/ovxx/parallel/assign_chain.hpp', 'src/ovxx/parallel/assign_block_vector.hpp', 'src/ovxx/mpi/communicator.hpp', 'src/ovxx/parallel/distributed_block.hpp'],
      [('non-blocking sends issued before blocking receives', 'src/ovxx/parallel/assign_chain.hpp'),
       ('every processor takes part in broadcasts and reductions', 'src/ovxx/parallel/distributed_block.hpp')],
      observe=['completion of every simulated processor', 'wait-for state of the simulated network']),
    P('C03', 'Every message is received exactly once, completely, and nothing is left behind',
      'Every message an operation on distributed data sends is received exactly once, by the operation and processor it was meant for, with matching size and type, and '
      'memory handed to a pending send is not modified before the send completes. When the program ends no message, pending request or message datatype of a finished operation is left over.',
      ['schedules', 'histories', 'programs'],
      'All histories of operations of the data-parallel programs; every legal timing of message delivery and of completion of sends.',
      'With one process no message exists; leaked or crossed messages only disturb a later operation, and premature reuse of a send buffer is invisible when messages are buffered.',
      ['src/ovxx/parallel/assign_chain.hpp', 'src/ovxx/parallel/assign_block_vector.hpp', 'src/ovxx/mpi/chain_builder.hpp', 'src/ovxx/mpi/communicator.hpp'],
      [('requests collected and waited for before an assignment returns', 'src/ovxx/parallel/assign_chain.hpp'),
       ('datatypes freed with the chain builder', 'src/ovxx/mpi/chain_builder.hpp')],
      observe=['simulated message queues, requests, datatypes and send buffers']),
    P('C04', 'Every processor reads the same element value and one write sets every copy',
      'Reading one element of a distributed or replicated vector, matrix or tensor, directly or through a subview, row or transpose, returns the value a serial program '
      'would have at that index, on every processor, whether or not that processor holds the element. Writing one element changes exactly that element, wherever it is held.',
      ['schedules', 'inputs', 'programs', 'configurations'],
      'All programs of get and put operations on objects of 1 to 3 dimensions and every map kind on 1 to 6 processors, under every relative speed of the processors and every message timing.',
      'With one process every element is local; the broadcast from the owner, the choice of the owner and the processors that hold nothing only exist with several.',
      ['src/ovxx/parallel/distributed_block.hpp', 'src/ovxx/parallel/subset_map.hpp', 'src/vsip/map.hpp', 'src/vsip/impl/replicated_map.hpp', 'src/ovxx/mpi/communicator.hpp'],
      [('owner of an element broadcasts it', 'src/ovxx/parallel/distributed_block.hpp'),
       ('owner and local index of an element', 'src/vsip/map.hpp')],
      observe=['value returned by get() on every processor', 'local part of the object on every processor']),
    P('C05', 'Reductions of distributed data give every processor the serial result',
      'A sum, mean, sum or mean of squares, minimum, maximum (with its index), or logical reduction of a distributed or replicated view, of a subview of it, or of a sum of such views returns on every '
      'processor the value (within rounding of small integers) and a correct index that a serial program gets, for every number of elements, and leaves the operands unchanged.',
      ['schedules', 'inputs', 'programs', 'configurations'],
      'All reductions over objects of every map kind on 1 to 6 processors, real, complex and integer elements, sizes below and above the block size of large summations, every schedule.',
      'The tests reduce local data, or distributed data in one process; partial ownership, empty processors and replicated operands never occur there.',
      ['src/ovxx/reductions/reductions.hpp', 'src/ovxx/reductions/reductions_idx.hpp', 'src/ovxx/reductions/functors.hpp', 'src/ovxx/parallel/distributed_block.hpp'],
      [('reduction over the global index space', 'src/ovxx/reductions/reductions.hpp')],
      observe=['value and index returned on every processor']),
    P('C06', 'Expressions of distributed data give the serial program\'s result',
      'Assigning an expression of vectors, matrices or tensors (element-wise arithmetic and functions with their bound operands, in-place updates, ramps, fills, rows, columns, transposes, slices and strided '
      'subdomains) to a distributed, replicated or local object gives every element the value a serial program computes, wherever the operands and the destination are held; '
      'operands keep their values.',
      ['schedules', 'inputs', 'programs', 'configurations'],
      'Sequences of assignments of expressions over every combination of block, cyclic, replicated, dense and strided objects of 1 to 3 dimensions on 1 to 6 processors, with every message timing.',
      'An expression whose operands are not where the destination is needs per-operand redistribution into temporaries, projected maps and stateful functors rebuilt per processor; with one process none of it runs.',
      ['src/ovxx/parallel/expr.hpp', 'src/ovxx/expr/scalar.hpp', 'src/ovxx/expr/unary.hpp', 'src/ovxx/expr/binary.hpp', 'src/ovxx/parallel/subset_map.hpp', 'src/ovxx/parallel/map_utils.hpp',
       'src/ovxx/expr/subset.hpp', 'src/ovxx/expr/sliced.hpp', 'src/ovxx/expr/transposed.hpp'],
      [('operands redistributed to the map of the destination', 'src/ovxx/parallel/expr.hpp'),
       ('maps of subsets of distributed blocks', 'src/ovxx/parallel/subset_map.hpp')],
      observe=['local part of every object on every processor after every assignment']),
    P('C07', 'Global and local index queries agree with where data really is',
      'For every map, processor and extent, the number of subblocks and patches, the subblock a processor holds, the processors that hold a subblock, and the translations between global index, '
      'subblock, patch and local index are mutually inverse, assign every element to exactly one place of one subblock, follow the distribution the map was made with (block sizes differ by at most one, '
      'cyclic blocks rotate), are the same on every processor, and agree with the storage each processor really has.',
      ['inputs', 'configurations', 'schedules'],
      'All map kinds and parameters, extents, processor sets on 1 to 6 processors, including processors outside the set and subblocks that are empty.',
      'The tests check a few maps in one process, where queries about other processors and empty subblocks cannot be compared with what those processors hold.',
      ['src/vsip/map.hpp', 'src/vsip/dist.hpp', 'src/vsip/impl/parallel.hpp', 'src/vsip/impl/replicated_map.hpp', 'src/ovxx/parallel/support.hpp', 'src/ovxx/parallel/util.hpp'],
      [('distribution arithmetic', 'src/vsip/dist.hpp'), ('map queries', 'src/vsip/map.hpp'), ('view queries', 'src/vsip/impl/parallel.hpp')],
      observe=['every query function, compared across processors', 'size of the local part']),
    P('C08', 'Groups of processors communicate correctly and independently',
      'Communicators made by splitting, duplicating or selecting groups have exactly the members, order and ranks asked for; point-to-point messages (plain, buffered, strided chains), broadcasts, reductions and barriers '
      'within one deliver exactly what was sent to exactly its members; groups running different operations at the same time never disturb each other; with a group as the default communicator, '
      'processor queries and distributed data behave as in a program of that size. Nothing is left behind.',
      ['schedules', 'programs', 'histories'],
      'All sequences of communicator, group, message, collective and distributed-data operations, with up to four nested communicators and diverging groups, on 1 to 6 processors, under every message timing and buffering.',
      'The tests call broadcast and allreduce in one process; groups, splits, chains, excluded processors and cross-talk between groups need several processors at the same time.',
      ['src/ovxx/mpi/communicator.hpp', 'src/ovxx/mpi/communicator.cpp', 'src/ovxx/mpi/group.hpp', 'src/ovxx/mpi/chain_builder.hpp', 'src/ovxx/mpi/datatype.hpp', 'src/ovxx/mpi/service.cpp', 'src/vsip/impl/parallel.hpp'],
      [('communicators and their members', 'src/ovxx/mpi/communicator.cpp'),
       ('set operations and rank translation of groups', 'src/ovxx/mpi/group.hpp'),
       ('default communicator and processor queries', 'src/ovxx/mpi/service.cpp')],
      observe=['members, ranks and contents of every message, broadcast and reduction', 'live communicators, groups, datatypes and messages']),
    P('C09', 'Threads may use the library and shared data at the same time',
      'Several threads of a processor, each with its own library object, may create, copy, hand over, drop, read and write views at the same time, sharing handles of the same blocks as long as no element is written by one '
      'thread while another uses it, and create and use filters, transforms and random generators of their own. Every value read is the value written, memory is released exactly once after the last handle is gone, '
      'process-wide state is set up and torn down once, no two threads touch the same memory without synchronisation, and no thread waits forever.',
      ['schedules', 'histories', 'programs'],
      'All programs of 2 to 4 threads over shared, handed-over and private objects, with preemption possible at every memory access.',
      'No test starts a thread. A race needs two threads at particular instructions at the same time.',
      ['src/ovxx/refcounted.hpp', 'src/ovxx/library.cpp', 'src/ovxx/allocator.cpp', 'src/ovxx/storage/block.hpp', 'src/ovxx/fftw/fft.cpp', 'src/ovxx/fftw/fftw.cpp', 'src/vsip/dense.hpp',
       'src/ovxx/mpi/service.cpp'],
      [('atomic reference counts', 'src/ovxx/refcounted.hpp'), ('per-thread and process-wide initialisation', 'src/ovxx/library.cpp'), ('default allocator', 'src/ovxx/allocator.cpp'),
       ('planner lock', 'src/ovxx/fftw/fft.cpp')],
      observe=['every value read', 'live allocations after the last handle is gone', 'ordering of every pair of conflicting memory accesses']),
    P('C10', 'The library starts and ends exactly once, whoever owns it and however often',
      'Library objects may be created and destroyed in any number and order, by one thread or several, with MPI initialised by the application or by the library: the library works from the first creation to the last destruction, '
      'MPI is initialised at most once and finalised exactly once by whoever initialised it, buffered sends work throughout, the application keeps its arguments and its use of MPI, after the last destruction nothing is left behind '
      '(memory, communicators, message buffer) and, where the application owns MPI, the library can be started again. A start that fails for lack of memory reports it, leaves the library as it was, and can be repeated.',
      ['histories', 'schedules', 'faults'],
      'All histories of up to 14 library lifetimes, uses and thread teams on 1 to 3 processors, with preemption at every memory access, allocation failures during start, and any machine description the operating system may give.',
      'The tests create one library object and end with the process.',
      ['src/ovxx/library.cpp', 'src/ovxx/mpi/service.cpp', 'src/ovxx/allocator.cpp', 'src/vsip/initfin.hpp', 'src/ovxx/mpi/communicator.cpp', 'src/ovxx/chrono.cpp'],
      [('global and per-thread counts', 'src/ovxx/library.cpp'), ('process-wide MPI state and ownership', 'src/ovxx/mpi/service.cpp'), ('default allocator per thread', 'src/ovxx/allocator.cpp')],
      observe=['MPI initialisations, finalisations and attached buffers after every step', 'queries and data movement while the library is alive', 'live memory and communicators after it ended']),
    P('C11', 'A failed communication call is reported, never a silent success',
      'If a communication call fails on a processor while the library moves data, reads or writes elements, reduces, evaluates expressions or manages groups, the operation does not return on that processor as if it had '
      'succeeded: it throws, or the program ends with a diagnostic. Nothing is corrupted by the failure: no processor completes an operation with a wrong value, damages memory, or crashes, and operations that had completed before '
      'stay completed.',
      ['faults', 'schedules', 'programs'],
      'All programs of C01 and C04 to C08 with a failure of any MPI call the library makes (transfers, collectives, waits, creation of datatypes, communicators and groups) at any point of the run on any processor.',
      'A working MPI never fails in a test; error paths after a partially completed exchange are not reached by any input.',
      ['src/ovxx/mpi/exception.hpp', 'src/ovxx/mpi/communicator.hpp', 'src/ovxx/mpi/communicator.cpp', 'src/ovxx/mpi/chain_builder.hpp', 'src/ovxx/mpi/datatype.hpp', 'src/ovxx/mpi/group.hpp',
       'src/ovxx/parallel/assign_chain.hpp', 'src/ovxx/parallel/assign_block_vector.hpp', 'src/ovxx/parallel/distributed_block.hpp'],
      [('results of MPI calls checked and turned into exceptions', 'src/ovxx/mpi/exception.hpp'), ('errors returned, not fatal', 'src/ovxx/mpi/service.cpp'),
       ('exceptions leave the assignment', 'src/ovxx/parallel/assign_chain.hpp')],
      observe=['outcome of the operation each failing call belongs to', 'values on all processors until the program ends']),
    P('C12', 'Memory shared with blocks always has the values and owner the calls imply',
      'A block bound to memory of the program reads and writes that memory only between admit and release; admit(true) makes the block have the values the memory has, release(true) makes the memory have the values '
      'the block has, whatever the formats (array, interleaved, split) of the memory and of the block, across any history of binding, rebinding to other memory, another format or another size, admitting, releasing, '
      'computing and accessing, of local and of distributed blocks, whose processors each bind the memory for their own part. Direct access to the data of a block or of part of one presents the block\'s values in the requested order, '
      'packing, alignment and format, and what is written through it is in the block when the access ends, and only there. The queries report the memory, the format and the state those calls imply. '
      'If memory runs out, the call throws, nothing is lost or leaked, and the block can be bound again.',
      ['inputs', 'programs', 'faults', 'schedules'],
      'All histories of 4 to 16 operations over up to four blocks (1 to 3 dimensions, real and complex, array and split storage, row- and column-major, local, block, cyclic and replicated maps) on 1 to 3 processors, with and without user storage, '
      'direct access in every mode with compile-time and run-time layouts, failing allocations at any point.',
      'What a block and the memory of the program hold depends on the whole history of admits, releases and bindings in up to three formats; the tests bind, admit and release once with memory that never runs out.',
      ['src/ovxx/storage/manager.hpp', 'src/ovxx/storage/user.hpp', 'src/ovxx/storage/host.hpp', 'src/ovxx/storage/block.hpp', 'src/ovxx/dda/accessor.hpp', 'src/ovxx/dda/runtime.hpp', 'src/ovxx/dda/persistent.hpp',
       'src/ovxx/parallel/distributed_block.hpp', 'src/vsip/dense.hpp', 'src/ovxx/layout.hpp'],
      [('admit and release copy unless the formats agree', 'src/ovxx/storage/manager.hpp'), ('formats of the memory of the program', 'src/ovxx/storage/user.hpp'),
       ('choice between direct access and a copy', 'src/ovxx/dda/accessor.hpp'), ('each processor binds its own part', 'src/ovxx/parallel/distributed_block.hpp')],
      observe=['every element of every block and every position of the memory of the program after every operation', 'answers of admitted, user_storage, find and release', 'live memory at the end']),
    P('C13', 'Signal processing objects act on the whole stream, copies independently',
      'Filters (FIR with and without decimation, IIR), convolutions, correlations, Fourier transforms, histograms and random generators give, over any history of frames, resets, copies, assignments and destructions, what their definition '
      'gives for the whole stream the object has seen since its creation or last reset; an object copied from another continues that stream on its own, whatever happens to the other; an object that saves no state starts anew '
      'with every frame; a series modulated frame by frame continues its phase. Exchanges of halves and quadrants and the windows a program multiplies its frames by have the values of their definition for every size. '
      'Views given as input keep their values, and only the output view is written, wherever and with whatever strides or format the data lie. If memory runs out while an object is made or copied, this is '
      'reported as such, the program can carry on with all other objects unharmed, and nothing is leaked.',
      ['histories', 'inputs', 'faults'],
      'All histories of up to 40 steps over up to six objects of 34 kinds (real and complex, all symmetries, support regions and decimations, by value and by reference), data in vectors, parts of vectors and matrices, slices, components and '
      'user storage, with failing allocations at any point of the creation or copy of an object.',
      'What a filter returns depends on every earlier frame, on where the frame boundaries fall and on what was copied and reset in between; the tests filter two or three frames of one size with memory that never runs out.',
      ['src/ovxx/signal/fir.hpp', 'src/ovxx/signal/conv.hpp', 'src/ovxx/signal/corr.hpp', 'src/ovxx/signal/fft.hpp', 'src/ovxx/signal/fft/workspace.hpp', 'src/ovxx/fftw/fft.cpp', 'src/vsip/impl/signal/fir.hpp', 'src/vsip/impl/signal/iir.hpp',
       'src/vsip/impl/signal/freqswap.hpp', 'src/ovxx/signal/window.cpp', 'src/vsip/impl/matvec.hpp', 'src/vsip/impl/signal/histo.hpp', 'src/vsip/impl/signal/conv.hpp', 'src/vsip/impl/signal/corr.hpp', 'src/vsip/random.hpp', 'src/vsip/impl/vector.hpp'],
      [('state saved between frames, decimation phase', 'src/ovxx/signal/fir.hpp'), ('cascaded sections and their state', 'src/vsip/impl/signal/iir.hpp'), ('accumulation and bins', 'src/vsip/impl/signal/histo.hpp'),
       ('strides, formats and temporary buffers', 'src/ovxx/signal/fft/workspace.hpp'), ('sequence of numbers per generator', 'src/vsip/random.hpp')],
      observe=['every output element of every frame', 'inputs and the memory around outputs', 'outcome of creations and copies that ran out of memory', 'live memory at the end']),
    P('C14', 'Signal processing of distributed data gives the serial result',
      'Transforms of all rows or of all columns of a distributed matrix (in place, out of place, by value, nested, inside expressions), products of its rows or columns with a replicated or correspondingly distributed vector, '
      'filters, convolutions and transforms of the rows or columns a processor holds, and assignments that redistribute the data between those steps, give the values the same program gives on one processor, '
      'for any number of processors, including processors that hold nothing, any distribution the operation admits, and any timing of the processors and the messages.',
      ['schedules', 'programs', 'inputs'],
      'All sequences of up to 12 such operations on distributed complex and real matrices (block, cyclic, replicated, local and row- or column-wise maps, extents down to fewer rows than processors) on 1 to 5 processors under every message timing and buffering.',
      'Which processor transforms what depends on the map and on the number of processors; the tests of distributed transforms run in one process, where every map holds everything.',
      ['src/ovxx/signal/fft.hpp', 'src/ovxx/signal/fft/workspace.hpp', 'src/ovxx/signal/fft/functor.hpp', 'src/ovxx/expr/vmmul.hpp', 'src/ovxx/expr/unary.hpp', 'src/vsip/impl/vmmul.hpp', 'src/vsip/impl/signal/fft.hpp', 'src/ovxx/parallel/expr.hpp'],
      [('transform of the part a processor holds', 'src/ovxx/signal/fft.hpp'), ('transforms in expressions', 'src/ovxx/signal/fft/functor.hpp'), ('vector-matrix products of distributed operands', 'src/ovxx/expr/vmmul.hpp')],
      observe=['every element of every distributed object after every operation, on every processor', 'deadlocks, leaked messages and failed assertions']),
    P('C15', 'Linear algebra objects keep what they decomposed; results equal the serial ones',
      'LU, Cholesky, QR and singular value objects answer every later solve, product or query from the matrix they last decomposed, over any history of decompositions, solves, copies, assignments and destructions; '
      'a copy or an assigned object keeps its own decomposition whatever happens to the other, and a decomposition that is refused (singular, not positive definite) says so. These objects, the least-squares, covariance and '
      'Toeplitz solvers and the matrix, vector and Kronecker products give the value their definition gives, wherever the operands lie: dense, row- or column-major, transposed, parts with any positive or negative stride, and, where the operation '
      'admits it, distributed over any number of processors. Operands are left unchanged. If memory runs out while an object is made or copied that is reported, the program carries on, and nothing is leaked.',
      ['histories', 'inputs', 'faults'],
      'All histories of up to 40 steps over up to five solver objects of every kind (float, double, complex; by reference and by value; every storage option and operand form) and all products, on one to four processors, with operands of every storage '
      'shape, and failing allocations at any point of the creation or copy of an object.',
      'What a solver returns depends on what it decomposed, was assigned or copied before; what a product passes to BLAS depends on the strides of all three operands. The tests decompose once and use dense operands.',
      ['src/ovxx/lapack/lu.hpp', 'src/ovxx/lapack/qr.hpp', 'src/ovxx/lapack/cholesky.hpp', 'src/ovxx/lapack/svd.hpp', 'src/ovxx/lapack/blas.hpp', 'src/ovxx/lapack/flapack.hpp', 'src/vsip/impl/solver/lu.hpp', 'src/vsip/impl/solver/qr.hpp',
       'src/vsip/impl/solver/cholesky.hpp', 'src/vsip/impl/solver/svd.hpp', 'src/vsip/impl/solver/toepsol.hpp', 'src/vsip/impl/solver/llsqsol.hpp', 'src/vsip/impl/solver/covsol.hpp', 'src/vsip/impl/matvec.hpp', 'src/vsip/impl/matvec_prod.hpp'],
      [('factors, pivots, reflectors held by the object', 'src/ovxx/lapack/*.hpp'), ('copies of operands and results to the layout LAPACK needs', 'src/ovxx/lapack/*.hpp'), ('strides and leading dimensions passed to BLAS', 'src/ovxx/lapack/blas.hpp')],
      observe=['every element of every result', 'operands and the memory around results', 'outcome of decompositions, creations and copies', 'live memory at the end']),
    P('C16', 'Views of local data stand for exactly their elements, over any history',
      'A vector, matrix or tensor over local memory, and everything derived from it - parts with any positive or negative stride, rows, columns, diagonals, transposes, slices, permutations, real and imaginary parts, and those of one another - '
      'stands for exactly the elements its definition gives: what is read, assigned, computed element by element, reduced or selected through any of these views, in any storage format and dimension order, has the value the definition gives '
      'and changes exactly the elements of the destination, at once visible through every other view of the same memory. A view keeps its memory alive when the views it was derived from are gone, memory is given back with the last one, '
      'and a program told that memory has run out can carry on with all it has.',
      ['histories', 'inputs', 'faults'],
      'All histories of up to 24 steps over blocks of float, complex and int in row- and column-major, permuted, padded, interleaved and split storage, all pairs of 54 kinds of views as destination and source, all element-wise functions, reductions and '
      'selection functions, with failing allocations.',
      'The pairs of views, storage formats and strides decide which of many copy and evaluation paths runs; the tests use a few dense pairs, each once.',
      ['src/vsip/vector.hpp', 'src/vsip/matrix.hpp', 'src/vsip/tensor.hpp', 'src/vsip/selgen.hpp', 'src/vsip/complex.hpp', 'src/vsip/dense.hpp', 'src/ovxx/strided.hpp', 'src/ovxx/layout.hpp', 'src/ovxx/assign/copy.hpp',
       'src/ovxx/assign/loop_fusion.hpp', 'src/ovxx/expr/subset.hpp', 'src/ovxx/expr/sliced.hpp', 'src/ovxx/expr/diag.hpp', 'src/ovxx/expr/transposed.hpp', 'src/ovxx/expr/permuted.hpp', 'src/ovxx/expr/component.hpp',
       'src/ovxx/view/fns_elementwise.hpp', 'src/ovxx/view/view.hpp', 'src/ovxx/reductions/reductions.hpp', 'src/ovxx/reductions/reductions_idx.hpp', 'src/ovxx/math/scalar.hpp'],
      [('memory shared by views', 'src/ovxx/view/view.hpp, src/ovxx/refcounted.hpp'), ('offset and strides of derived views', 'src/ovxx/expr/*.hpp'), ('copy and transposition paths', 'src/ovxx/assign/*.hpp')],
      observe=['every element of every block and of every view involved after every operation', 'results of reductions and selections', 'live memory at the end']),
    P('C17', 'Serialized data are restored exactly as they were, or refused',
      'The description of the data of a view (through direct data access in any layout) or of the memory a program has bound to a block says truthfully what type the elements have, how many dimensions of which sizes there are, '
      'in what format and at what strides every element lies. A block type is reported as compatible with a description exactly if the bytes described are its dense data: same element type, same number of dimensions, same dimension order. '
      'Bytes passed on together with their description, within a process or to another one, over any number of hops, and bound to a compatible block there, give block and view exactly the elements that were sent, '
      'and neither sender nor receiver lose or change other data. Memory running out while data are made accessible is reported and leaves everything as it was.',
      ['histories', 'inputs', 'faults'],
      'All histories of up to 14 steps in which one to four processors describe, pass on, bind, change and rebind up to four arrays of eight element types, one to three dimensions, any dimension order and storage format, as a whole, in part, '
      'reversed, strided, transposed or by component, with failing allocations.',
      'Whether bytes may be reinterpreted depends on element type, dimensions, order, strides and format of both ends; the test serializes square matrices to the very type they came from.',
      ['src/vsip/serialization.hpp', 'src/vsip/dda.hpp', 'src/ovxx/dda/accessor.hpp', 'src/ovxx/storage/manager.hpp', 'src/ovxx/storage/block.hpp', 'src/ovxx/layout.hpp', 'src/ovxx/strided.hpp'],
      [('descriptions of data and user storage', 'src/vsip/serialization.hpp'), ('compatibility of types, dimensions and strides', 'src/vsip/serialization.hpp'), ('access by copy or in place', 'src/ovxx/dda/accessor.hpp'),
       ('binding of received memory', 'src/ovxx/storage/manager.hpp')],
      observe=['every element at the place the description gives', 'the answer of every block type to every description', 'every element of every array after every step, on every processor', 'live memory at the end']),
    P('C18', 'Memory goes back to the pool it came from, whole and once, whatever happens',
      'An object - view, block, direct data access, filter, transform, solver - takes its memory from the allocator that is the default of its thread when it is made, and keeps to that allocator: whatever becomes the default later, '
      'in whichever thread it ends, and however often its block was bound anew or its data moved, it gives back every piece exactly once, to that pool, with the size it was taken with. Memory taken for the duration of an operation is back '
      'when the operation ends; views of the same memory and copies of handles take none, and the last one gives it back. Changing the default concerns one thread only and lasts until that thread changes it or the library ends; '
      'a library started again starts with its own pool. If a pool has nothing left while an object is made or copied, that is reported as lack of memory, everything taken so far is returned, and the same works later on.',
      ['histories', 'faults', 'schedules'],
      'All histories of up to 24 steps over up to eight objects of 15 kinds, five pools that may run dry at any allocation and are closed when no longer needed, threads that make or end objects for others, and restarts of the library, on one to three processors.',
      'Which pool a piece goes back to, and with which size, depends on what was the default when it was taken and on every rebind, copy and change since; with the one pool of the tests any mistake in it goes unnoticed.',
      ['src/ovxx/allocator.hpp', 'src/ovxx/allocator.cpp', 'src/ovxx/aligned_allocator.hpp', 'src/ovxx/storage/host.hpp', 'src/ovxx/storage/manager.hpp', 'src/ovxx/storage/block.hpp', 'src/vsip/impl/local_map.hpp', 'src/ovxx/dda/accessor.hpp', 'src/ovxx/library.cpp'],
      [('allocator and size kept with the memory', 'src/ovxx/storage/host.hpp'), ('default allocator of each thread', 'src/ovxx/allocator.cpp'), ('memory for the duration of an access', 'src/ovxx/dda/accessor.hpp')],
      observe=['every piece taken from and given back to every pool', 'bytes out of each pool after every step', 'the default pool after every step', 'elements of all objects']),
    P('C19', 'Timers measure exactly the time that has passed, whatever else happens',
      'What a timer reports as elapsed is the time that has passed on its machine since it was made or last restarted, to the resolution of the clock, from nanoseconds to months: in any thread, while others run, while the process was '
      'not scheduled, when somebody sets the wall clock, for copies of a running timer, and across the start and end of the library. Points of time and durations add and subtract exactly, '
      'the difference of two readings of the clock is the time between them, never negative for the later one, and a point of time or a duration made without a value where the interface promises zero is zero. '
      'That the description of the machine cannot be read changes none of this.',
      ['schedules', 'faults', 'histories'],
      'All histories of up to 30 steps over up to six timers and eight points of time on one to three processors with up to three further threads, preemption at every memory access, suspensions from microseconds to weeks at any reading of the clock, and jumps of the wall clock.',
      'A reading depends on when the process ran and on what happened to the clocks meanwhile; the test starts and reads a timer at once and ignores what it says.',
      ['src/ovxx/timer.hpp', 'src/ovxx/chrono.hpp', 'src/ovxx/chrono.cpp'],
      [('start of a timer', 'src/ovxx/timer.hpp'), ('readings of the clock, points of time, durations', 'src/ovxx/chrono.hpp')],
      observe=['every reading of every timer, between the simulated times right before and after it', 'differences of all points of time']),
]

NOT_APPLICABLE = {}
