#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  Run from /verif after adding a check."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TPS, ARG, SB = 'shenfun/tensorproductspace.py', 'shenfun/forms/arguments.py', 'shenfun/spectralbase.py'
INN, PRJ, LA, MB = 'shenfun/forms/inner.py', 'shenfun/forms/project.py', 'shenfun/la.py', 'shenfun/matrixbase.py'
UT, INT, LP, IO = ('shenfun/utilities/__init__.py', 'shenfun/utilities/integrators.py',
                   'shenfun/utilities/lagrangian_particles.py', 'shenfun/io/__init__.py')
FB = 'shenfun/fourier/bases.py'


def P(id, title, statement, over, q, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a['observe_at'] = observe
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a)
    return d


ONE = 'All of the baseline tests run on one MPI process, where every array is whole and every exchange is a copy; '

CLAIMED = [
 P('C01', 'The local parts of a distributed space tile the global one exactly',
   'For every tensor product space, number of processes, decomposition and axis order, the local shapes and slices of '
   'physical and of spectral arrays partition the global index ranges without gap or overlap, and they are consistent with the '
   'arrays actually allocated. The local mesh, local wavenumbers and local slices seen by each process are exactly the corresponding '
   'part of the global ones, for scalar, vector and other composite spaces alike and also for the padded companions of a space.',
   ['configurations', 'schedules'],
   'all spaces (any mix of bases, 2-4 dimensions), 1-8 processes, slab/pencil, any transform order, padding; any rank order given by the Cartesian topology',
   ONE + 'so offsets, uneven splits and empty-ish parts never occur.',
   [TPS, SB, FB, ARG],
   [('pencil construction and shapes', TPS + ': TensorProductSpace.__init__/configure_backwards/shape/local_slice'),
    ('meshes and wavenumbers', TPS + ': local_mesh, mesh, local_wavenumbers, wavenumbers'),
    ('composite layouts', TPS + ': CompositeSpace.shape/local_slice/global_shape')]),
 P('C02', 'Transforms equal their definition however the data are distributed',
   'Backward transforms evaluate the expansion at the quadrature points, scalar products are the quadrature-weighted inner products with the '
   'basis functions, and forward is the projection onto the space and inverts backward. This holds for every space, on every number of '
   'processes and every decomposition, for scalar, vector, tensor and composite functions and for every transform algorithm offered, '
   'and leaves the input untouched.',
   ['configurations', 'inputs', 'schedules'],
   'all spaces, coefficients, process counts 1-8, transform kinds, message timings',
   ONE + 'so the redistribution between axes, which is most of a parallel transform, is never exercised.',
   [TPS, SB, FB, ARG, 'shenfun/chebyshev/bases.py', 'shenfun/legendre/bases.py', 'shenfun/jacobi/recursions.py'],
   [('transform chains', TPS + ': TensorProductSpace.configure_backwards, Transform/TransferBase (mpi4py_fft)'),
    ('1D transforms', SB + ': SpectralBase.forward/backward/scalar_product'),
    ('composite', TPS + ': VectorTransform')]),
 P('C03', 'Padded and dealiased transforms are exact on every number of processes',
   'A padded (or refined) backward transform evaluates the same function on the finer quadrature grid, the padded forward transform and scalar product '
   'keep exactly the modes of the original space, and going there and back is the identity. Products computed through padding '
   '(including vector-valued convolutions, dot and cross products) have no aliasing error where the padding is large enough; direct dealiasing drops exactly the modes it is '
   'documented to drop. All of it is independent of the number of processes and of the decomposition.',
   ['configurations', 'inputs', 'schedules'],
   'padding factors per axis, spaces, coefficients, 1-8 processes',
   ONE + 'so padded pencils, whose local shapes differ from those of the unpadded space on some processes only, are untested.',
   [TPS, SB, FB, UT, ARG],
   [('padded companions', TPS + ': get_dealiased; backward with padding_factor'),
    ('truncation', SB + ', ' + FB + ': _padding_backward/_truncation_forward'),
    ('convolution', TPS + ': Convolve')]),
 P('C04', 'Point evaluation gives every process the true value of the function',
   'Evaluating a function at arbitrary points returns, on every process that takes part, the value of the global expansion at those points, with every evaluation '
   'method, any number of points and any order of points. This includes points on the boundary, functions with inhomogeneous boundary '
   'values, vector-valued functions and spaces living on a part of the processes.',
   ['configurations', 'inputs', 'schedules'],
   'spaces, points, methods, 1-8 processes and sub-communicators',
   ONE + 'so the sum over processes and the choice of communicator in it do not matter there.',
   [TPS, ARG, SB, 'shenfun/optimization/cython/evaluate.pyx'],
   [('evaluation', TPS + ': eval, _eval_lm_python/_eval_lm_cython/_eval_python'), ('functions', ARG + ': Function.eval')]),
 P('C05', 'Integrals, inner products, norms and energies are global quantities',
   'Integrals over the domain, inner products between arrays, l2 norms and spectral energies return the value for the whole domain, the same '
   'on every process, whatever the number of processes, decomposition, axis order and communicator. No contribution is counted '
   'twice or dropped, however few grid lines a process owns.',
   ['configurations', 'inputs', 'schedules'],
   'spaces, data, 1-8 processes',
   ONE + 'where a missing reduction or a wrong ownership test changes nothing.',
   [INN, FB, UT, TPS],
   [('inner products', INN + ': inner, Inner'), ('energy', FB + ': energy_fourier'), ('integrate_sympy and dx', UT + ': dx')]),
 P('C06', 'Weak forms, derivatives and projections act on the global function',
   'Assembled linear forms, applied bilinear forms (matrix-vector products), derivatives and projections of expressions give each '
   'process its part of the mathematically defined global result. Variable coefficients, mixed derivatives, mapped domains and '
   'composite spaces included, the result does not depend on how the data are distributed.',
   ['configurations', 'inputs', 'programs', 'schedules'],
   'spaces, expressions, coefficients, 1-8 processes',
   ONE + 'so wavenumber scaling arrays and local slices of assembled operators are always complete.',
   [INN, PRJ, MB, ARG, 'shenfun/forms/operators.py'],
   [('assembly', INN + ': inner, assemble'), ('operators', MB + ': TPMatrix.matvec, BlockMatrix.matvec'), ('project', PRJ + ': project')]),
 P('C07', 'Linear solvers solve the global system on every process',
   'A solve returns, on every process, its part of the solution of the global linear system: multiplying back gives the right hand side at all '
   'unconstrained degrees of freedom, and constrained degrees of freedom and boundary values have their prescribed values exactly once. This holds for scalar and coupled '
   '(block) systems, for one or two non-periodic directions, and for every one of several solves with the same solver.',
   ['configurations', 'inputs', 'histories', 'schedules'],
   'operators (Helmholtz, biharmonic, pure Neumann, block), constraints, spaces, 1-8 processes, repeated solves',
   ONE + 'where the zero wavenumber is always local index zero.',
   [LA, MB, 'shenfun/chebyshev/la.py', 'shenfun/legendre/la.py', TPS],
   [('nonperiodic solvers', LA + ': SolverGeneric1ND, SolverGeneric2ND, Solver2D/3D, SolverDiagonal'),
    ('block solvers', LA + ': BlockMatrixSolver'), ('constraints', LA + ': apply_constraints')]),
 P('C08', 'Boundary values are imposed on every process',
   'Functions in a space with inhomogeneous boundary conditions satisfy these conditions on every process after transforms, solves and assignments, for '
   'constant values, values depending on the other coordinates, and values depending on time after the time is updated. The process that owns the boundary '
   'degrees of freedom, few or many, makes no difference.',
   ['configurations', 'inputs', 'histories', 'schedules'],
   'boundary conditions (Dirichlet, Neumann, higher, mixed), values, time updates, 1-8 processes',
   ONE + 'so boundary rows are never split over processes or away from the process that needs them.',
   [TPS, SB, ARG, 'shenfun/forms/arguments.py'],
   [('boundary values', TPS + ': BoundaryValues'), ('time', TPS + ': bcs update_bcs_time')]),
 P('C09', 'Derived spaces and moving functions between spaces preserve the function',
   'Spaces derived from a space (refined, coarsened, orthogonal, homogeneous, dealiased, test and other variants) keep its communicator, decomposition, domain and '
   'axis order. Moving a function to such a space, refining, restricting, assigning, masking Nyquist modes or expressing it in the orthogonal '
   'basis yields the same function wherever it is representable, on every number of processes.',
   ['configurations', 'inputs', 'schedules'],
   'spaces, derived kinds, resolutions, 1-8 processes and sub-communicators',
   ONE + 'so redistribution between differently sized spaces is a local copy.',
   [TPS, ARG, SB],
   [('derivation', TPS + ': get_refined, get_orthogonal, get_homogeneous, get_unplanned, get_testspace'),
    ('transfer of data', ARG + ': Function.refine, assign, to_ortho; ' + TPS + ': Function mask_nyquist')]),
 P('C10', 'Data files hold the global arrays and can be read on any number of processes',
   'What is written to file for a function or array, at any time step, as full fields or slices, is the global data, in global order, once. '
   'Reading it back, on the same or another number of processes or decomposition, gives every process its part of what was written, and fields of '
   'one file do not disturb each other.',
   ['configurations', 'histories', 'inputs', 'schedules'],
   'sequences of writes and reads, fields, slices, time steps, spaces, 1-8 processes for each phase',
   ONE + 'and a file is never shared between writers.',
   [IO, 'shenfun/io/generate_xdmf.py', 'shenfun/forms/arguments.py'],
   [('file interface', IO + ': ShenfunFile, HDF5File, NCFile (mpi4py_fft)'), ('functions', ARG + ': get_dimensioned_space, write/read')]),
 P('C11', 'A checkpoint on disk survives a crash and restarts the same simulation',
   'Once a checkpoint has been completed there is, at every later instant, a complete checkpoint on disk, either the last or the one before, '
   'whatever point the program is killed at. Restarting from it, on any number of processes, restores all fields, time and step counter of '
   'one and the same completed checkpoint and continues to the same results as the uninterrupted run.',
   ['crash_points', 'fault_sequences', 'histories', 'schedules'],
   'kill points at every I/O step, full disks, torn writes and copies, 1-8 processes before and after',
   'The tests write one checkpoint on one process and read it at once; nothing is ever interrupted.',
   [IO, INT, UT], [('checkpoint', IO + ': Checkpoint')]),
 P('C12', 'Asking a running simulation to stop stops all processes together',
   'When the stop file appears at any moment, all processes leave at the same step, after a complete checkpoint of that step, and the file is removed so that '
   'a restart runs. Without the file no process stops; no schedule makes some continue while others leave.',
   ['schedules', 'histories', 'fault_sequences'],
   'moment the file appears relative to each process, slow processes, 1-8 processes',
   'The tests use one process: there is no other one to disagree with.',
   [IO], [('kill check', IO + ': Checkpoint.check_if_kill')]),
 P('C13', 'Time integrators advance all processes identically and correctly',
   'Every integrator (RK4, ETD, ETDRK4, BackwardEuler, IRK3, IMEXRK011/111/222/443/3) reproduces the scheme it is named after: each step equals the scheme applied to the global '
   'coefficients, for scalar and vector, real and complex problems; the update function sees the right time, step number and solution; end time and number of steps are as '
   'asked for, also when the step size changes between calls. Results do not depend on the number of processes, nor on being split into several calls.',
   ['configurations', 'inputs', 'histories', 'schedules'],
   'integrators, equations, step sizes, split points, spaces, 1-8 processes',
   ONE + 'so per-process error norms and step sizes cannot diverge.',
   [INT], [('integrators', INT + ': IRK3, BackwardEuler, ETD, ETDRK4, RK4, IMEXRK*')]),
 P('C14', 'Every process takes part in every collective step, under every schedule',
   'No schedule, delay or reordering of process ranks by the topology makes a program that uses the library identically on all processes hang, mismatch messages or change its '
   'results (beyond rounding).',
   ['schedules', 'fault_sequences', 'configurations'],
   'all interleavings of up to 8 processes, stalls, rank reordering, mixed programs of all operations',
   'The tests run one process, which cannot wait for another.',
   [TPS, INN, LA, UT, IO], [('collectives', TPS + ': allreduce/Subcomm use throughout'), ('conditional paths', LA + ', ' + INN)]),
 P('C15', 'Results do not depend on what happened before',
   'The result of an operation is determined by its arguments: caches, plans, work arrays and padded companions left by earlier operations, other spaces, other '
   'functions, or spaces meanwhile destroyed never change it. Functions and arrays obtained earlier (other than a work array of a plan, as returned by a transform called without '
   'an output array) keep their values.',
   ['histories', 'programs', 'schedules'],
   'random sequences of operations over several live spaces, with destruction, at 1-8 processes',
   'Each test starts from fresh objects and performs a short fixed sequence.',
   [TPS, ARG, SB, LA, UT], [('caches', TPS + ': _dealias cache, ' + ARG + ': _backward_work_array; cached properties')]),
 P('C16', 'Particles are advected by the global velocity on all processes',
   'Particles are advected with the true velocity of the global field by the stated scheme; all processes hold the same particle '
   'positions after every step, and the number and order of particles is kept.',
   ['configurations', 'inputs', 'schedules'],
   'velocity fields, particle positions, steps, 1-8 processes',
   'There is hardly a test of it, and none with more than one process.',
   [LP, TPS], [('particles', LP + ': LagrangianParticles')]),
 P('C17', 'Spaces on separate communicators do not interfere',
   'Groups of processes that work on disjoint communicators (parts of the world, or a single process) get the results they would get alone and never wait for '
   'processes outside their group, even when the groups do different things or different numbers of them. Spaces derived from such a space stay on its '
   'communicator. (Files are opened by the whole world: a known finding.)',
   ['configurations', 'programs', 'schedules'],
   'splits of up to 8 processes into groups with different programs',
   'The tests run on one process, where all communicators look the same.',
   [TPS, INN, LA, FB, UT], [('communicators', 'all uses of comm in ' + TPS + ', ' + INN + ', ' + LA)]),
 P('C18', 'Communicators and plans are released once and only when unused',
   'Destroying a space releases the communicators and datatypes it created and nothing else: the space it was derived from, and unrelated spaces, go on working. A derived space '
   'shares the communicators of the space it was derived from (and must not outlive them). After destroying all, nothing is left, and repeating an operation or a '
   'cycle of creation and destruction does not accumulate communicators or datatypes.',
   ['histories', 'schedules'],
   'sequences of creating, deriving, using and destroying spaces on 1-8 processes',
   'No test counts resources or uses a space after destroying a relative of it.',
   [TPS, SB], [('destroy', TPS + ': TensorProductSpace.destroy, CompositeSpace.destroy')]),
]

NA = [
 P('C50', 'Quadrature rules integrate exactly what they should',
   'The quadrature points and weights of each family integrate polynomials of the documented degree exactly with the documented weight.',
   ['inputs'], 'all sizes and families', 'Tests sample a few sizes.',
   ['shenfun/chebyshev/bases.py', 'shenfun/legendre/bases.py', 'shenfun/legendre/lobatto.py'], [('points_and_weights', SB)]),
 P('C51', 'Precomputed matrices equal the inner products they stand for',
   'Each precomputed sparse matrix equals the matrix of inner products of the test and trial functions and derivatives it is registered for.',
   ['inputs', 'configurations'], 'all sizes, scales and families', 'Tests sample two sizes.',
   ['shenfun/chebyshev/matrices.py', 'shenfun/legendre/matrices.py', 'shenfun/jacobi/matrices.py'], [('mat lookup', MB)]),
 P('C52', 'Fast one-dimensional solvers equal a dense solve',
   'The banded and special-purpose one-dimensional solvers return the solution of the same system a dense solver would.',
   ['inputs'], 'all matrices with the documented structure', 'Tests sample a few.',
   [LA, 'shenfun/optimization/cython/la.pyx'], [('inner_solve', LA)]),
 P('C53', 'Sparse matrix arithmetic is that of the matrices represented',
   'Sums, products, scalings, slices and transposes of spectral matrices represent the same operation on the dense matrices.',
   ['programs', 'inputs'], 'expressions of matrices', 'Tests sample a few expressions.', [MB], [('SparseMatrix', MB)]),
 P('C54', 'Curvilinear operators equal their coordinate-free definition',
   'Gradients, divergences, curls and Laplacians in curvilinear coordinates are those of the mapped Cartesian operators.',
   ['inputs'], 'all coordinate maps', 'Tests cover a handful of maps.',
   ['shenfun/coordinates.py', 'shenfun/forms/operators.py'], [('metric', 'shenfun/coordinates.py')]),
 P('C55', 'Compiled and interpreted kernels agree',
   'The compiled (Cython, Numba) versions of a kernel return what the Python version returns.',
   ['inputs'], 'all inputs of each kernel', 'Tests sample a few shapes.',
   ['shenfun/optimization/__init__.py'], [('runtimeoptimizer', 'shenfun/optimization/__init__.py')]),
]
NA_REASON = {
 'C50': 'a pure function of its arguments: no process, schedule, clock, I/O or fault takes part, so there is nothing to simulate',
 'C51': 'a pure function of its arguments (serial, one-dimensional); no schedule or fault can change it. Used indirectly, with an independent oracle, in C06 and C07',
 'C52': 'pure serial numerical kernels without I/O or concurrency; exercised only indirectly through C07',
 'C53': 'pure serial algebra of objects; no nondeterminism to control',
 'C54': 'pure symbolic computation; nothing concurrent, timed or stored',
 'C55': 'a relation between two pure functions; the simulation has nothing to schedule or fail in it',
}

TECH = 'deterministic simulation with fault injection: seeded random search over schedules, faults and programs'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in CLAIMED + NA:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks, na = [], [dict(property=p['id'], reason=NA_REASON[p['id']]) for p in NA]
    notes = {}
    np = os.path.join(V, 'tools', 'level_notes.json')
    if os.path.exists(np):
        notes = json.load(open(np))
    for p in CLAIMED:
        i = p['id']
        if os.path.exists(os.path.join(V, 'dst', 'props', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                               technique=TECH, level='exploration',
                               level_note=notes.get(i, 'seeded runs of the real code on simulated MPI processes against an independent reference model; '
                                                       'evidence/%s.json counts runs, interleavings and faults' % i)))
        else:
            na.append(dict(property=i, reason='check under construction'))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the seam is the MPI module, the HDF5 file objects, and the operating system calls, all replaced from outside. '
                   'See DESIGN.md.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
