BASE = ('Every obligation is generated from the current source and discharged for all patch boxes, ghost widths, '
        'component counts and real field values; arithmetic is over the reals, no aliasing, callers supply the declared arrays. ')
LEVELS = {
    'C01': BASE,
    'C02': BASE,
    'C03': BASE + 'The C++ functions are read through clang\'s AST.',
    'C04': BASE + 'Includes the Python tools (utils/quat.py), interpreted symbolically from their current source.',
    'C05': BASE + 'Tables, rotation and search (quat.f, utils/quat.py) are verified path by path with a loop invariant for the search; the grid kernels that store and undo symmetry operations use those contracts.',
    'C06': BASE,
    'C07': BASE,
    'C08': BASE,
    'C09': BASE + 'Fluxes, residual, accumulated operator, reaction coefficient and off-diagonal scaling of ellipticfacops and hyprepoisson; the coarse-fine correction and the relaxation sweeps are C30 (not claimed).',
    'C10': BASE + 'Called symmetry operations are used through their contracts (C05).',
    'C11': BASE,
    'C12': BASE + 'Kernels without a contract yet are listed in the evidence (units_without_contract).',
    'C13': BASE,
    'C14': BASE + 'The values of the pair forces (flat index with products of the number of phases) are compared on executions only (bounded); their bounds and frames are proved.',
    'C15': BASE,
    'C18': BASE,
    'C19': BASE,
    'C20': BASE + 'The values of the linear refinement are compared on executions only (bounded, ratios 2, 3 and 4); its bounds and frames are proved for these ratios.',
    'C25': BASE + 'Templates are verified as instantiated for double and int.',
    'C26': BASE + 'That the clamped arc cosines of a triangle add up to pi is the elementary theorem behind the algebraic lemma proved here.',
    'C27': BASE + 'The history statement follows by induction over the per-call state transitions; the constructor (input parsing) is compared on executions only (bounded).',
    'C28': BASE + 'The file reader is compared on executions only (bounded).',
    'C29': BASE + 'Reading of the input database is compared on executions only (bounded).',
}
NA = {
    'C30': 'red-black sweeps of stride two whose start depends on a truncated division by two of possibly negative indices are outside the loop schema of the generator; contracts not written',
    'C21': 'restart is a whole-run property of application code that needs SAMRAI/HDF5, absent here: it cannot be compiled, and no per-function contract in reach expresses it',
    'C22': 'depends on SAMRAI communication schedules (library absent); a whole-history, concurrency property outside contract reach; the per-kernel part (same face, same value) is claimed under C07/C08/C12',
    'C23': 'the inner composition solvers come from Thermo4PFM, absent here, and are iterative floating-point solves whose convergence contracts cannot decide',
    'C24': 'adaptive implicit integration (SUNDIALS, absent) is a whole-history numerical property; the per-call part (right-hand side = minus the energy derivative) is claimed under C06',
}
