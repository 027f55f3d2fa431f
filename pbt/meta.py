PROG = 'Programs are drawn node by node from a table of about 280 operations; a case is one program with its inputs and thresholds. '
META = {
    'C01': dict(rule=PROG + 'Threshold 0. Non-trivial: at least two operations and a result with derivatives.'),
    'C02': dict(rule=PROG + 'One threshold above 0. Non-trivial: at least two operations and a result with derivatives.'),
    'C04': dict(rule=PROG + 'Mostly elementwise operations. Non-trivial: at least two operations and a result with derivatives.'),
    'C05': dict(rule=PROG + 'Mostly contractions. Non-trivial: contains a contraction.'),
    'C06': dict(rule=PROG + 'Mostly indexing, rearranging and updates. Non-trivial: at least two operations and a result with derivatives.'),
    'C07': dict(rule=PROG + 'Mostly reductions. Non-trivial: at least two operations and a result with derivatives.'),
    'C08': dict(rule=PROG + 'Mostly control flow and nested calls. Non-trivial: contains control flow.'),
    'C09': dict(rule=PROG + 'Mostly linear algebra. Non-trivial: contains linear algebra.'),
    'C10': dict(rule=PROG + 'Mostly complex numbers. Non-trivial: at least two complex operations.'),
    'C12': dict(rule=PROG + 'Weights are none, one scalar, one per argument or one per leaf. Non-trivial: at least one weight other than 0 and 1 or different weights.'),
    'C13': dict(rule=PROG + 'Inputs are packed into containers, keyword arguments and closures; results are packed into containers. Non-trivial: at least one operation.'),
    'C14': dict(rule=PROG + 'Programs are cut into two or three stages which are transformed one by one, with own thresholds. Non-trivial: a later stage has results with derivatives.'),
    'C15': dict(rule=PROG + 'One nesting of transformations per case. Non-trivial: at least two operations.'),
    'C16': dict(rule=PROG + 'Weighted sums of the results as scalar functions of one array of any shape with ignored entries. Non-trivial: the gradient is not zero.'),
    'C11': dict(rule=PROG + 'Inputs in single or double precision, conversions in between. Non-trivial: values of at least two number types.',
                assumptions=['errors of single precision programs are compared with 100 times the error of plain JAX plus 3e-5 of the largest value']),
    'C17': dict(rule='A case is a function of up to four nested arguments with its axes, results, batch size, chunk size and surrounding transformation. Non-trivial: more samples than the chunk size.',
                assumptions=['jax.vmap is the reference']),
    'C20': dict(rule='A case is three containers of one shape, each dense or sparse with arbitrary indices, and index sets. Values are multiples of 1/2, so all comparisons are exact. Non-trivial: at least one of them is sparse.',
                assumptions=['index sets are without repetition']),
    'C22': dict(rule='A case is a nested structure with leaves of any shape and number type; all functions are evaluated on it. Non-trivial: at least two leaves.',
                assumptions=['squared norms of real trees; inner products without conjugation']),
    'C19': dict(rule=PROG + 'Real to real, real to complex and holomorphic programs of up to three arguments. Non-trivial: the derivatives are not zero.',
                assumptions=['forward-mode differentiation of real and imaginary parts by JAX is the reference; inputs are all real or all complex']),
    'C21': dict(rule=PROG + 'Either the memory estimate of a program, or automatic batching of a function with a given amount of memory. Non-trivial: at least two operations, or more than one sample.',
                assumptions=['the memory of the device is a stand-in that reports a given number of bytes']),
    'C18': dict(rule='A case is a history of registrations, removals and evaluations. Non-trivial: an evaluation uses a custom rule or an operation whose rule has been removed.',
                assumptions=['every evaluation transforms the function anew, as JAX caches compiled functions']),
    'C23': dict(rule='A case is one of about 50 functions, one of its true annotations and arguments of any shape that are constant or have dense or sparse Jacobians of various patterns. Non-trivial: the result has derivatives.'),
    'C03': dict(rule='A case is a program on the features of particles or of pairs of particles, traced for two numbers of particles, or (one in five) a general program. Non-trivial: at least two operations.',
                assumptions=['only operations that have rules for sparse Jacobians are used in the particle programs; no determinants, linear solves, scans, cumulative operations or sorting']),
}
