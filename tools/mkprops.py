import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['folx/'+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ['the triplets returned by forward_laplacian'])))

p('C01','Without sparsity, value, Jacobian and Laplacian are exact',
 'For every differentiable JAX program and every input at which it is smooth, the transformed program evaluated with sparsity switched off returns the value of the program, its full Jacobian with respect to all inputs and the sum of its unmixed second derivatives, for every output and every element, up to floating point rounding. This holds however the operations are composed: one value used several times, constants mixed with inputs, several inputs, and operations without a dedicated rule.',
 ['programs','inputs'],'all compositions of supported operations, all input shapes, all values away from kinks and poles',
 'The tests run a few fixed networks and a few dozen single-operation layers on one shape each; the guarantee is about every composition, in which rules meet operand combinations that no test samples.',
 ['interpreter.py','wrapper.py','jvp.py','hessian.py','custom_hessian.py','wrapped_functions.py'],
 [('jaxpr interpreter','folx/interpreter.py: eval_jaxpr_with_forward_laplacian'),('generic rule','folx/wrapper.py: wrap_forward_laplacian'),('dense JVPs','folx/jvp.py: dense_jvp'),('Tr(JHJ^T)','folx/hessian.py: vmapped_jac_hessian_jac')])
p('C02','Sparsity never changes the result, at any threshold',
 'For every differentiable program, input and sparsity threshold (an absolute number of elements or a fraction of the input size), the value, the materialised Jacobian and the Laplacian are the exact derivatives of the program; the threshold only trades memory for speed. In particular values of which some carry dense and others sparse Jacobians may be combined freely.',
 ['programs','inputs','configurations'],'all compositions of supported operations x all thresholds 0, (0,1), 1, 2, ... including those around the number of inputs at which single values switch to dense',
 'The tests use threshold 0 and one or two others on fixed functions; the switch from sparse to dense can happen at every operation of a program and every mixture of sparse and dense operands takes its own code path.',
 ['interpreter.py','jvp.py','hessian.py','utils.py','api.py','wrapped_functions.py'],
 [('sparse JVPs','folx/jvp.py: sparse_jvp, sparse_diag_jvp, sparse_index_jvp, sparse_sum_jvp, one_by_one_jvp'),('index selection for Tr(JHJ^T)','folx/hessian.py: find_out_idx, remove_zero_entries'),('materialisation','folx/api.py: FwdJacobian')])
p('C03','Sparse Jacobians are well formed and really sparse',
 'Whenever a result carries a sparse Jacobian, its index array is concrete, has the shape of the data, contains only valid input positions or the padding value, and expands together with the data to the true Jacobian; with sparsity switched off no sparse Jacobian appears. Programs which act on every particle (or pair of particles) separately through operations with sparse rules keep sparse Jacobians at every threshold of at least the inputs of one particle (or two); every listed input belongs to the particles of the element, the number of stored rows does not depend on the number of particles, contracting the features of one value stores no more rows than inputs belong to an element, rearranging values or applying elementwise functions of one value stores no more rows than the value, and elementwise functions of two values no more than both. A threshold between zero and one counts as that fraction of the number of all inputs.',
 ['programs','inputs','configurations'],'all particle-wise and mixing programs, particle counts, features per particle and thresholds at or above the features per particle',
 'The tests compare materialised Jacobians only; they never look at the index arrays, and a change that silently densifies or lists wrong inputs keeps the sums they compare.',
 ['api.py','jvp.py','utils.py','interpreter.py'],
 [('initial sparse state','folx/interpreter.py: init_forward_laplacian_state'),('mask propagation','folx/jvp.py: sparse_index_jvp, sparse_diag_jvp, get_jacobian_for_reduction'),('threshold','folx/jvp.py: sparse_jvp, sparse_sum_jvp')],['FwdJacobian.data, x0_idx, dense_array, weak, max_n'])
p('C04','Elementwise operations propagate exactly under broadcasting and sharing',
 'Every elementwise operation (arithmetic, transcendental, special functions, comparisons and selections, activation functions) yields exact values, Jacobians and Laplacians, whichever of its operands depend on the inputs, whether an operand is used twice, however the operands are broadcast against each other and whichever inputs the operands share, with and without sparsity.',
 ['programs','inputs','configurations'],'operation x dependent operand positions x broadcast shapes x overlap of the index sets of the operands x thresholds',
 'The tests apply most operations to one shape with one dependent operand; overlaps of index sets, size-1 dimensions and constant first operands are combinations they do not enumerate.',
 ['wrapped_functions.py','jvp.py','hessian.py','custom_hessian.py','utils.py'],
 [('registry','folx/wrapped_functions.py: _LAPLACE_FN_REGISTRY'),('elementwise JVP','folx/jvp.py: sparse_diag_jvp, dense_elementwise_jvp'),('division rule','folx/custom_hessian.py: div_jac_hessian_jac')])
p('C05','Contractions propagate exactly for all dimension layouts',
 'Dot products, matrix products, einsums, outer products, convolutions and general tensor contractions yield exact values, Jacobians and Laplacians for every choice and order of batch, contracted and free dimensions, with one or both operands depending on the inputs, with shared or disjoint dependencies, and with and without sparsity.',
 ['programs','inputs','configurations'],'dimension numbers x shapes including size 1 x dependent operands x overlap of dependencies x thresholds',
 'The tests multiply two or three fixed matrix shapes. The contraction rule has a fast path whose applicability depends on dimension order and on the sparsity of both operands, so almost every layout is untested.',
 ['wrapped_functions.py','hessian.py','utils.py'],
 [('contraction rule','folx/wrapped_functions.py: dot_general, rearrange'),('off-diagonal Hessian','folx/hessian.py: dot_product_jac_hessian_jac, remove_zero_entries')])
p('C06','Indexing and rearranging propagate exactly, also for computed indices',
 'Reshapes, transposes, broadcasts, slices, padding, concatenation, gathers, scatters and updates move values, Jacobians and Laplacians together: the results are exact for every index array, including repeated, reversed, negative and out-of-range ones, and for indices or masks that are computed from the inputs, with and without sparsity.',
 ['programs','inputs','configurations'],'operation x shapes x index arrays (constant or data dependent) x dependent operands x thresholds',
 'The tests index with one or two constant slices. With sparsity the operation is replayed on integer masks, which can silently go wrong for operands, modes and index patterns that the tests never use.',
 ['jvp.py','wrapped_functions.py','interpreter.py'],
 [('mask replay','folx/jvp.py: sparse_index_jvp'),('scatter','folx/jvp.py: sparse_scatter_jvp'),('static operands','folx/wrapped_functions.py: index_static_args')])
p('C07','Reductions, cumulative operations and sorting propagate exactly',
 'Sums, means, products, maxima, minima, norms, variances, log-sum-exp, soft-max, cumulative operations, sorting, top-k, segment and window reductions over any set of axes yield exact values, Jacobians and Laplacians at inputs without ties, with and without sparsity.',
 ['programs','inputs','configurations'],'reduction x axes (all subsets, negative, none) x shapes including size 1 x dependency patterns x thresholds below and above the number of inputs of one result',
 'The tests reduce over one or two axes of one shape; the sparse rules group and renumber indices per output element, which depends on the axes, shapes and patterns in ways fixed examples do not cover.',
 ['jvp.py','hessian.py','utils.py','wrapped_functions.py'],
 [('sum','folx/jvp.py: sparse_sum_jvp'),('general reduction','folx/utils.py: get_jacobian_for_reduction'),('Hessian','folx/hessian.py: general_jac_hessian_jac')])
p('C08','Loops, branches and nested calls are exact or refused, never wrong',
 'Programs with conditionals, switches, while loops, counted loops, scans (forward, reversed, unrolled, with carried and stacked results), nested compiled functions, rematerialisation and functions with custom derivative rules yield exact values, Jacobians and Laplacians. Where a loop cannot be supported, the call raises an exception; it never returns wrong derivatives.',
 ['programs','inputs','configurations'],'control-flow construct x nesting x carried structures x trip counts x thresholds',
 'Apart from one scan and one custom rule the tests contain no control flow; trip counts, carried structures, literals and nesting are unbounded.',
 ['interpreter.py','wrapper.py','jvp.py'],
 [('scan','folx/interpreter.py: eval_scan'),('nested calls','folx/interpreter.py: eval_pjit, eval_custom_jvp'),('environment and lifetimes','folx/interpreter.py: JaxExprEnvironment')])
p('C09','Linear algebra is exact',
 'Log-determinants with signs, determinants, inverses, linear solves, triangular solves, Cholesky factors and matrix powers of any batch of well conditioned matrices built from the inputs yield exact values, Jacobians and Laplacians, with and without sparsity, whichever operands depend on the inputs and whatever the signs of the determinants.',
 ['programs','inputs','configurations'],'decomposition x matrix size including 1 x batch shape x determinant sign x dependency pattern x thresholds',
 'The tests take the log-determinant of two fixed shapes; negative determinants, batches, dependent right-hand sides and sparse matrices are combinations they do not visit.',
 ['wrapped_functions.py','custom_hessian.py','vmap.py'],
 [('log-determinant','folx/wrapped_functions.py: slogdet_wrapper, slogdet_jvp'),('its Hessian','folx/custom_hessian.py: slogdet_jac_hessian_jac'),('linear solves','folx/wrapped_functions.py: linear_solve_wrapper')])
p('C10','Complex intermediate values are exact for real inputs',
 'For programs of real inputs which compute with complex numbers in between, holomorphic or not (modulus, conjugate, real and imaginary part, phase, complex contractions, complex log-determinants, functions with custom derivative rules), every real or complex output has the exact value, Jacobian and Laplacian, with and without sparsity.',
 ['programs','inputs','configurations'],'complex construction x holomorphic and non-holomorphic operations x contractions and reductions x thresholds',
 'The tests cover a handful of complex functions on one shape. Complex numbers switch several rules (complex to real, real to complex) that only some compositions reach.',
 ['ad.py','hessian.py','custom_hessian.py','wrapped_functions.py','wrapper.py'],
 [('complex derivatives','folx/ad.py: vjp, vjp_rc, jacrev, jacfwd, hessian'),('modulus','folx/custom_hessian.py: complex_abs_jac_hessian_jac'),('complex to real Hessian','folx/hessian.py: general_jac_hessian_jac')])
p('C11','Result types and shapes agree with the original program',
 'For every program, each result has the shape and the number type of the original result, and its derivatives carry the same type and matching shapes: single precision programs stay single precision and are exact up to that precision, conversions between precisions convert the derivatives along, and results without derivatives (integers, booleans) come back as plain arrays with the right values.',
 ['programs','inputs','configurations'],'programs mixing float32, float64, complex, integer and boolean values x thresholds',
 'The tests run in double precision only and compare real results only; conversions in the middle of a program and integer results are not exercised.',
 ['wrapper.py','api.py','wrapped_functions.py','interpreter.py'],
 [('result cast','folx/wrapper.py: wrap_forward_laplacian'),('conversion','folx/wrapped_functions.py: dtype_conversion; folx/api.py: FwdLaplArray.astype')])
p('C12','Weights scale the inputs of Jacobian and Laplacian exactly',
 'With a weight given for all inputs, or per argument as a prefix of the argument structure, every derivative with respect to an input is multiplied by the weight of that input, so that the Jacobian is scaled once and each unmixed second derivative twice, while values stay the same. No weight equals weight one, and a scalar equals the same weight for all arguments.',
 ['programs','inputs','configurations'],'programs x argument structures x weight prefixes (including zero and negative weights) x thresholds',
 'No test passes weights at all.',
 ['interpreter.py'],
 [('initial state','folx/interpreter.py: init_forward_laplacian_state'),('prefix broadcasting','folx/interpreter.py: forward_laplacian')])
p('C13','The transformed function keeps the calling convention',
 'For every argument structure (several positional arguments, nested containers, NumPy arrays, scalars) and keyword arguments, the transformed function returns exactly the structure of the original results; Jacobian rows follow the flattened order of the positional arguments; keyword arguments and closed-over values are constants; results which do not depend on the positional arguments come back as plain values.',
 ['programs','inputs','configurations'],'argument structures x result structures x keyword arguments x thresholds x compiled or not',
 'The tests pass one or two plain arrays and return single arrays.',
 ['interpreter.py','utils.py'],
 [('flattening','folx/interpreter.py: forward_laplacian; folx/utils.py: ravel'),('result structure','folx/interpreter.py: forward_laplacian')])
p('C14','Transformed functions compose like the original ones',
 'Feeding the result of one transformed function into another one yields the same value, Jacobian and Laplacian as transforming the composition, for dense and sparse intermediate results (sparse ones between stages that are not compiled separately), different thresholds in the two stages, several intermediate results, user supplied derivatives, and constant arguments next to propagated ones.',
 ['programs','inputs','configurations'],'pairs and triples of programs x thresholds of each stage x mixtures of propagated and constant arguments',
 'No test passes propagated arrays into a transformed function.',
 ['interpreter.py','api.py','wrapper.py'],
 [('propagated inputs','folx/interpreter.py: init_forward_laplacian_state, forward_laplacian')])
p('C15','Compilation, batching and outer differentiation do not change results',
 'The same value, Jacobian and Laplacian result whether the transformed function is compiled or not, called inside another compiled function, mapped over a batch, or called repeatedly with other inputs or shapes; its Laplacian can be differentiated with respect to inputs and closed-over parameters like any other JAX function and gives the derivative of the true Laplacian.',
 ['programs','inputs','configurations'],'programs x thresholds x nestings of jit, vmap and grad x call sequences',
 'The tests call the compiled function once per case; they neither nest transformations nor reuse a transformed function.',
 ['interpreter.py','operators.py','api.py'],
 [('compilation','folx/interpreter.py: forward_laplacian'),('static index arrays','folx/api.py: FwdJacobian')],['results under jax.jit, jax.vmap and jax.grad'])
p('C16','All Laplacian operators agree',
 'For every scalar function and every input shape, the forward, the loop and the parallel operator return the same two values: the Laplacian as a scalar and the flattened gradient over all inputs; the forward operator does so for every sparsity threshold, also when the function ignores some inputs, inside other compiled functions and over batches, and in the precision of the input.',
 ['programs','inputs','configurations'],'scalar programs x input shapes x thresholds x jit and vmap',
 'The tests compare the operators on two fixed functions of a vector.',
 ['operators.py'],
 [('operators','folx/operators.py: ForwardLaplacianOperator, LoopLaplacianOperator, ParallelLaplacianOperator')],['(laplacian, gradient) returned by the operators'])
p('C17','Batched mapping equals ordinary mapping for every batch size',
 'Mapping a function in chunks returns exactly what ordinary vectorised mapping returns, for every chunk size (smaller than, not dividing, equal to and larger than the batch), without ever evaluating more samples at once than the chunk size, every placement of mapped axes including unmapped arguments and nested structures, every placement of output axes, keyword arguments, and under compilation and differentiation.',
 ['inputs','programs','configurations'],'functions x batch sizes x chunk sizes x in/out axes (negative, none, nested) x jit and grad',
 'The tests use a few fixed batch sizes with one or two axes configurations.',
 ['vmap.py'],[('chunked map','folx/vmap.py: batched_vmap')],['results of batched_vmap'])
p('C18','Registering and deregistering rules affects exactly the named operation',
 'At every point of every history of registrations, replacements and removals, newly transforming and evaluating a program uses for each operation or named function the rule registered last and otherwise the built-in or generic behaviour; custom rules receive the propagated arguments and their result is used as is, other operations are unaffected, and after removal the results are those of an untouched library. Evaluation, also if it raises, leaves no global state behind.',
 ['histories','programs','configurations'],'sequences of register, replace, deregister and evaluate over primitives and function names x programs x thresholds, including failing rules and failing evaluations',
 'One test registers one rule and evaluates once; the guarantee is about all later evaluations in a process.',
 ['wrapped_functions.py','interpreter.py','utils.py'],
 [('registry','folx/wrapped_functions.py: register_function, deregister_function, get_laplacian'),('lookup','folx/interpreter.py: eval_pjit, eval_laplacian'),('logging state','folx/utils.py: LoggingPrefix')],['results after each step, root logger state'])
p('C19','Complex-aware Jacobians, Hessians and pullbacks are correct',
 'The flattened forward-mode and reverse-mode Jacobians, the Hessian and the pullback of a function equal the matrices of its partial derivatives for real-to-real, real-to-complex and holomorphic functions of one or several inputs of any shape that are all real or all complex, in single and double precision, also when compiled.',
 ['programs','inputs'],'functions x real or complex domain and range x shapes x number of arguments',
 'The tests check a few fixed functions of one vector.',
 ['ad.py'],[('derivatives','folx/ad.py: vjp, jacrev, jacfwd, hessian')],['matrices returned by jacfwd, jacrev, hessian and vjp'])
p('C20','Jacobian containers obey linear algebra, dense or sparse',
 'For every sparse or dense Jacobian, with repeated indices and padding in any position, the dense form equals the sum of all entries with the same index; addition, conversion, conjugation, real and imaginary parts, and selection of arbitrary index sets commute with taking the dense form, and operations on the containing triplets act on value, Jacobian and Laplacian alike.',
 ['inputs','histories'],'index arrays with padding, duplicates and any number of rows x shapes x number types x sequences of operations',
 'The containers are only tested through whole programs, whose Jacobians rarely have padding in front, duplicated indices and broadcast index arrays at once.',
 ['api.py','utils.py'],
 [('containers','folx/api.py: FwdJacobian, FwdLaplArray, FwdLaplArgs'),('helpers','folx/utils.py: broadcast_except, extend_jacobians, compact_repeated_dims_except')],['dense_array, data, x0_idx, mask, unique_idx, construct_jac_for'])
p('C21','Automatic batching and memory estimates are consistent',
 'Automatic batching returns exactly what ordinary vectorised mapping returns whatever memory is available, choosing the largest chunk whose cost, extrapolated linearly from the estimates for one and two samples, fits into the allowed memory, and single samples if none fits. The memory estimate of a program is the peak size of the values that are alive together when its operations run one after the other, where arguments and results stay alive, intermediate values are freed after their last use and nested calls and loop bodies add their own peak.',
 ['inputs','programs','configurations'],'functions x batch sizes x memory limits x allowed fractions; straight-line and nested programs',
 'No test touches this part.',
 ['experimental/memory.py','experimental/vmap.py'],
 [('memory model','folx/experimental/memory.py: compute_memory'),('automatic batching','folx/experimental/vmap.py: auto_batched_vmap')],['results of auto_batched_vmap and compute_memory'])
p('C22','Tree arithmetic acts leaf by leaf and matches flat vectors',
 'Adding, subtracting, scaling, shifting, multiplying, contracting, summing, concatenating, splitting, indexing and expanding trees of arrays keeps the structure and equals the same operation on each leaf, and inner products (without conjugation), sums and norms (of real trees) equal those of the flattened trees, for every structure, leaf shape and number type.',
 ['inputs'],'tree structures x leaf shapes and types x scalar or tree operands x axes and indices',
 'No test touches these functions directly.',
 ['tree_utils.py'],[('tree functions','folx/tree_utils.py')],['results of the tree functions'])
p('C23','Annotations of wrapped functions never change the result',
 'Annotating a function with true facts (elementwise or acting on some axes only, linear, linear in one or the first argument, a product, a reduction, pure indexing, a sum over segments, names, static operands) changes neither value, Jacobian nor Laplacian compared to wrapping the function without annotations, for every combination of propagated and constant arguments, shapes and thresholds; wrapping without derivatives returns plain values.',
 ['programs','inputs','configurations'],'functions x true annotations x axes x argument mixtures x batch shapes x thresholds',
 'One test wraps one function with one annotation.',
 ['wrapper.py','jvp.py','hessian.py','utils.py','api.py'],
 [('annotations','folx/wrapper.py: wrap_forward_laplacian; folx/api.py: FunctionFlags'),('axis handling','folx/utils.py: split_args, vmap_sequences, broadcast_shapes_to_args')],['results of wrap_forward_laplacian and warp_without_fwd_laplacian'])
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
