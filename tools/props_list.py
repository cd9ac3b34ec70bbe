# Executed by props.py.
TT_INPUTS = ('for every TT-tensor and TT-matrix, single or in a batch, of every shape, TT-ranks, batch size and '
             'float dtype (ranks larger than needed included)')

prop('C01', 'A TT-object denotes exactly the contraction of its cores',
     'Building a TT-object from cores and converting it to a dense array gives, element by element, the product of the '
     'selected core slices (for TT-matrices: row and column multi-indices in row-major order; for batches: every batch '
     'element separately). Every reported property of the object (shape, raw shape, number of dimensions, TT-ranks, '
     'batch size, dtype, tensor or matrix, variable or not) agrees with its cores, whichever way shape, ranks and batch '
     'size were or were not passed, and adding or removing a batch axis of size one does not change the value.',
     ['inputs', 'configurations'], TT_INPUTS + ', and for every combination of optional constructor arguments',
     'The tests densify a handful of fixed shapes; errors tied to a mode or rank of 1, to equal sizes of different axes, '
     'to a batch of one or to d=1 need the whole product of structures.',
     ['t3f/ops.py', 't3f/tensor_train.py', 't3f/tensor_train_batch.py', 't3f/tensor_train_base.py', 't3f/shapes.py'],
     [('full', 't3f/ops.py'), ('constructors and shape inference', 't3f/tensor_train.py, t3f/tensor_train_batch.py'),
      ('static and dynamic shape queries', 't3f/shapes.py')],
     'exhaustive enumeration of structures, all elementary cores, and all small values against a dense model',
     'complete for the stated bound; multilinear in the cores, so all elementary cores settle a shape')

prop('C02', 'Inconsistent cores are rejected, consistent ones are accepted',
     'Constructing a single or batch TT-object raises ValueError whenever the cores cannot form one: different dtypes, '
     'wrong or different numbers of axes, neighbouring ranks that differ, a first or last rank other than 1, or different '
     'batch sizes. The same holds when an explicitly passed shape, list of TT-ranks (of the right length) or batch size '
     'contradicts the cores, wherever in the train the contradiction sits. Every consistent combination is accepted.',
     ['inputs', 'configurations'], 'for every list of core shapes and dtypes and every explicit shape, rank and batch-size argument',
     'The tests try a few broken inputs; a check dropped for the last core, for one class or for one argument passes them.',
     ['t3f/tensor_train.py', 't3f/tensor_train_batch.py', 't3f/shapes.py'],
     [('core validation', 't3f/tensor_train.py'), ('batch core validation', 't3f/tensor_train_batch.py')],
     'exhaustive enumeration of core-shape tuples and arguments against a declarative validity predicate',
     'complete for the stated alphabets of ranks, modes, axis counts, dtypes and batch sizes; single faults to d=6 (8)')

prop('C04', 'Elementwise arithmetic of TT-objects is arithmetic of the tensors',
     'The sum, difference and elementwise product of two TT-objects of the same shape, the negation of one, and its '
     'product with a number (int, float, tensor; either side; zero and negative included) denote exactly the same '
     'arithmetic on the dense arrays. This holds for tensors and matrices, for single objects and batches in any '
     'combination that can be broadcast (equal batch sizes, a batch of one, or a single object on either side), with the '
     'batch size, shape and dtype of the operands. TT-ranks of a sum add up at most, and of a product multiply at most.',
     ['inputs', 'configurations'], TT_INPUTS + ', every pair of rank vectors and every pair of batch sizes that broadcasts',
     'The tests use a few shapes with equal ranks and random values; wrong block placement, broadcasting or sign handling '
     'for particular dimensions, ranks or batch pairs stays invisible.',
     ['t3f/ops.py', 't3f/tensor_train_base.py', 't3f/shapes.py'],
     [('block cores of a sum', 't3f/ops.py'), ('Kronecker product of core slices', 't3f/ops.py'),
      ('operators', 't3f/tensor_train_base.py')],
     'exhaustive enumeration of operand structures, batch pairs and small values against a dense model',
     'complete for the stated bound; exact integer arithmetic inside the reference')

prop('C03', 'Indexing and gathering elements agree with the dense array',
     'Indexing a TT-tensor with integers, slices (any start, stop, step, negative values, empty results) in any '
     'combination over its axes gives a TT-tensor equal to the same indexing of the dense array; integer axes disappear '
     'and slices keep their axis. Indexing a batch with an integer gives that object and with a slice the sub-batch, '
     'followed by optional indices of the tensor axes. Gathering a list of multi-indices returns exactly those elements, '
     'for tensors, matrices are rejected, and for batches the leading index selects the object.',
     ['inputs'], TT_INPUTS + ', every index expression and every list of multi-indices',
     'The tests index one 3-dimensional tensor in a few ways; order of collapsed axes, several exact indices in a row, '
     'negative indices and steps, batch plus exact indices are combinations they do not reach.',
     ['t3f/tensor_train.py', 't3f/tensor_train_batch.py', 't3f/ops.py'],
     [('collapsing of exact indices', 't3f/tensor_train.py, t3f/tensor_train_batch.py'), ('gather_nd', 't3f/ops.py')],
     'exhaustive enumeration of all index expressions per shape against NumPy indexing',
     'complete for the stated shapes and index alphabet')

prop('C05', 'Matrix products and transposes agree with dense matrix algebra',
     'The product of TT-matrices, single or batch in any combination that broadcasts, and of a TT-matrix with a dense '
     'matrix on either side, equals the dense matrix product, with the right row and column factorizations, batch size and dtype. The transpose equals the dense transpose for single '
     'objects and batches, and TT-ranks of a product are at most the products of the TT-ranks. Products with dense '
     'matrices have the type the documentation promises, also for one-row and one-column operands.',
     ['inputs', 'configurations'], 'for every pair of TT-matrices (batches included) with matching inner dimensions, and every dense operand',
     'The tests multiply equal square modes with equal ranks; swapped row and column modes, distinct modes per core, '
     'batch broadcasting and boundary sizes need the product of structures.',
     ['t3f/ops.py'], [('tt_tt_matmul, tt_dense_matmul, dense_tt_matmul', 't3f/ops.py'), ('transpose', 't3f/ops.py')],
     'exhaustive enumeration of operand structures against a dense model', 'complete for the stated bound')

prop('C06', 'Scalar products, norms and bilinear forms equal their dense definitions',
     'The inner product of two TT-objects, of a TT-object with a sparse tensor and of batches element by element, the '
     'Frobenius norm (squared or not, in both its implementations), quadratic forms and bilinear forms (with one or two '
     'matrices in between) equal the sums over dense entries that define them. A result for a batch has one number per '
     'object, including batches of one object, and a result for single objects is one number.',
     ['inputs', 'configurations'], TT_INPUTS + ', all pairs of ranks and all combinations of single objects and batches',
     'The tests use one or two shapes with equal ranks; transposed contraction orders, wrong axes for non-square matrices '
     'or a lost batch axis pass them.',
     ['t3f/ops.py'], [('tt_tt_flat_inner, tt_sparse_flat_inner', 't3f/ops.py'), ('frobenius_norm_squared', 't3f/ops.py'),
                      ('bilinear_form, bilinear_form_two_mat', 't3f/ops.py')],
     'exhaustive enumeration of operand structures against a dense model', 'complete for the stated bound')

prop('C07', 'Batch operations act on every object of the batch separately',
     'The table of all pairwise inner products of two batches (optionally with a matrix in between), the Gram matrix of a '
     'batch, the concatenation of batches and the multiplication of every object of a batch by its own weight equal the '
     'same operations on the dense objects one by one, in order, for all batch sizes including one. Objects that cannot '
     'be concatenated (different shapes or ranks, not a batch) are rejected with ValueError.',
     ['inputs', 'configurations'], 'for all pairs of batches of TT-tensors or TT-matrices, all lists of batches and all weight vectors',
     'The tests use two batches of one shape; transposed tables, exchanged operands, weights on the wrong object or lost '
     'axes for batches of one are visible only for unequal sizes and ranks.',
     ['t3f/batch_ops.py'], [('pairwise_flat_inner, gram_matrix', 't3f/batch_ops.py'), ('concat_along_batch_dim', 't3f/batch_ops.py'),
                            ('multiply_along_batch_dim', 't3f/batch_ops.py')],
     'exhaustive enumeration of operand structures, batch sizes and weights against a dense model', 'complete for the stated bound')

prop('C08', 'Rewriting the cores never changes the tensor',
     'Orthogonalizing the cores from left to right or right to left, renormalizing them (every core gets the same norm) '
     'and casting to another dtype leave the represented dense array unchanged up to rounding, for zero, rank-deficient '
     'and badly scaled objects too. After orthogonalization all cores but the last (respectively the first) have '
     'orthonormal columns (rows), and TT-ranks never grow and do not exceed what the shape allows from that side.',
     ['inputs'], TT_INPUTS + ', zero and rank-deficient values included',
     'The tests orthogonalize a few full-rank tensors; ranks larger than the mode sizes, zero objects, single cores and '
     'the right-to-left direction for matrices are not reached together.',
     ['t3f/decompositions.py', 't3f/ops.py'], [('orthogonalize_tt_cores', 't3f/decompositions.py'), ('renormalize_tt_cores, cast', 't3f/ops.py')],
     'exhaustive enumeration of structures and small values; invariants checked on every result', 'complete for the stated bound')

prop('C09', 'Compressing a dense array into TT-format is quasi-optimal and respects caps',
     'Converting a dense tensor or matrix to TT-format without a rank cap reproduces it up to rounding; with a cap (one '
     'number or one per rank, unlimited allowed) no TT-rank exceeds the cap and the error is at most the square root of '
     'the sum of squared singular values the caps cut off from the unfoldings. The result has the requested shape and the '
     'dtype of the argument, TT-ranks never exceed what the shape permits, and impossible arguments raise ValueError.',
     ['inputs', 'configurations'], 'for every dense tensor and matrix, every factorization of its shape and every cap',
     'The tests compress a few generic tensors; ties and zero singular values, caps per rank, degenerate modes and '
     'matrices with different row and column factors are not covered.',
     ['t3f/decompositions.py'], [('to_tt_tensor', 't3f/decompositions.py'), ('to_tt_matrix', 't3f/decompositions.py')],
     'exhaustive enumeration of shapes, caps and small integer arrays with an SVD error-bound oracle', 'complete for the stated bound')

prop('C10', 'Rounding keeps the tensor and never exceeds the requested ranks',
     'Rounding a TT-object (or every object of a batch) without an effective cap reproduces it up to numerical error with '
     'TT-ranks not larger than before and than the shape permits; with a cap, no rank exceeds it and every object is '
     'within the square root of the sum of the squared singular values cut off from its own unfoldings. Shape, batch '
     'size, tensor or matrix kind and dtype are kept, and invalid caps or accuracies raise ValueError.',
     ['inputs', 'configurations'], TT_INPUTS + ' and every cap, given as one number or one per rank',
     'The tests round x + x or one random tensor; per-rank caps, batches whose objects differ, zero objects, matrices and '
     'ranks exceeding the mode sizes are combinations they do not reach.',
     ['t3f/decompositions.py'], [('_round_tt', 't3f/decompositions.py'), ('_round_batch_tt', 't3f/decompositions.py')],
     'exhaustive enumeration of structures, caps and value families with an SVD error-bound oracle', 'complete for the stated bound')

prop('C11', 'Approximate sums are quasi-optimal and respect the rank cap',
     'The rounded sum of a list of TT-objects and the rounded (weighted) sum over the objects of a batch equal the dense '
     'sum when the cap is not restrictive, whatever the number of summands. With a restrictive cap no TT-rank exceeds it '
     'and parts of the sum that fit into it survive: what is lost is of the order of the part that does not fit. With '
     'several weight columns one sum per column is returned.',
     ['inputs', 'configurations'], 'for every list or batch of TT-objects of the same shape, every rank cap and every weighting',
     'The tests add three or so objects; odd numbers of summands, one summand, weights of several columns and batches of '
     'batches take different paths through the pairwise summation.',
     ['t3f/approximate.py'], [('add_n', 't3f/approximate.py'), ('reduce_sum_batch', 't3f/approximate.py')],
     'exhaustive enumeration of numbers of summands, structures, weights and caps against a dense model', 'complete for the stated bound')

prop('C12', 'Tangent-space projection is the orthogonal projection',
     'Projecting TT-objects onto the tangent space of a TT-object whose TT-ranks are minimal gives exactly the orthogonal '
     'projection of the dense array: each object of a batch separately, the (weighted) sum of a batch, or the product with '
     'a TT-matrix. The point itself is a fixed point, the result has TT-ranks at most twice those of the point and '
     'remembers that point. Different shapes or dtypes, or projecting onto a batch, raise ValueError.',
     ['inputs', 'configurations'], 'for every point (tensor or matrix), every projected object or batch, every weighting',
     'The tests compare with an explicit formula at one or two points; block placement errors for particular ranks, modes of '
     'size one, d=2, weights with several columns and matrix products need the product of structures.',
     ['t3f/riemannian.py'], [('project, project_sum, project_matmul', 't3f/riemannian.py')],
     'complete projector matrices (all elementary tensors) for every point structure against a dense projector',
     'complete for the stated bound; the projection is linear, so all elementary tensors settle a point')

prop('C13', 'Arithmetic of tangent vectors agrees with arithmetic of the tensors',
     'Inner products and linear combinations (optional coefficients, per object of a batch too) of elements of one '
     'tangent space equal those of the dense arrays, and combinations stay in the tangent space with the same TT-ranks, so '
     'operations can be chained. Splitting a tangent vector into per-core deltas and reassembling it restores it, and the '
     'deltas have the same inner products as the vectors. Objects that are not projections, or are projections onto '
     'different points, are rejected with ValueError.',
     ['inputs', 'histories'], 'for every point with minimal TT-ranks, all tangent vectors and all sequences of operations on them',
     'The tests use one point and fixed batches; asymmetric ranks, two cores, coefficient tables and chained combinations are not reached.',
     ['t3f/riemannian.py'], [('pairwise_flat_inner_projected, add_n_projected', 't3f/riemannian.py'),
                             ('tangent_space_to_deltas, deltas_to_tangent_space', 't3f/riemannian.py')],
     'exhaustive enumeration of points, tangent vectors and operation chains against a dense model', 'complete for the stated bound')

prop('C14', 'Riemannian autodiff equals the projected dense gradient and Hessian',
     'The automatic Riemannian gradient of a function built from library operations equals the orthogonal projection of '
     'the analytic dense gradient on the tangent space at the point, and the Hessian-vector product equals projection, '
     'analytic Hessian, projection applied to the vector, eagerly and in graphs. With the runtime check enabled, '
     'a function whose value depends on the particular cores instead of the tensor is rejected, and no invariant function is.',
     ['inputs', 'programs'], 'for every point (minimal TT-ranks; for gradients also larger), every vector and every function composed of library operations',
     'The tests differentiate a few functions at one point each; gauge conditions violated for particular cores, ranks or '
     'matrices vanish in them.',
     ['t3f/autodiff.py', 't3f/riemannian.py'], [('gradients, hessian_vector_product', 't3f/autodiff.py'), ('gauge conditions', 't3f/autodiff.py')],
     'exhaustive enumeration of points, functions and vectors against analytic derivatives and a dense projector', 'complete for the stated bound')

prop('C15', 'Kronecker determinant, inverse and Cholesky equal the dense ones',
     'For a Kronecker product of square matrices (TT-ranks 1), single or in a batch, the determinant, the sign and '
     'logarithm of the determinant, the inverse and the Cholesky factor equal those of the dense matrix, for factors of '
     'unequal sizes, negative and zero determinants (sign 0 and minus infinity). Anything else (a TT-rank above 1, a '
     'non-square factor, a TT-tensor) raises ValueError.',
     ['inputs'], 'for every number and sizes of the factors, all values and batch sizes',
     'The tests use two or three random positive factors; exponents for unequal sizes, signs of negative determinants and '
     'batches with mixed signs need all combinations.',
     ['t3f/kronecker.py'], [('determinant, slog_determinant, inv, cholesky', 't3f/kronecker.py')],
     'exhaustive enumeration of factor sizes and small integer factors against dense linear algebra', 'complete for the stated bound')

prop('C16', 'Initializers build exactly the requested object or reject the request',
     'Ones, zeros, identity, random and layer initializers, and the "like" variants, return an object with exactly the '
     'requested shape (rows or columns may be omitted for vectors), TT-ranks, batch size and dtype; constants have '
     'exactly the promised values, and random objects draw every element separately and anew at each call. Shapes, '
     'TT-ranks and batch sizes that are fractional, not positive, or of wrong length raise ValueError wherever the '
     'offending number is.',
     ['inputs', 'configurations'], 'for every shape, TT-rank argument, batch size, dtype and way of passing them',
     'The tests check a few calls per function; a validation dropped in one function or for one position, or a shape '
     'mix-up for unequal modes, passes them.',
     ['t3f/initializers.py'], [('argument validation', 't3f/initializers.py'), ('constant and random initializers', 't3f/initializers.py')],
     'exhaustive enumeration of shapes, ranks, batch sizes and invalid arguments', 'complete for the stated bound')

prop('C27', 'Random TT-objects have the promised mean and variance',
     'Every entry of a random TT-tensor or TT-matrix has mean 0 and the requested standard deviation whatever the shape, '
     'TT-ranks and batch size; the Glorot, He and LeCun initializers give entries of variance 2/(rows+columns), 2/rows and '
     '1/rows. Objects with random cores have core elements of the requested mean and standard deviation.',
     ['inputs', 'configurations'], 'for every shape, TT-ranks, batch size and standard deviation, over all answers of the random generator',
     'The tests compare sample moments of one shape with loose tolerances, and cannot tell neighbouring formulas apart for others.',
     ['t3f/initializers.py'], [('scaling of the cores', 't3f/initializers.py')],
     'all answers of a two-point random generator are enumerated, giving exact moments', 'exact for the stated bound; other generators fall back to structure')

prop('C17', 'TT-variables hold exactly the last accepted assignment',
     'A TT-variable holds its initial value until the first assignment and afterwards exactly the value of the last accepted '
     'assignment, whatever the history, also when the assigned value is computed from the variable itself, in eager '
     'mode, in graphs and inside compiled functions. An assignment of an object with another kind, shape, TT-ranks, batch size or '
     'dtype raises and changes nothing. In graphs a name refers to one variable per scope: reuse returns it, a second '
     'creation raises, trainable, collections and regularizer arguments are honoured for every core.',
     ['sequences', 'interleavings', 'configurations'],
     'for every history of creations and assignments, every order of the reads and writes a graph allows, every structure',
     'A partly overwritten variable needs an assignment that fails in a late core, and a race between reads and writes of '
     'different cores appears only under some schedules.',
     ['t3f/variables.py'], [('creation, reuse', 't3f/variables.py'), ('assignment', 't3f/variables.py')],
     'exhaustive histories against a one-cell model; all schedules of the reads and writes of the graph', 'complete for the stated bound')

prop('C18', 'The TT dense layer computes activation(x W + b) for its TT-matrix W',
     'A TT dense layer applied to a batch of inputs returns activation(x W + b), where W is the dense form of its TT-matrix of the '
     'requested input and output dimensions and TT-rank, b its bias (absent if disabled) and the activation the requested one, '
     'also after any update of its weights. The bias starts at the requested constant, the number of parameters is that of the '
     'cores and bias, the output shape is (batch, product of the output dimensions), and initial weights follow the requested '
     'initializer.',
     ['inputs', 'configurations', 'sequences'],
     'for every input and output dimensions, TT-rank, activation, bias setting, initializer, batch size and update history',
     'The tests train one configuration on random labels; a layer that ignores the bias, an activation or a dimension still trains.',
     ['t3f/nn.py'], [('layer', 't3f/nn.py')],
     'exhaustive enumeration of configurations and update histories against a NumPy layer', 'complete for the stated bound')

prop('C19', 'Regularizers equal scale times the sum of the core penalties',
     'The L2 regularizer of a TT-object returns scale times its squared Frobenius norm (per object of a batch), and the '
     'cores regularizer returns scale times the sum of the given penalty over all cores, for tensors, matrices, batches and '
     'variables. A scale of zero gives a regularizer contributing nothing; an integer or negative scale raises ValueError. '
     'In graphs the regularization loss of a variable equals the regularizer of its current value.',
     ['inputs', 'configurations'], 'for every TT-object, scale and penalty function',
     'The tests do not exercise the regularizers on objects of different kinds nor the rejected scales.',
     ['t3f/regularizers.py'], [('regularizers', 't3f/regularizers.py')],
     'exhaustive enumeration of structures and scales against NumPy', 'complete for the stated bound')

prop('C20', 'Operands are accepted exactly when their shapes, kinds and dtypes fit',
     'A binary or ternary operation on TT-objects (sum, difference, products, inner products, bilinear forms, pairwise products, '
     'concatenation, projections) returns a result exactly when kinds, shapes and dtypes fit and the batch sizes are equal or '
     'broadcast from 1, and otherwise raises; where ValueError is documented, ValueError is raised. It never drops '
     'extra dimensions, repeats objects or guesses a shape, and an accepted combination has the right value.',
     ['inputs', 'configurations'], 'for every pair or triple of structures, compatible or not',
     'The tests try a handful of incompatible pairs; a missing comparison shows only for pairs differing in exactly one way, e.g. one extra dimension of '
     'size one or equal products of different factors.',
     ['t3f/ops.py', 't3f/batch_ops.py', 't3f/riemannian.py'],
     [('argument validation', 't3f/ops.py'), ('argument validation', 't3f/batch_ops.py'), ('argument validation', 't3f/riemannian.py')],
     'all pairs and triples from a universe of structures against the compatibility relation', 'complete for the stated bound')

prop('C21', 'Compiled and graph execution give the eager results, whatever sizes are unknown',
     'Every operation traced into a compiled function or a graph gives the values it gives eagerly, also when batch size, modes '
     'or TT-ranks of its arguments are unknown at tracing time, and one trace serves all sizes that fit it. What a traced object '
     'reports statically (shape, TT-ranks, batch size) is unknown or true in every run. A few operations may refuse '
     'unknown sizes with an error, but none returns a wrong value.',
     ['inputs', 'configurations'], 'for every operation, every pattern of unknown sizes and every concrete structure fitting the pattern',
     'The tests run eagerly or with known shapes; a size frozen at tracing time gives wrong values only when the same trace is run with another size.',
     ['t3f/ops.py', 't3f/shapes.py', 't3f/batch_ops.py', 't3f/decompositions.py', 't3f/riemannian.py'],
     [('static and dynamic sizes', 't3f/shapes.py'), ('operations', 't3f/ops.py')],
     'exhaustive operations x unknown-size patterns x concrete structures; one trace is run on all structures', 'complete for the stated bound')

prop('C22', 'Operations change neither their arguments nor later results',
     'No operation changes the TT-objects, lists or arrays given to it, and overwriting those lists or arrays after the call does not '
     'change the result. Calling a (non-random) operation again with the same or equal objects, with one object in several '
     'places, or after any other operation on the same objects gives the same result.',
     ['sequences', 'inputs'], 'for every operation, every ordered pair of operations and every mutable argument',
     'The tests build fresh objects for every call, so a shape list padded in place, a cached value or a shared core goes unnoticed.',
     ['t3f/ops.py', 't3f/initializers.py', 't3f/decompositions.py', 't3f/approximate.py', 't3f/riemannian.py'],
     [('argument handling', 't3f/initializers.py'), ('operations', 't3f/ops.py')],
     'all operations and all ordered pairs of operations on shared objects; all mutable arguments compared and overwritten', 'complete for the stated bound')

prop('C23', 'Results of operations are full operands: any sequence equals the dense one',
     'Every result of an operation can be the operand of any other operation, and a sequence of operations gives the value, '
     'shape, TT-ranks and batch size that the same sequence gives on dense arrays (roundings within their guarantee). Everything that can be read from an '
     'object on the way (dense form, elements, norm, products, sizes) agrees with the dense array.',
     ['sequences'], 'for every sequence of operations of bounded length from every starting structure',
     'The tests apply one operation to freshly built objects; wrong recorded sizes of a result only matter for the next operation.',
     ['t3f/ops.py', 't3f/decompositions.py', 't3f/batch_ops.py', 't3f/tensor_train.py', 't3f/tensor_train_batch.py'],
     [('operations', 't3f/ops.py'), ('roundings', 't3f/decompositions.py'), ('batches', 't3f/batch_ops.py')],
     'all operation sequences up to depth 3 (4) against a dense model state', 'complete for the stated depth and structures')

prop('C24', 'Index arithmetic and the SVD replacement utilities are exact',
     'Converting linear indices into multi-indices agrees with the row-major order of the dense array for every shape and index. Replacing the SVD by '
     'the NumPy one keeps its interface (shapes, dtypes, flags, batches) and values and leaves compression, rounding and approximate sums '
     'unchanged; replacing twice is replacing once. Eager mode is reported exactly outside graphs and compiled functions.',
     ['inputs', 'configurations'], 'for every shape and index, every matrix size, batch shape and flag',
     'The tests use two shapes and one 2 x 2 matrix.',
     ['t3f/utils.py'], [('unravel_index, replace_tf_svd_with_np_svd, in_eager_mode', 't3f/utils.py')],
     'exhaustive enumeration of shapes, indices, matrices and flags', 'complete for the stated bound')

prop('C25', 'Operations are right for objects far too large to be dense',
     'All operations that do not return dense arrays give the right result for objects with up to 60 dimensions and 2^60 or more elements: '
     'arithmetic, products, norms, element access, rounding, rewriting, batches, projections, gradients, initializers and Kronecker functions. Their cost grows '
     'with the number of cores and not with the number of elements, and reported sizes do not overflow.',
     ['inputs'], 'for every number of dimensions up to 60, mode patterns and TT-ranks',
     'The tests compare with dense arrays, so they cannot reach sizes where integers overflow or anything densified exhausts memory.',
     ['t3f/ops.py', 't3f/decompositions.py', 't3f/riemannian.py', 't3f/kronecker.py', 't3f/initializers.py', 't3f/batch_ops.py'],
     [('operations', 't3f/ops.py'), ('projections', 't3f/riemannian.py'), ('determinants', 't3f/kronecker.py')],
     'enumeration of dimensions x modes x TT-ranks x operations against TT-algebra on NumPy cores', 'complete for the stated bound')

prop('C26', 'Differentiating through operations gives the derivative of the dense result',
     'TensorFlow gradients of functions of the results of TT-operations with respect to every core, scalar, weight or dense operand equal the '
     'derivatives of the same functions of the dense arrays, eagerly and in compiled functions. This covers conversion, arithmetic, products, '
     'differentiable norms, element access, batch operations, bilinear forms, determinants, layers, and projection with respect to the projected object.',
     ['inputs'], 'for every differentiable operation, every structure and every entry of every argument',
     'The tests compare values only; an operation that cuts the gradient or differentiates a rounded copy passes them.',
     ['t3f/ops.py', 't3f/batch_ops.py', 't3f/riemannian.py', 't3f/kronecker.py', 't3f/nn.py'],
     [('operations', 't3f/ops.py'), ('batch operations', 't3f/batch_ops.py')],
     'exhaustive operations x structures; exact central differences of a model polynomial of degree two in each entry', 'complete for the stated bound')

prop('C28', 'Optional arguments: omitted means the documented default, in any call form',
     'Omitting any subset of the optional arguments of any public function, constructor or layer gives the same result as passing their documented '
     'defaults, and passing arguments by position or by keyword makes no difference. None as weights, coefficients, matrix, sizes or activation means '
     'what is documented (ones, identity, inferred sizes, linear). The name given to an operation never affects its result.',
     ['configurations', 'inputs'], 'for every public function, every subset of optional arguments, every split into positional and keyword arguments',
     'The tests mostly spell out the arguments, or use inputs for which the default makes no difference.',
     ['t3f/ops.py', 't3f/decompositions.py', 't3f/initializers.py', 't3f/riemannian.py', 't3f/autodiff.py', 't3f/nn.py', 't3f/variables.py'],
     [('signatures', 't3f/__init__.py')],
     'all subsets of omitted arguments and all call forms of all public functions against the fully explicit call', 'complete for the stated bound')

prop('C29', 'The description of an object tells its kind, sizes, TT-ranks and name',
     'The text describing a TT-object tells whether it is a tensor or matrix, single or batch, variable or not, and states its actual size, mode sizes, '
     'TT-ranks and batch size as far as they are known, for objects of every origin. The name of a TT-variable is the scoped name it was created '
     'with and its graph is the one it was created in. Evaluating an object or running its operation computes all of its cores.',
     ['inputs', 'configurations'], 'for every structure, every pattern of unknown sizes, constants, variables and results of all operations',
     'No test looks at descriptions, names or evaluation.',
     ['t3f/tensor_train.py', 't3f/tensor_train_batch.py', 't3f/tensor_train_base.py', 't3f/variables.py'],
     [('description and attributes', 't3f/tensor_train_base.py')],
     'exhaustive structures x origins x unknown sizes; numbers and words of the text against the model', 'complete for the stated bound')

prop('C30', 'An operation on a batch is the operation on each of its objects alone',
     'For every operation that accepts batches, each object of the result equals (value, shape, dtype) the result of the operation on the '
     'corresponding single objects, whatever the other objects of the batch are and whatever the batch size. A single object or a batch of one, combined with a '
     'batch, acts on every object of the batch. Operations that combine the objects of a batch (pairwise products, concatenation, sums, weights) agree with single-object operations.',
     ['inputs', 'configurations'], 'for every operation, structure, batch size, operand form and position of an exceptional object',
     'The tests use one batch size per operation and objects of similar magnitude.',
     ['t3f/ops.py', 't3f/batch_ops.py', 't3f/decompositions.py', 't3f/riemannian.py', 't3f/kronecker.py', 't3f/approximate.py', 't3f/tensor_train_batch.py'],
     [('operations on batches', 't3f/ops.py'), ('batch operations', 't3f/batch_ops.py')],
     'exhaustive operations x structures x batch sizes x operand forms x exceptional objects', 'complete for the stated bound')
