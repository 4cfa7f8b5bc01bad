"""Writes properties.jsonl (run by hand)."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = []


def P(pid, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    OUT.append({'id': pid, 'title': title, 'statement': statement,
                'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                'anchors': {'files': files,
                            'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


SAMPLE = ('The tests sample a few hand-written small, mostly contiguous arrays per function; the '
          'claim ranges over every value, dtype, shape and stride pattern.')

P('C02', 'Views show the right elements and alias exactly what NumPy aliases',
  'Any chain of slicing, integer indexing, newaxis, transposition, reshaping, flipping, '
  'broadcasting and splitting yields an array with NumPy\'s shape and elements. A write through '
  'any array is visible, at the right positions, through every array NumPy would alias and '
  'through no other.',
  ['histories', 'inputs'],
  'every finite history of view/copy derivations and assignments, for every dtype, shape and '
  'stride pattern',
  'The tests sample single views of small arrays; aliasing is a property of histories over '
  'composed views.',
  ['src/array/views.rs', 'src/python/pyarray/dunder_item.rs', 'src/python/pyarray/mod.rs',
   'src/python/shape.rs'],
  [('view_with/slice_axis/reshape stride arithmetic', 'src/array/views.rs')])

P('C05', 'Element-wise arithmetic and math functions equal NumPy\'s',
  'Every element-wise arithmetic operator and mathematical function (operators, ufuncs, clip, '
  'where, nan_to_num and the like) returns NumPy\'s values, shape and dtype for every broadcastable '
  'combination of operands, including strided, reversed, empty and 0-d arrays, Python scalars, '
  'integer wrap-around and non-finite values. Integer and exactly rounded results are identical; '
  'transcendental ones agree to rounding.',
  ['inputs'], 'every operand value, dtype pair, broadcastable shape pair and memory layout',
  SAMPLE,
  ['src/ops/kernels/arithmetic.rs', 'src/ops/kernels/math.rs', 'src/ops/dispatch.rs',
   'src/ops/ufunc.rs', 'src/ops/special.rs', 'src/ops/loops', 'src/python/ufuncs.rs',
   'src/python/pyarray/dunder_ops.rs'],
  [('dispatch to typed kernels', 'src/ops/dispatch.rs'),
   ('trait fallbacks', 'src/array/dtype/macros.rs')])

P('C07', 'Comparisons, logical and bitwise functions equal NumPy\'s',
  'Comparison operators and functions, logical functions, bitwise operators and shifts, and the '
  'tolerance-based comparisons return exactly NumPy\'s values, shape and dtype for every '
  'broadcastable combination of operands, dtypes and layouts, including NaN, infinities, integers '
  'beyond 2**53 and mixed signedness; whatever asks whether an element is true takes every value but zero for true.',
  ['inputs'], 'every operand value, dtype pair, broadcastable shape pair and memory layout',
  SAMPLE,
  ['src/ops/comparison.rs', 'src/ops/bitwise.rs', 'src/ops/kernels/comparison.rs',
   'src/ops/kernels/bitwise.rs', 'src/ops/array_methods/logical.rs'],
  [('comparison kernels and promotion', 'src/ops/comparison.rs')])

P('C08', 'Reductions equal NumPy\'s over any axes',
  'sum, prod, mean, var, std, max, min, ptp, argmax, argmin, all, any, count_nonzero and average, as '
  'functions and methods, over one axis, several axes, a negative axis or the whole array, with or '
  'without keepdims, return NumPy\'s values, shape and dtype for every numeric dtype and layout: '
  'narrow integers accumulate in 64 bits, NaN propagates through max/min and is found first by '
  'argmax/argmin, ties resolve to the first index, and empty or out-of-range requests are rejected '
  'exactly when NumPy rejects them. Floating sums agree to rounding.',
  ['inputs'], 'every value, dtype, shape, memory layout and choice of axes', SAMPLE,
  ['src/ops/array_methods/reductions.rs', 'src/ops/dispatch.rs', 'src/ops/ufunc.rs',
   'src/python/reductions.rs', 'src/python/pyarray/methods_reductions.rs'],
  [('strided axis reduction', 'src/ops/dispatch.rs dispatch_reduce_axis_typed'),
   ('full reduction', 'src/ops/ufunc.rs reduce_all_op')])

P('C09', 'Scans, differences and integrals equal NumPy\'s along any axis',
  'cumsum, cumprod, cumulative_sum/prod (with include_initial), nancumsum/nancumprod, diff (any order), '
  'ediff1d, gradient, trapezoid and unwrap return NumPy\'s values, shape and dtype along every axis '
  'of every array, whatever its layout, including empty and length-one axes.',
  ['inputs'], 'every value, dtype, shape, memory layout, axis and order', SAMPLE,
  ['src/ops/array_methods/cumulative.rs', 'src/ops/numerical.rs', 'src/python/reductions.rs',
   'src/python/numerical.rs'],
  [('axis_offsets traversal', 'src/array/iter.rs')])

P('C10', 'NaN-aware and order statistics equal NumPy\'s',
  'nansum, nanprod, nanmean, nanvar, nanstd, nanmin, nanmax, nanargmin, nanargmax, median, nanmedian, '
  'percentile, quantile, nanpercentile and nanquantile ignore (or propagate) NaN exactly as NumPy '
  'does, over the whole array or any axis, including all-NaN slices, infinities and non-contiguous '
  'layouts.',
  ['inputs'], 'every value including NaN and infinities, dtype, shape, layout, axis and q', SAMPLE,
  ['src/ops/array_methods/reductions.rs', 'src/ops/statistics.rs', 'src/array/manipulation.rs',
   'src/python/reductions.rs'],
  [('nan_reduce_axis', 'src/ops/array_methods/reductions.rs'),
   ('percentile interpolation', 'src/array/manipulation.rs')])

P('C11', 'Sorting, partitioning and searching equal NumPy\'s',
  'sort and argsort (functions and methods, any axis or flattened), in-place sort and partition of an array or '
  'view, lexsort, partition and argpartition, searchsorted, digitize, nonzero, flatnonzero, argwhere and '
  'extract give NumPy\'s results for every dtype and layout: sorting permutes each lane without losing or '
  'changing a value (integers beyond 2**53 included), orders NaN last and -0.0 equal to 0.0, argsort '
  'indexes the sorted lane, partition puts the k-th element in its sorted place, and searchsorted and '
  'digitize respect the requested side.',
  ['inputs'], 'every value including NaN, dtype, shape, layout, axis, kth and side', SAMPLE,
  ['src/array/manipulation.rs', 'src/ops/indexing.rs', 'src/ops/array_methods/sorting.rs',
   'src/python/indexing.rs', 'src/python/pyarray/mod.rs'],
  [('total element order', 'src/array/dtype/macros.rs compare_elements'),
   ('binary search', 'src/ops/indexing.rs searchsorted')])

P('C12', 'Set operations and counting equal NumPy\'s',
  'unique and its counts/inverse/all variants, intersect1d, union1d, setdiff1d, setxor1d, isin, in1d, bincount and '
  'trim_zeros return NumPy\'s values, order, counts and dtype for every dtype, layout and duplicate '
  'pattern; unique_inverse reconstructs the input, counts add up to its size, and no integer is '
  'conflated with another by rounding.',
  ['inputs'], 'every multiset of values, dtype and layout', SAMPLE,
  ['src/ops/set_ops.rs', 'src/python/indexing.rs', 'src/python/misc.rs', 'src/ops/statistics.rs'],
  [('set operations', 'src/ops/set_ops.rs')])

P('C13', 'Indexing selects exactly the elements NumPy selects',
  'Basic indexing (integers, slices with any start/stop/step, None, Ellipsis, tuples of them), integer-array '
  'and list indexing along the first axis, boolean masks of the array\'s own shape, iteration, flat, '
  'ndenumerate, ndindex, take, take_along_axis, compress, choose, select, three-argument where, diagonal, '
  'diag, diagflat, ix_, tril/triu/diag_indices, unravel_index, ravel_multi_index, packbits and unpackbits '
  'return the elements NumPy returns, in the same order, shape and dtype and unchanged in value, for every '
  'dtype and layout, negative indices and axes included; indices out of range are rejected.',
  ['inputs'], 'every index expression, array dtype, shape and layout', SAMPLE,
  ['src/python/pyarray/dunder_item.rs', 'src/python/indexing.rs', 'src/ops/indexing.rs',
   'src/array/mod.rs', 'src/array/views.rs'],
  [('basic indexing', 'src/python/pyarray/dunder_item.rs __getitem__'),
   ('gather functions', 'src/ops/indexing.rs')])

P('C14', 'Indexed assignment writes exactly the selected elements',
  'a[key] = value with integer, slice, None and Ellipsis keys, fill, fill_diagonal, put, put_along_axis, place, '
  'putmask and copyto (with where) store the values NumPy stores - broadcast, cycled and cast to the array\'s '
  'dtype as NumPy does - into exactly the selected elements of the array or of the base a view refers to, and '
  'leave every other element of the buffer unchanged, for every dtype and layout and when source and target '
  'overlap.',
  ['inputs', 'histories'], 'every index expression, value, dtype pair, layout and overlap', SAMPLE,
  ['src/python/pyarray/dunder_item.rs', 'src/python/pyarray/mod.rs', 'src/python/indexing.rs',
   'src/ops/indexing.rs', 'src/python/misc.rs', 'src/python/creation.rs'],
  [('assignment through a view', 'src/python/pyarray/mod.rs fill_view')])

P('C15', 'Rearranging, joining and splitting preserve every element',
  'reshape (with -1), ravel, flatten, transpose/permute_dims/.T, swapaxes, moveaxis, rollaxis, expand_dims, '
  'squeeze, atleast_1d/2d/3d, flip/fliplr/flipud, rot90, roll, broadcast_to, broadcast_arrays, concatenate, stack, '
  'vstack, hstack, dstack, column_stack, block, split/array_split/hsplit/vsplit/dsplit by section count, unstack, '
  'repeat by a count, tile, append, insert of one slice or flat values, delete of one index, pad (constant and '
  'edge), resize, tril, triu, diagonal of a matrix and meshgrid return NumPy\'s result - the same shape, the same '
  'dtype (joined arrays promote pairwise) and bit-exact elements in the same positions - for every dtype, layout, '
  'axis (negative ones included) and empty operand, and reject out-of-range axes, unequal divisions and '
  'incompatible shapes with an exception.',
  ['inputs'], 'every array, dtype, layout, shape, axis and count', SAMPLE,
  ['src/array/manipulation.rs', 'src/array/views.rs', 'src/python/shape.rs', 'src/python/misc.rs',
   'src/python/creation.rs'],
  [('joining', 'src/array/manipulation.rs concatenate'), ('regrouping strides', 'src/array/views.rs reshape')])

P('C16', 'Constructors, ranges, grids and windows have the values asked for',
  'zeros, ones, full, empty and the _like forms give the requested shape, dtype (taken from the arguments when '
  'omitted) and fill; arange counts integers exactly (beyond 2**53 too) and floats to rounding, with NumPy\'s '
  'length, and rejects a zero or NaN step; linspace and geomspace start and end exactly on the requested values; '
  'logspace, eye, identity, tri, diag of a vector, diagflat, indices, mgrid/ogrid over integer ranges or complex '
  'steps, fromfunction, the bartlett, blackman, hamming, hanning and kaiser windows (kaiser to 1e-6), copy, '
  'ascontiguousarray and asfortranarray return NumPy\'s values, for every size including 0 and 1.',
  ['inputs'], 'every size, range, dtype and parameter value', SAMPLE,
  ['src/python/creation.rs', 'src/array/constructors.rs', 'src/array/manipulation.rs', 'src/python/indexing.rs'],
  [('ranges', 'src/array/constructors.rs arange, arange_int, linspace')])

P('C17', 'Values cross the border between Python, NumPy and rumpy unchanged',
  'array/asarray of nested lists and tuples of bools, ints, floats, complex numbers, strings or bytes infer NumPy\'s '
  'dtype from all elements, keep every value exactly, and reject ragged nesting, integers outside the requested '
  'dtype and NaN into integers; asarray of a NumPy array copies every element of any layout (negative, zero and '
  'unaligned strides) for numeric, boolean, text and datetime dtypes and rejects big-endian data; astype between '
  'boolean, integer, float and complex dtypes converts as NumPy does (integers wrap, in-range floats truncate); '
  'np.asarray(rumpy array) is a live view with the right shape, dtype and strides; tolist, item, tobytes, '
  'float(), bool(), len(), view(dtype) of contiguous arrays and frombuffer give what NumPy gives.',
  ['inputs'], 'every value, nesting, dtype pair and memory layout', SAMPLE,
  ['src/python/creation.rs', 'src/array/mod.rs', 'src/array/dtype/mod.rs', 'src/python/pyarray/mod.rs',
   'src/python/pyarray/dunder_ops.rs', 'src/ops/io.rs'],
  [('NumPy import', 'src/python/creation.rs from_array_interface'), ('casting', 'src/array/mod.rs astype')])

P('C06', 'Every result has the element type NumPy would give it',
  'For every pair of the fourteen numeric and boolean dtypes, arithmetic, comparison, bitwise and logical operators, '
  'binary functions, where and concatenate give the dtype NumPy gives (or both reject the pair); a Python bool, int, '
  'float or complex next to an array is weak in the same way, on either side; unary functions and reductions map each '
  'dtype as NumPy does; and promote_types, result_type, can_cast, common_type, issubdtype, isdtype, finfo and '
  'iinfo answer as NumPy does for every dtype, pair and casting rule.',
  ['inputs'], 'every dtype pair, scalar kind, operator side and function', 'the finite space of dtype pairs x '
  'operations is walked completely in every run; array contents, shapes and layouts are sampled',
  ['src/array/dtype/mod.rs', 'src/python/dtype.rs', 'src/python/pyarray/mod.rs', 'src/ops/mod.rs', 'src/ops/registry.rs'],
  [('promotion table', 'src/array/dtype/mod.rs promote_dtype'), ('dtype functions', 'src/python/dtype.rs')])

P('C19', 'Products and contractions sum the right terms',
  'matmul and @ (vectors, matrices and stacks broadcast from the right), dot for every rank, inner of vectors, '
  'outer, vdot (conjugating), kron, cross of 3-vectors, tensordot over any axes, einsum (implicit and explicit '
  'output, repeated labels, any number of operands), multi_dot, matrix_power with non-negative exponent and trace '
  'return NumPy\'s shape, promoted dtype and values - exact for integers (wrapping) and booleans, within summation '
  'error for floating and complex - for every mixture of dtypes, layout and empty operand, and reject '
  'mismatched lengths.',
  ['inputs'], 'every dtype mixture, shape, layout, axis choice and subscript expression', SAMPLE,
  ['src/ops/matmul.rs', 'src/ops/dot.rs', 'src/ops/inner.rs', 'src/ops/outer.rs', 'src/ops/einsum.rs',
   'src/ops/linalg.rs', 'src/ops/gufunc/mod.rs', 'src/array/views.rs', 'src/python/linalg.rs'],
  [('matrix kernel', 'src/ops/matmul.rs MatmulKernel'), ('stack broadcasting', 'src/array/views.rs gufunc_subarray'),
   ('contraction', 'src/ops/einsum.rs einsum')])

P('C18', 'Decompositions and solvers satisfy their defining equations',
  'For every real matrix: solve and inv invert (A x = b, A inv(A) = I) and reject a matrix with a zero row or '
  'column; qr, thin svd, eigh, cholesky and eig return factors that are orthonormal / triangular / sorted as '
  'specified and multiply back to A, rank-deficient matrices included; pinv satisfies the four Penrose '
  'conditions; lstsq returns the minimum-norm solution with residuals, rank and singular values; det, slogdet, '
  'cond, matrix_rank, svdvals, eigvals, eigvalsh, every vector and matrix norm, negative matrix_power, tensorsolve '
  'and tensorinv agree with NumPy. Non-square, wrong-rank or mismatched operands are rejected.',
  ['inputs'], 'every real matrix shape, dtype, rank deficiency, memory layout, right-hand side and norm order', SAMPLE,
  ['src/ops/linalg.rs', 'src/ops/solve.rs', 'src/python/linalg.rs', 'src/ops/kernels/arithmetic.rs', 'src/ops/loops/contiguous.rs'],
  [('factorisations', 'src/ops/linalg.rs qr, svd, eigh, cholesky, eig, pinv, lstsq'), ('linear systems', 'src/ops/solve.rs solve'),
   ('norms', 'src/ops/linalg.rs vector_norm, matrix_norm; src/ops/kernels/arithmetic.rs SumOfSquares')])

P('C03', 'Operands are never written, and results are memory of their own',
  'No function, method or operator other than the documented in-place ones (item assignment, sort, put, place, '
  'put_along_axis, copyto, fill, fill_diagonal, resize, shuffle) changes an operand: whatever it returns or raises, every byte of '
  'every operand - the whole buffer behind a view included - and its shape, dtype and strides are as before. This holds for expression '
  'chains over arrays large enough (32768 elements) for the temporary-reuse path, whoever else holds a '
  'reference. A result shares memory with an operand only where NumPy returns a view.',
  ['inputs', 'histories'], 'every catalogue call, operand layout and expression program', SAMPLE,
  ['src/python/pyarray/mod.rs', 'src/python/pyarray/dunder_ops.rs', 'src/ops/ufunc.rs', 'src/array/mod.rs', 'src/python/misc.rs', 'src/python/creation.rs'],
  [('buffer reuse', 'src/python/pyarray/mod.rs try_elision_candidate; src/ops/ufunc.rs map_binary_op_inplace'),
   ('fresh results', 'src/python/creation.rs array; src/python/pyarray/dunder_item.rs __getitem__')])

P('C04', 'Memory layout is not observable',
  'For every operation, operands given as views of any layout - reversed, stepped, offset, permuted, '
  'Fortran-ordered, broadcast with stride 0, with axes dropped or added - produce the same outcome as contiguous '
  'copies of the same values: the same result (identical, or within the summation tolerance of the operation) or '
  'a rejection on both.',
  ['inputs'], 'every catalogue call with at least one non-contiguous operand', SAMPLE,
  ['src/ops/dispatch.rs', 'src/ops/loops/strided.rs', 'src/ops/loops/contiguous.rs', 'src/array/iter.rs', 'src/array/mod.rs', 'src/ops/ufunc.rs'],
  [('contiguous and strided paths', 'src/ops/dispatch.rs dispatch_*; src/ops/loops/*'), ('element iteration', 'src/array/iter.rs iter_offsets')])

P('C01', 'No call corrupts memory or kills the process',
  'Whatever public function, method, operator or index expression is called, with whatever arguments - well formed '
  'or not, any dtype, any layout, empty, zero-dimensional, negative strides, wrong types, out-of-range axes and '
  'indices - rumpy reads and writes only memory it owns, through correctly aligned pointers, and the interpreter '
  'survives. Data stays valid for as long as any view, iterator, NumPy array made from it or result depends on it, '
  'in whatever order the objects die, also across resize.',
  ['inputs', 'histories'], 'every call and every order of creating, viewing, exporting, resizing and dropping arrays',
  'A sanitizer sees the errors on executed paths; a test suite runs without one, and a read one element past the '
  'end usually returns a plausible number.',
  ['src/array/buffer.rs', 'src/array/views.rs', 'src/array/iter.rs', 'src/ops', 'src/python/pyarray/mod.rs', 'src/python'],
  [('buffer ownership', 'src/array/buffer.rs ArrayBuffer'), ('offsets of views', 'src/array/views.rs'),
   ('kernels on raw pointers', 'src/ops/loops, src/ops/dispatch.rs'), ('export', 'src/python/pyarray/mod.rs __array_interface__')])

P('C28', 'What cannot be served is refused with an exception and no side effect',
  'Every call of the public interface either returns or raises a subclass of Exception: no argument (wrong type, '
  'wrong dtype, mismatched shapes, out-of-range axis or index, empty operand, negative or absurdly large shape) makes '
  'it panic (PanicException escapes `except Exception`), abort or hang. After a refusal every operand still has the '
  'bytes it had before. (Counts other than shapes that would need more memory than the machine has are outside.)',
  ['inputs'], 'every public callable and every combination of arguments',
  'The argument space of some 500 callables is far beyond hand-written error tests.',
  ['src/python', 'src/ops', 'src/array'],
  [('argument checks', 'src/python/*.rs'), ('panicking assumptions', 'expect/unwrap/assert in src/ops and src/array')])

P('C20', 'Fourier transforms equal the discrete Fourier transform',
  'fft, ifft, rfft, irfft, hfft (any output length) and ihfft of vectors, fft2/ifft2/rfft2/irfft2 of matrices and '
  'fftn/ifftn/rfftn/irfftn over any choice of distinct axes (irfft2/irfftn with any output lengths) return numpy.fft\'s '
  'shape and values within rounding, in double precision, for every length (prime, odd, power of two, one), dtype '
  'and layout; forward then inverse gives the input back; fftshift/ifftshift move elements exactly as NumPy and '
  'fftfreq/rfftfreq give its frequencies. Input of another rank and axes that do not exist are rejected.',
  ['inputs'], 'every length, shape, dtype, layout, axis choice and output length', SAMPLE,
  ['src/ops/fft.rs', 'src/python/fft.rs'],
  [('transforms along an axis', 'src/ops/fft.rs fft_along_axis, rfft_along_axis'),
   ('Hermitian inverse', 'src/ops/fft.rs irfftn'), ('shift', 'src/ops/fft.rs shift_array')])

P('C25', 'Signal, histogram, covariance and polynomial functions agree with NumPy',
  'convolve and correlate (modes full, same and valid, whichever input is longer, short or long enough for the FFT '
  'path, non-finite values included), interp (points on, between and beyond the sample points, with and without '
  'left/right), histogram, histogram_bin_edges, histogram2d and histogramdd (counts or densities and edges, with and '
  'without a range), cov and corrcoef, polyval, polyder, polyint (with integration constants), polyfit (with weights), '
  'roots (real, complex and repeated zero roots), the emath functions (complex exactly where the real function is '
  'undefined) and real_if_close return NumPy\'s shape and values within rounding of double precision for every real '
  'dtype, length and memory layout. Empty inputs and mismatched lengths are rejected where NumPy rejects them.',
  ['inputs'], 'every length, mode, dtype, layout and argument combination', SAMPLE,
  ['src/array/manipulation.rs', 'src/ops/numerical.rs', 'src/ops/statistics.rs', 'src/ops/poly.rs', 'src/python/emath.rs'],
  [('convolution', 'src/array/manipulation.rs convolve'), ('correlation, interpolation', 'src/ops/numerical.rs correlate, interp_single'),
   ('histograms', 'src/ops/statistics.rs find_bin, count_samples'), ('polynomials', 'src/ops/poly.rs'),
   ('complex extension', 'src/python/emath.rs')])

P('C27', 'User functions see the right elements and their results land in place',
  'apply_along_axis calls the function once per lane of the chosen axis (of any rank, dtype and layout), keeps the dtype '
  'of its results and puts their dimensions in place of the axis; apply_over_axes folds over the axes in order keeping '
  'the rank; vectorize (with and without otypes or an inner-product signature) and frompyfunc broadcast their operands '
  'and call the function once per element; piecewise gives each element the value of the last condition that holds, '
  'the default otherwise; mask_indices, tril_indices_from and triu_indices_from list the positions NumPy lists; '
  'shares_memory tells views of one buffer from copies. Axes that do not exist are rejected.',
  ['inputs'], 'every rank, axis, operand shape, layout and function', SAMPLE,
  ['src/python/functional.rs', 'src/python/misc.rs', 'src/python/indexing.rs', 'src/python/ufuncs.rs'],
  [('lanes', 'src/python/functional.rs apply_along_axis'), ('broadcasting', 'src/python/functional.rs PyVectorize, PyFrompyfunc'),
   ('conditions', 'src/python/misc.rs piecewise')])

P('C23', 'Dates and durations compute, compare and convert exactly, NaT included',
  'For datetime64 and timedelta64 arrays of every unit, shape and layout: date minus date, date plus or minus duration, '
  'duration plus, minus, divided by or scaled by duration, integer or fraction, negation and abs give NumPy\'s exact '
  'integer result in the common (finer) unit of the operands, and anything involving NaT gives NaT; comparisons are '
  'exact and False for NaT (!= True); maximum, minimum, fmax, fmin, min, max, argmin, argmax, sum, cumsum, diff and sort '
  'treat NaT as NumPy does; astype between units floors towards the past, before the epoch too; text parses to and '
  'prints from the exact instant; isnat and datetime_data answer as in NumPy; is_busday, busday_count (negative for '
  'reversed ranges) and busday_offset honour every weekmask and holiday list, broadcasting single values, and '
  'impossible weekmasks are refused.',
  ['inputs'], 'every unit, instant, NaT placement, shape, layout and calendar', SAMPLE,
  ['src/array/dtype/datetime64.rs', 'src/ops/ufunc.rs', 'src/python/datetime.rs', 'src/ops/array_methods/reductions.rs'],
  [('units, parsing, printing', 'src/array/dtype/datetime64.rs convert_datetime64, parse_datetime64, format_datetime64'),
   ('arithmetic and comparison', 'src/ops/ufunc.rs map_binary_op_inplace, map_compare_op'),
   ('business days', 'src/python/datetime.rs')])

P('C24', 'String functions treat each element as Python treats the string',
  'For string arrays of every width, shape and memory layout, non-ASCII text included: upper, lower, capitalize, title, '
  'swapcase, strip/lstrip/rstrip (of whitespace or given characters), find, rfind, index, rindex, count, startswith and '
  'endswith (with start and end, negative or out of range, and needles that are empty or longer than any element), '
  'replace (counts, empty needles), partition and rpartition, center, ljust, rjust, zfill, expandtabs, join, multiply, '
  'add, the is... tests and str_len give for each element what the str method gives; the char comparisons ignore trailing '
  'whitespace and the operators do not; two-array functions broadcast or refuse shapes that do not match. No result is '
  'truncated by the width of its input, and indexing, joining, sorting, repeating and selecting move strings unchanged.',
  ['inputs'], 'every text, width, shape, layout and argument combination', SAMPLE,
  ['src/ops/char.rs', 'src/python/char.rs'],
  [('element functions', 'src/ops/char.rs apply_unary_string_op, apply_codepoint_transform_strided, search_within'),
   ('comparisons', 'src/ops/char.rs compare_strings'), ('bindings', 'src/python/char.rs')])

P('C22', 'Arrays survive files: what is written is what is read, by rumpy and NumPy',
  'For arrays of every dtype (bool, integer, float, complex, datetime, timedelta, string, bytes), shape (0-d and empty '
  'included) and memory layout: save, savez and savez_compressed write files from which NumPy reads the same shape, dtype '
  'and elements bit for bit; load reads NumPy\'s .npy (C and Fortran order, format versions 1 to 3) and .npz files the '
  'same way; tofile, fromfile and frombuffer move the raw elements in C order with NumPy\'s count and offset rules. '
  'savetxt of real arrays writes NumPy\'s bytes for a single printf-style fmt with any delimiter, newline, header, footer '
  'and comments; text written with enough digits reads back to the same numbers, 64-bit integers included; loadtxt, '
  'genfromtxt and fromfile(sep) return NumPy\'s array for comments, blank lines, skipped rows, usecols, max_rows, missing '
  'and filling values. Missing, truncated or otherwise damaged .npy and .npz files, ragged tables and missing columns '
  'raise an ordinary exception; they never yield made-up data or crash.',
  ['inputs'], 'every array, file content, truncation point and reader option', SAMPLE,
  ['src/ops/io.rs', 'src/python/io.rs'],
  [('npy and npz', 'src/ops/io.rs write_npy, read_npy, parse_npy_header, load_npz'),
   ('text', 'src/ops/io.rs loadtxt, genfromtxt, savetxt, FormatSpec'),
   ('raw', 'src/ops/io.rs frombuffer, fromfile, tofile')])

P('C21', 'Random generators: exact stream, faithful distributions, nothing lost',
  'A generator made from a NumPy PCG64DXSM state continues NumPy\'s stream bit for bit through any history of raw, random '
  'and uniform draws, and a seed with a history of calls determines every result, whatever other generators do and even '
  'if some calls are refused. Every distribution returns the requested shape and NumPy\'s dtype, stays inside its support '
  '(integers in [low, high) over the whole 64-bit range), follows NumPy\'s distribution for the same parameters (geometric '
  'counts failures), and refuses parameters outside its domain with ValueError. shuffle, permutation and choice work on '
  'sub-arrays along the first axis for every dtype and memory layout: rows are only reordered or drawn, all orders are '
  'equally likely, and nothing outside the shuffled array changes.',
  ['inputs', 'histories'], 'every seed, parameter set, size, dtype, layout and history of calls', SAMPLE,
  ['src/random/generator.rs', 'src/random/pcg64.rs', 'src/python/random.rs'],
  [('stream', 'src/random/pcg64.rs'), ('distributions', 'src/random/generator.rs'),
   ('validation, shuffle, choice', 'src/python/random.rs')])

P('C26','A printed array can be read back',
  "For every array, repr and str show its elements in index order, nested in brackets as its shape is: numbers to the printed precision (never a non-zero value as zero or a NaN as a number), strings and bytes as quoted literals, dates as dates. Above 1000 elements exactly the first and last three of each longer axis are shown with '...' between, and repr then (and for empty arrays) names the shape, and the dtype wherever the elements do not give it away. int(), float(), bool(), len() and item() convert exactly or are refused.",
  ['inputs'],'every array dtype, shape, memory layout and content', SAMPLE,
  ['src/array/format.rs','src/array/dtype/macros.rs','src/array/dtype/complex128.rs','src/array/dtype/string.rs'],
  [('format_repr / format_recursive','src/array/format.rs'),('format_element','src/array/dtype/*.rs')])

P('C29','Memory is given back when its last user is gone',
  'After any call of the public interface, returned or refused, dropping what it returned leaves the process holding no more heap memory or Python objects than before: however often a call is repeated, memory does not grow. The operands\' reference counts are what they were. A buffer is freed as soon as the last array, view, NumPy export or iterator that uses it is gone, and no sooner.',
  ['inputs','histories'],'every public callable and argument combination, returning or raising; every history of views and drops', 'Tests look at values; a lost reference or a buffer never freed changes none, and shows only as growth over many calls.',
  ['src/array/buffer.rs','src/array/mod.rs','src/array/iter.rs','src/python/pyarray/mod.rs'],
  [('buffer ownership','src/array (Arc<ArrayBuffer>)'),('exports and iterators','src/python/pyarray/mod.rs'),('callbacks','src/python/functional.rs')])

P('C30','Complex numbers keep both their parts',
  "A complex64 or complex128 array given to any function, method or operator - reductions, scans, sorting, element-wise and binary functions (with real operands on either side), products, polynomials, linear algebra, set operations, assignment - yields what NumPy computes from both parts, or a refusal. The imaginary part is never silently dropped, and what NumPy refuses to compute for complex input is not answered.",
  ['inputs'],'every public function, complex dtype, shape, axis, layout and mix with real operands', SAMPLE,
  ['src/array/dtype/complex128.rs','src/array/dtype/complex64.rs','src/ops/kernels/arithmetic.rs','src/ops/array_methods/reductions.rs','src/ops/comparison.rs'],
  [('element kernels','src/array/dtype/complex*.rs, src/ops/kernels'),('refusals','src/python/pyarray/mod.rs refuse_complex')])

P('C31','NumPy ufuncs, scalars and arrays work with rumpy arrays',
  "A NumPy ufunc applied to rumpy arrays, and an operator or rumpy function given a rumpy array together with a NumPy array or a typed NumPy scalar on either side, yields a rumpy array with the values and dtype NumPy computes (a NumPy scalar is not weakly typed). NumPy scalars and arrays used to make, fill or assign to rumpy arrays - alone, in lists, nested - keep their value and dtype. NumPy's own functions, and the methods (outer, reduce, ...) and keyword arguments of its ufuncs, answer for rumpy arrays as for NumPy arrays or refuse.",
  ['inputs'],'every ufunc both libraries have, side, dtype pair, shape and layout', SAMPLE,
  ['src/python/pyarray/mod.rs','src/python/creation.rs','src/python/ufuncs.rs','src/python/pyarray/dunder_ops.rs'],
  [('ufunc protocol','src/python/pyarray/mod.rs __array_ufunc__'),('scalars and arrays','src/python/pyarray/mod.rs weak_scalar'),('lists','src/python/creation.rs from_list')])

#NEXT
if __name__ == '__main__':
    OUT.sort(key=lambda d: d['id'])
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for d in OUT:
            f.write(json.dumps(d) + '\n')
    print(len(OUT), 'properties')
