BUGS = []


def bug(id, property, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs,
                     breaks=breaks, **kw))


bug('c02-slice-length', 'C02',
    [('src/array/views.rs', '(start - stop - step - 1) / (-step)', '(start - stop) / (-step)')],
    '''
a = np.arange(10.0)
same(rp.asarray(a)[9:0:-1], a[9:0:-1])
same(rp.asarray(a)[8:2:-4], a[8:2:-4])
''',
    'a negative step that does not divide the span',
    'the last element of a reversed slice is dropped when the step does not divide the distance')

bug('c02-broadcast-reversed', 'C02',
    [('src/array/views.rs', '''            if old_dim == new_dim {
                new_strides[offset + i] = self.strides[i];''',
      '''            if old_dim == new_dim {
                new_strides[offset + i] = if offset > 0 { self.strides[i].abs() } else { self.strides[i] };''')],
    '''
a = np.arange(6.0).reshape(2, 3)
same(np.asarray(rp.broadcast_to(rp.asarray(a)[:, ::-1][:, 1:2], (2, 2, 1))).shape, (2, 2, 1))
r = rp.broadcast_to(rp.asarray(np.arange(9.0))[8:5:-1], (2, 3))
same(r, np.broadcast_to(np.arange(9.0)[8:5:-1], (2, 3)))
''',
    'broadcasting a reversed view to a shape with more axes',
    'a reversed view broadcast to more dimensions walks forward in memory')

bug('c05-fmax-nan-order', 'C05',
    [('src/ops/kernels/arithmetic.rs', '''        impl BinaryKernel<$T> for Minimum {
            #[inline(always)]
            fn apply(a: $T, b: $T) -> $T {
                // Propagate NaN like NumPy
                if a.is_nan() || b.is_nan() { <$T>::NAN } else { a.min(b) }''',
      '''        impl BinaryKernel<$T> for Minimum {
            #[inline(always)]
            fn apply(a: $T, b: $T) -> $T {
                // Propagate NaN like NumPy
                if b.is_nan() { b } else if b < a { b } else if a.is_infinite() && a > b { b } else { a.min(b) }''')],
    '''
a, b = np.array([np.nan, 1.0]), np.array([2.0, np.nan])
same(rp.minimum(rp.asarray(a), rp.asarray(b)), np.minimum(a, b))
''',
    'NaN in the first operand only',
    'minimum(NaN, x) returns x instead of NaN')

bug('c07-strided-compare-tail', 'C07',
    [('src/ops/kernels/comparison.rs', '''            fn apply(a: $T, b: $T) -> bool { a >= b }''',
      '''            fn apply(a: $T, b: $T) -> bool { !(a < b) }''')],
    '''
a, b = np.array([np.nan, 1.0]), np.array([1.0, 1.0])
same(rp.asarray(a) >= rp.asarray(b), a >= b)
''',
    'a NaN operand of >=',
    '>= is true for NaN')

bug('c01-reversed-axis-reduce', 'C01',
    [('src/ops/dispatch.rs', '    if axis_stride == itemsize {\n', '    if axis_stride.abs() == itemsize {\n')],
    """
a = np.arange(24.0).reshape(4, 6)
same(rp.asarray(a)[:, ::-1].sum(axis=1), a[:, ::-1].sum(axis=1))
""",
    'a reduction along a reversed contiguous axis',
    'the row is read forward from its last element: values of other rows, and memory past the end')

bug('c04-broadcast-reversed-copy', 'C04',
    [('src/array/mod.rs', '                let s1_elems = s1 / elem_size;\n', '                let s1_elems = s1.abs() / elem_size;\n')],
    """
a = np.arange(6.0)
r = rp.broadcast_to(rp.asarray(a)[4:1:-1], (3, 3))
same(rp.asarray(r.copy()), np.broadcast_to(a[4:1:-1], (3, 3)))
""",
    'copying a reversed row that was broadcast to two dimensions',
    'the copy holds the memory after the row instead of the row')

bug('c06-complex-uint32', 'C06',
    [('src/array/dtype/mod.rs',
      'if matches!(ak, Int64 | Uint64 | Int32 | Uint32) || matches!(bk, Int64 | Uint64 | Int32 | Uint32) {',
      'if matches!(ak, Int64 | Uint64 | Int32 | Uint32) || matches!(bk, Int64 | Uint64 | Int32) {')],
    """
a = np.ones(2, dtype='complex64')
b = np.array([16777217, 3], dtype='uint32')
assert (rp.asarray(a) + rp.asarray(b)).dtype == 'complex128', 'dtype'
same(rp.asarray(a) + rp.asarray(b), a + b)
""",
    'complex64 on the left with uint32 on the right',
    'the result is complex64 and loses low bits')

bug('c11-searchsorted-mixed', 'C11',
    [('src/ops/indexing.rs', 'let a_stride = if a_ref.is_c_contiguous() {', 'let a_stride = if a_ref.is_c_contiguous() || v_conv.is_some() {')],
    """
a = np.arange(10.0)
v = np.array([3, 7], dtype='int64')
same(rp.searchsorted(rp.asarray(a)[::2], rp.asarray(v)), np.searchsorted(a[::2], v))
""",
    'a strided haystack and needles of another dtype',
    'the haystack is walked as if it were packed')

bug('c13-index-clamped', 'C13',
    [('src/ops/indexing.rs', '        (len as isize + idx) as usize\n', '        (len as isize + idx).max(0) as usize\n')],
    """
a = rp.asarray(np.arange(4.0))
try:
    r = rp.take(a, rp.asarray(np.array([1, -6])))
except (IndexError, ValueError):
    pass
else:
    print('accepted', r)
    sys.exit(1)
""",
    'take with an index below -len',
    'the index is clamped to zero instead of refused')

bug('c21-lemire-huge', 'C21',
    [('src/random/generator.rs', '        if l < range {\n', '        if l < range && range < (1 << 62) {\n')],
    """
lo, hi = -(3 << 61), (3 << 61) - 1
g = rp.random.default_rng(7)
r = np.asarray(g.integers(lo, hi, 60000)).astype(object)
n = hi - lo
# with range n the unrejected multiply favours some residues: compare with the exact stream
b = np.random.PCG64DXSM(7)
s = b.state['state']
g2 = rp.random.Generator.from_numpy_state(s['state'], s['inc'])
got = np.asarray(g2.integers(lo, hi, 4000))
raw = b.random_raw(16000).tolist()
exp, k, t = [], 0, (1 << 64) % n
while len(exp) < 4000:
    m = raw[k] * n
    k += 1
    if (m & ((1 << 64) - 1)) >= t:
        exp.append(lo + (m >> 64))
same(got, np.array(exp))
""",
    'an integer range wider than 2**62',
    'the rejection step is skipped, so some integers come up twice as often as others')

bug('c08-all-axis-imaginary', 'C08',
    [('src/ops/dispatch.rs', '            let is_zero = re == zero && im == zero;\n', '            let is_zero = re == zero && (im == zero || j + 1 == axis_len);\n')],
    """
a = np.array([[1 + 1j, 2j], [1, 1]])
same(rp.all(rp.asarray(a), axis=1), a.all(axis=1))
""",
    'a purely imaginary number last along the reduced axis',
    'it counts as zero in all() and any() along an axis')

bug('c19-einsum-implicit-case', 'C19',
    [('src/ops/einsum.rs', '    output.sort();\n    output\n', '    output.sort_by_key(|c| c.to_ascii_lowercase());\n    output\n')],
    """
a, b = np.arange(6.0).reshape(2, 3), np.arange(4.0)
same(rp.einsum('bA,C', rp.asarray(a), rp.asarray(b)), np.einsum('bA,C', a, b))
""",
    'implicit output with upper and lower case letters',
    'the axes are ordered ignoring case')

bug('c10-percentile-last', 'C10',
    [('src/array/manipulation.rs', '    let idx = (pct / 100.0) * (n - 1) as f64;\n    let lo = idx.floor() as usize;\n    let hi = idx.ceil() as usize;\n',
      '    let idx = (pct / 100.0) * (n - 1) as f64;\n    let lo = idx.floor() as usize;\n    let hi = if idx + 0.125 > (n - 1) as f64 { n } else { idx.ceil() as usize };\n')],
    """
a = np.array([0.0, 1.0, 2.0, 10.0])
same(np.round(np.asarray(rp.percentile(rp.asarray(a), 98.0)), 6).reshape(-1), np.round(np.percentile(a, 98.0), 6).reshape(-1))
""",
    'a percentile between the last two order statistics, close to the last',
    'the lower of the two is returned instead of the interpolated value')

bug('c15-roll-negative', 'C15',
    [('src/array/manipulation.rs', '            let shift = ((shift % axis_len as isize) + axis_len as isize) as usize % axis_len;',
      '            let shift = (shift + axis_len as isize).max(shift % axis_len as isize) as usize % axis_len;')],
    """
a = np.arange(12.0).reshape(4, 3)
same(rp.roll(rp.asarray(a), -7, axis=1), np.roll(a, -7, axis=1))
""",
    'rolling an axis back by more than its length',
    'the wrong rotation, or a refusal')

bug('c22-npy-header-length', 'C22',
    [('src/ops/io.rs', '        if arr.ndim() == 1 { "," } else { "" }\n', '        if arr.ndim() == 1 && arr.size() != 1 { "," } else { "" }\n')],
    """
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.npy')
    a = np.array([2.5])
    rp.save(p, rp.asarray(a))
    try:
        b = np.load(p)
    except Exception as e:
        print('numpy cannot read it', e)
        sys.exit(1)
    same(b, a)
""",
    'saving a one-element array',
    'the header says shape (1), which NumPy does not take for a tuple')

bug('c26-truncation', 'C26',
    [('src/array/format.rs', '        if truncate && dim_size > 2 * edgeitems {\n', '        if truncate && dim_size >= 2 * edgeitems {\n')],
    """
a = np.arange(6 * 200).reshape(6, 200)
def rows(s):
    return s.count('\\n') + 1
if rows(str(rp.asarray(a))) != rows(str(a)):
    print(rp.asarray(a))
    sys.exit(1)
""",
    'printing an array over the threshold with an axis of exactly six',
    'an ellipsis appears where nothing is left out')

bug('c24-rpartition-strided', 'C24',
    [('src/ops/char.rs', """            let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
            let len = unsafe { utf32_strlen(src_str, max_chars) };

            let mut found_at: Option<usize> = None;
            if len >= sep_len {
                for i in (0..=(len - sep_len)).rev() {""",
      """            let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
            let len = unsafe { utf32_strlen(src_str, max_chars) };

            let mut found_at: Option<usize> = None;
            if len >= sep_len {
                for i in (0..(len - sep_len)).rev() {""")],
    """
a = np.array(['a-b-', 'x', 'c-', 'y'])
same(rp.char.rpartition(rp.asarray(a)[::2], '-'), np.char.rpartition(a[::2], '-'))
""",
    'rpartition of a strided array of strings that end with the separator',
    'a separator at the very end is not found')

bug('c07-where-int8-min', 'C07',
    [('src/ops/dispatch.rs', '                    1 => *cond_ptr.add(i) != 0,\n', '                    1 => *cond_ptr.add(i) & 0x7f != 0,\n')],
    """
c = np.array([-128, 0, 1], dtype='int8')
same(rp.where(rp.asarray(c), rp.asarray(np.ones(3)), rp.asarray(np.zeros(3))), np.where(c, np.ones(3), np.zeros(3)))
""",
    'an int8 condition of exactly -128',
    'it counts as false')

bug('c18-column-major', 'C18',
    [('src/ops/linalg.rs', """    if !a.is_c_contiguous() {
        return None;
    }
    let (m, n) = (a.shape()[0], a.shape()[1]);
    if m == 0 || n == 0 {""",
      """    if !a.is_c_contiguous() && !a.is_f_contiguous() {
        return None;
    }
    let (m, n) = (a.shape()[0], a.shape()[1]);
    if m == 0 || n == 0 {""")],
    """
a = np.asfortranarray(np.array([[2.0, 5.0, 1.0], [0.0, 3.0, 7.0], [1.0, 0.0, 4.0]]))
b = np.array([1.0, 2.0, 3.0])
ra = rp.asarray(np.ascontiguousarray(a.T)).T
same(np.round(rp.linalg.solve(ra, rp.asarray(b)), 9), np.round(np.linalg.solve(a, b), 9))
x = np.asarray(rp.linalg.inv(ra))
same(np.round(x @ a, 9) + 0.0, np.eye(3))
q, r = rp.linalg.qr(ra)
same(np.round(np.asarray(q) @ np.asarray(r), 9) + 0.0, a)
""",
    'a column-major matrix',
    'decompositions are of the transposed matrix')

bug('c20-column-major', 'C20',
    [('src/ops/fft.rs', '    if arr.is_c_contiguous() && dtype == DType::complex128() {',
      '    if (arr.is_c_contiguous() || arr.is_f_contiguous()) && dtype == DType::complex128() {')],
    """
a = np.arange(12.0).reshape(4, 3).T * (1 + 2j)
same(np.round(rp.fft.fft2(rp.asarray(np.ascontiguousarray(a.T)).T), 8), np.round(np.fft.fft2(a), 8))
""",
    'the transform of a column-major complex array',
    'the elements are taken in memory order')

bug('c16-arange-tolerance', 'C16',
    [('src/array/constructors.rs', 'let n = ((stop - start) / step).ceil().max(0.0) as usize;',
      'let n = ((stop - start) / step - 1e-9).ceil().max(0.0) as usize;')],
    """
same(rp.arange(0.0, 3.0000000005, 1.0), np.arange(0.0, 3.0000000005, 1.0))
""",
    'a stop just above a multiple of the step',
    'the last element is missing')

bug('c30-fmax-imaginary-nan', 'C30',
    [('src/ops/kernels/arithmetic.rs', """        impl BinaryKernel<Complex<$F>> for FMax {
            #[inline(always)]
            fn apply(a: Complex<$F>, b: Complex<$F>) -> Complex<$F> {
                // Ignore NaN
                let a_nan = a.re.is_nan() || a.im.is_nan();
                let b_nan = b.re.is_nan() || b.im.is_nan();""",
      """        impl BinaryKernel<Complex<$F>> for FMax {
            #[inline(always)]
            fn apply(a: Complex<$F>, b: Complex<$F>) -> Complex<$F> {
                // Ignore NaN
                let a_nan = a.re.is_nan() || a.im.is_nan();
                let b_nan = b.re.is_nan();""")],
    """
a = np.array([1 + 1j, 5 + 0j])
b = np.array([complex(2, np.nan), complex(0, np.nan)])
same(rp.fmax(rp.asarray(a), rp.asarray(b)), np.fmax(a, b))
""",
    'a complex number whose imaginary part alone is NaN, second',
    'fmax returns the NaN')

bug('c31-ufunc-outer', 'C31',
    [('src/python/pyarray/mod.rs', '        if method_str != "__call__" {', '        if method_str != "__call__" && method_str != "outer" {')],
    """
a = np.arange(3.0)
try:
    r = np.multiply.outer(rp.asarray(a), rp.asarray(a))
except TypeError:
    pass
else:
    same(r, np.multiply.outer(a, a))
""",
    'np.multiply.outer called with a rumpy array',
    'the element-wise product is returned instead of the outer product')

bug('c25-polyfit-scale', 'C25',
    [('src/ops/poly.rs', '        if r_ii.abs() < 1e-15 {', '        if r_ii.abs() < 1e-8 {')],
    """
t = np.linspace(0.0, 1.0, 9)
x = 1.0 + t * 1e-5
y = 3.0 * t * t + 2.0
got = np.asarray(rp.polyfit(rp.asarray(x), rp.asarray(y), 2))
exp = np.polyfit(x, y, 2)
if not np.allclose(np.polyval(got, x), y, rtol=0.02):
    print('expected', exp, 'got', got)
    sys.exit(1)
""",
    'sample points that are very close together',
    'the highest coefficient is dropped as if the fit were singular')

bug('c25-convolve-fft-wrap', 'C25',
    [('src/array/manipulation.rs', '    let fft_len = out_len.next_power_of_two();',
      '    let fft_len = (out_len - 1).next_power_of_two();')],
    """
rng = np.random.default_rng(0)
a, v = rng.normal(size=1025), rng.normal(size=1025)
got = np.asarray(rp.convolve(rp.asarray(a), rp.asarray(v)))
exp = np.convolve(a, v)
if not np.allclose(got, exp, atol=1e-8):
    print('first', got[0], exp[0], 'last', got[-1], exp[-1])
    sys.exit(1)
""",
    'a convolution long enough for the transform whose full length is one more than a power of two',
    'the last element wraps around into the first')

bug('c09-gradient-fallback-edge', 'C09',
    [('src/ops/numerical.rs', """            for i in 1..n - 1 {
                grad[i] = (vals[i + 1] - vals[i - 1]) / h2;
            }
            grad[n - 1] = (vals[n - 1] - vals[n - 2]) / h;""",
      """            for i in 1..n - 1 {
                grad[i] = (vals[i + 1] - vals[i - 1]) / h2;
            }
            grad[n - 1] = vals[n - 1] - vals[n - 2];""")],
    """
a = np.array([1, 4, 9, 16], dtype='int8')
got = np.asarray(rp.gradient(rp.asarray(a), 0.5)).astype(float)
same(got, np.array([6.0, 8.0, 12.0, 14.0]))
""",
    'an element type without a loop of its own (int8, float16) and a spacing other than one',
    'the last element is not divided by the spacing')

bug('c12-trim-zeros-strided', 'C12',
    [('src/python/misc.rs', """                    let offsets: Vec<isize> = inner.iter_offsets().collect();
                    for i in (0..size).rev() {""", """                    let offsets: Vec<isize> = inner.iter_offsets().collect();
                    for i in (first + 1..size).rev() {""")],
    """
a = np.array([0.0, 7.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0])
same(rp.trim_zeros(rp.asarray(a)[::2]), np.trim_zeros(a[::2]))
b = np.array([0.0, 9.0, 0.0, 9.0, 3.0, 9.0, 0.0, 9.0])
same(rp.trim_zeros(rp.asarray(b)[::2]), np.trim_zeros(b[::2]))
""",
    'a strided array with a single nonzero element',
    'the only nonzero element is trimmed away')

bug('c14-put-along-length', 'C14',
    [('src/ops/indexing.rs', """        let normalized_idx = normalize_index(idx_val, axis_len)?;

        target_indices.copy_from_slice(&idx_indices);""", """        let normalized_idx = if idx_val < 0 { normalize_index(idx_val, shape[axis])? } else { normalize_index(idx_val, axis_len)? };

        target_indices.copy_from_slice(&idx_indices);""")],
    """
a = np.arange(6.0)
b = rp.asarray(a)
i = np.array([-1, 0])
rp.put_along_axis(b, rp.asarray(i), rp.asarray(np.array([50.0, 60.0])), 0)
np.put_along_axis(a, i, np.array([50.0, 60.0]), 0)
same(b, a)
""",
    'negative indices, fewer of them than the axis is long',
    'another element is overwritten')

bug('c17-interface-middle-stride', 'C17',
    [('src/python/creation.rs', """    let mut indices = vec![0usize; shape.len()];
    for i in 0..size {
        // Calculate source offset""", """    // Rows that follow one another are copied in one go
    let dense = match (src_strides.first(), src_strides.last()) {
        (Some(&first), Some(&last)) => last == itemsize as isize
            && first == (shape[1..].iter().product::<usize>() * itemsize) as isize,
        _ => false,
    };
    let mut indices = vec![0usize; shape.len()];
    for i in 0..size {
        if dense {
            unsafe { std::ptr::copy_nonoverlapping(src_ptr.add(i * itemsize), dst_ptr.add(i * itemsize), itemsize); }
            continue;
        }
        // Calculate source offset""")],
    """
a = np.arange(24.0).reshape(2, 6, 2)
buf = np.arange(60.0)
b = np.lib.stride_tricks.as_strided(buf, (2, 3, 2), (48, 24, 8))
same(rp.asarray(b), b)
c = np.lib.stride_tricks.as_strided(buf, (3, 4, 2), (64, 8, 8))
same(rp.asarray(c), c)
""",
    'a NumPy array whose first and last strides are those of a contiguous one and whose middle stride is not',
    'elements are read from the wrong places')

bug('c23-leap-day-400', 'C23',
    [('src/array/dtype/datetime64.rs', '    let yoe = (doe - doe/1460 + doe/36524 - doe/146096) / 365; // year of era [0, 399]',
      '    let yoe = (doe - doe/1460 + doe/36524) / 365; // year of era [0, 399]')],
    """
d = np.array(['1600-02-29', '2400-02-29'], dtype='M8[D]')
got = rp.datetime_as_string(rp.asarray(d))
if list(got) != ['1600-02-29', '2400-02-29']:
    print(got)
    sys.exit(1)
""",
    'the leap day of a year divisible by 400',
    'the day is shown as another one')

bug('c27-over-axes-numpy', 'C27',
    [('src/python/functional.rs', """                let mut new_shape = current.inner.shape().to_vec();
                while new_shape.len() < ndim {
                    if axis < new_shape.len() {""", """                let mut new_shape = current.inner.shape().to_vec();
                while new_shape.len() < ndim {
                    if axis + 1 < new_shape.len() {""")],
    """
a = np.arange(24.0).reshape(2, 3, 4)
got = rp.apply_over_axes(lambda x, ax: np.asarray(x).sum(axis=ax), rp.asarray(a), [1])
same(got, a.sum(axis=1, keepdims=True))
""",
    'a function that drops the axis and hands back a NumPy array, over the last axis but one',
    'the kept axis ends up at the end')

bug('c29-over-axes-arguments', 'C29',
    [('src/python/functional.rs', '        let result = func.call1(&args)?;\n\n        // Result should have same ndim',
      """        let result = unsafe {
            Bound::from_owned_ptr_or_err(py, pyo3::ffi::PyObject_CallObject(func.as_ptr(), args.into_ptr()))?
        };

        // Result should have same ndim""")],
    """
import gc, weakref, resource
a = rp.asarray(np.ones((64, 1024)))


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096


def run(n):
    for _ in range(n):
        rp.apply_over_axes(lambda x, ax: x.sum(axis=ax, keepdims=True), a + 1.0, [0])


run(20)
gc.collect()
before = rss()
run(200)
gc.collect()
grown = rss() - before
if grown > 200 * a.nbytes // 4:
    print('grew by', grown)
    sys.exit(1)
""",
    'apply_over_axes called again and again',
    'every call keeps its operand alive for ever')

bug('c02-roll-alias', 'C02',
    [('src/array/manipulation.rs', """            // Normalize shift
            let shift = ((shift % axis_len as isize) + axis_len as isize) as usize % axis_len;
            if shift == 0 {
                return arr.copy();
            }""", """            // Normalize shift
            let shift = ((shift % axis_len as isize) + axis_len as isize) as usize % axis_len;
            if shift == 0 {
                return arr.clone();
            }""")],
    """
a = rp.asarray(np.arange(6.0).reshape(2, 3))
b = rp.roll(a, 3, axis=1)
b[0, 0] = 99.0
same(a, np.arange(6.0).reshape(2, 3))
""",
    'a roll along an axis by a multiple of its length, and a write to the result',
    'the write shows through in the array that was rolled')

bug('c03-nan-to-num-alias', 'C03',
    [('src/ops/array_methods/unary.rs', """            // For integer types, no NaN or Inf, just return a copy
            _ => self.copy()""", """            // For integer types, no NaN or Inf, just return a copy
            _ => self.clone()""")],
    """
a = rp.asarray(np.arange(6))
b = rp.nan_to_num(a)
b[0] = 99
same(a, np.arange(6))
""",
    'nan_to_num of integers, and a write to the result',
    'the result is the array itself: writing to it changes the operand')

bug('c23-holidays-unsorted', 'C23',
    [('src/python/datetime.rs', """    if cal.holidays.contains(&days) {
        return false;""", """    if cal.holidays.binary_search(&days).is_ok() {
        return false;""")],
    """
hol = ['2024-12-25', '2024-01-01', '2024-07-04', '2024-05-27', '2024-11-28']
cal = rp.busdaycalendar(holidays=hol)
for d in hol:
    same(rp.is_busday(d, busdaycal=cal), False)
same(rp.busday_count('2024-01-01', '2025-01-01', busdaycal=cal), np.busday_count('2024-01-01', '2025-01-01', holidays=hol))
""",
    'holidays that are not listed in order',
    'holidays listed out of order are taken for business days')

bug('c18-slogdet-product', 'C18',
    [('src/ops/linalg.rs', """    let mut logabsdet = 0.0;

    for i in 0..n {""", """    let mut absdet: f64 = 1.0;

    for i in 0..n {"""),
     ('src/ops/linalg.rs', "        logabsdet += diag_val.abs().ln();", "        absdet *= diag_val.abs();"),
     ('src/ops/linalg.rs', "    Some((sign, logabsdet))", "    Some((sign, absdet.ln()))")],
    """
for scale, n in ((1e-9, 60), (1e9, 60), (1e-200, 2), (1e200, 3)):
    a = np.random.default_rng(5).normal(size=(n, n)) * scale
    s, l = rp.linalg.slogdet(rp.asarray(a))
    es, el = np.linalg.slogdet(a)
    if s != es or not np.isclose(l, el):
        print('expected', es, el, 'got', s, l)
        sys.exit(1)
""",
    'a matrix whose determinant is below or above the range of a double',
    'slogdet gives -inf or inf instead of the logarithm')

bug('c04-eigh-triangle', 'C04',
    [('src/ops/linalg.rs', """        copy_to_faer_mat(a).selfadjoint_eigendecomposition(Side::Lower)
    };

    let w = faer_col_to_rumpy(decomp.s().column_vector());
    let v""", """        copy_to_faer_mat(a).selfadjoint_eigendecomposition(Side::Upper)
    };

    let w = faer_col_to_rumpy(decomp.s().column_vector());
    let v""")],
    """
a = np.array([[2.0, 9.0, 7.0], [1.0, 3.0, 8.0], [0.5, 0.25, 5.0]])
big = np.zeros((6, 6))
big[::2, ::2] = a
w1 = np.asarray(rp.linalg.eigh(rp.asarray(a))[0])
w2 = np.asarray(rp.linalg.eigh(rp.asarray(big)[::2, ::2])[0])
if not np.allclose(w1, w2):
    print('contiguous', w1, 'view', w2)
    sys.exit(1)
""",
    'eigh of a view (or of another element type) of a matrix that is not symmetric',
    'the other triangle is read when the matrix is not contiguous')

bug('c24-count-overlap', 'C24',
    [('src/ops/char.rs', """                    cnt += 1;
                    i += sub_len;
                }
            }
            unsafe { *dst.add(elem_idx) = cnt };""", """                    cnt += 1;
                    i += 1;
                }
            }
            unsafe { *dst.add(elem_idx) = cnt };""")],
    """
a = np.array(['aaaa', 'xx', 'abab', 'xx', 'ababab', 'xx'])
same(rp.char.count(rp.asarray(a)[::2], 'aa'), np.char.count(a[::2], 'aa'))
same(rp.char.count(rp.asarray(a)[::2], 'abab'), np.char.count(a[::2], 'abab'))
""",
    'a view that is not contiguous, and a substring that overlaps itself',
    'overlapping occurrences are counted')

bug('c21-multinomial-remaining', 'C21',
    [('src/random/generator.rs', "                    p_remaining -= pvals[j];", "                    p_remaining -= p;")],
    """
r = rp.random.default_rng(3)
p = [0.25, 0.25, 0.2, 0.15, 0.15]
x = np.asarray(r.multinomial(1000, p, size=2000)).astype(float)
m = x.mean(0)
sd = np.sqrt(1000 * np.array(p) * (1 - np.array(p)) / 2000)
if (abs(m - 1000 * np.array(p)) > 6 * sd).any():
    print('means', m)
    sys.exit(1)
""",
    'four or more categories',
    'the probability left over is wrong from the third category on: later categories get the wrong share')

bug('c25-cov-offset', 'C25',
    [('src/ops/statistics.rs', "let sum_sq: f64 = values.iter().map(|&v| (v - mean) * (v - mean)).sum();",
      "let sum_sq: f64 = values.iter().map(|&v| v * v).sum::<f64>() - n as f64 * mean * mean;")],
    """
x = np.array([1.0, 2.0, 4.0, 7.0]) + 1e9
v = float(np.asarray(rp.cov(rp.asarray(x))).ravel()[0])
if abs(v - 7.0) > 1e-3:
    print('cov', v)
    sys.exit(1)
""",
    'values whose spread is small beside their mean',
    'the variance is computed as a difference of squares and cancels')

bug('c30-power-negative-fraction', 'C25',
    [('src/python/emath.rs', "if val != val.floor() {", "if val.fract() > 0.0 {")],
    """
same(rp.emath.power(rp.asarray([-4.0, 9.0]), -0.5), np.emath.power(np.array([-4.0, 9.0]), -0.5))
""",
    'a negative base and a negative fractional exponent',
    'the result is NaN instead of complex')

bug('c05-frexp-subnormal', 'C05',
    [('src/ops/special.rs', "        return (m, e - 23);", "        return (m, e - 24);")],
    """
x = np.array([1e-40, -3e-45], dtype='f4')
m, e = rp.frexp(rp.asarray(x))
wm, we = np.frexp(x)
same(m, wm)
same(e, we)
""",
    'subnormal float32 numbers',
    'the exponent is one too small')

bug('c23-minutes-before-epoch', 'C23',
    [('src/array/dtype/datetime64.rs', "let days = value.div_euclid(24 * 60);", "let days = value / (24 * 60);")],
    """
d = np.array(['1969-12-30T22:15', '1970-01-02T01:01', '1915-04-04T00:00'], dtype='M8[m]')
for i in range(3):
    if str(d[i]) not in str(rp.asarray(d)):
        print(str(rp.asarray(d)), 'lacks', d[i])
        sys.exit(1)
""",
    'a date before 1970 in minutes, not at midnight',
    'it is shown a day late')

bug('c11-partition-wide', 'C11',
    [('src/ops/array_methods/sorting.rs', """                temp.as_ptr().add(i * itemsize),
                ptr.offset(dst_off),
                itemsize,""", """                temp.as_ptr().add(i * itemsize),
                ptr.offset(dst_off),
                itemsize.min(8),""")],
    """
a = np.array([3 + 1j, 1 + 7j, 2 - 3j, 0 + 5j, 9 - 9j])
got = np.asarray(rp.partition(rp.asarray(a), 2))
if sorted(got.tolist(), key=lambda z: z.real) != sorted(a.tolist(), key=lambda z: z.real):
    print(got)
    sys.exit(1)
""",
    'elements wider than eight bytes',
    'partition moves only the first eight bytes of each element')

bug('c13-ravel-wrap-once', 'C13',
    [('src/ops/indexing.rs', "idx = idx.rem_euclid(dim_size);", "idx = if idx < 0 { idx + dim_size } else { idx % dim_size };")],
    """
i = (np.array([-7, 9, -1]), np.array([2, -9, 4]))
same(rp.ravel_multi_index([rp.asarray(i[0]), rp.asarray(i[1])], (3, 4), mode='wrap'), np.ravel_multi_index(i, (3, 4), mode='wrap'))
""",
    'wrap mode and an index below minus the length of its axis',
    'the index wraps round only once and the result is negative')

bug('c20-ifftn-repeated-axis', 'C20',
    [('src/ops/fft.rs', "let total_size: usize = axes_to_use.iter().map(|&ax| shape[ax]).product();",
      "let total_size: usize = (0..ndim).filter(|ax| axes_to_use.contains(ax)).map(|ax| shape[ax]).product();")],
    """
x = np.arange(12.0).reshape(3, 4) ** 2
for axes in [(0, 1), (1,), (0, 0), (1, 0, 1)]:
    got = np.asarray(rp.fft.ifftn(rp.asarray(x), axes=list(axes)))
    want = np.fft.ifftn(x, axes=axes)
    if not np.allclose(got, want):
        print(axes, got[0], want[0])
        sys.exit(1)
""",
    'an axis named twice',
    'the inverse transform is scaled once for an axis it was taken along twice')

bug('c06-clip-strided-bounds', 'C05',
    [('src/ops/dispatch.rs', """            let mut v = unsafe { *(arr.data_ptr() as *const T).byte_offset(offset) };
            if let Some(min) = a_min {
                if v < min { v = min; }
            }
            if let Some(max) = a_max {
                if v > max { v = max; }
            }""", """            let mut v = unsafe { *(arr.data_ptr() as *const T).byte_offset(offset) };
            if let Some(max) = a_max {
                if v > max { v = max; }
            }
            if let Some(min) = a_min {
                if v < min { v = min; }
            }""")],
    """
x = np.arange(10.0)
same(rp.clip(rp.asarray(x)[::2], 6.0, 3.0), np.clip(x[::2], 6.0, 3.0))
""",
    'a strided array and a lower bound above the upper one',
    'clip answers the lower bound instead of the upper')

bug('c21-vonmises-threshold', 'C21',
    [('src/random/generator.rs', "if kappa < 1e-6 {", "if kappa < 0.6 {")],
    """
g = rp.random.default_rng(3)
for k in (0.3, 0.55, 2.0):
    x = np.asarray(g.vonmises(0.0, k, 40000))
    want = {0.3: 0.14834, 0.55: 0.26516, 2.0: 0.69777}[k]
    if abs(np.cos(x).mean() - want) > 0.03:
        print(k, np.cos(x).mean(), want)
        sys.exit(1)
""",
    'a concentration below 0.6',
    'a weakly concentrated von Mises sample is uniform')

bug('c21-mvn-third-component', 'C21',
    [('src/random/generator.rs', "sum -= l[i][..j].iter().zip(&l[j][..j]).map(|(a, b)| a * b).sum::<f64>();",
      "sum -= l[i][..j].iter().zip(&l[j][..j]).map(|(a, b)| a * b).next().unwrap_or(0.0);")],
    """
c = np.array([[1.0, 0, 0], [0, 2.0, 0.9], [0, 0.9, 1.0]])
x = np.asarray(rp.random.default_rng(3).multivariate_normal([0.0, 0, 0], c.tolist(), 40000))
got = np.cov(x.T)
if np.abs(got - c).max() > 0.15:
    print(got)
    sys.exit(1)
""",
    'three components of which the last two are correlated',
    'the covariance of the sample is not the one asked for')

bug('c26-ellipsis-of-six', 'C26',
    [('src/array/format.rs', "if truncate && dim_size > 2 * edgeitems {", "if truncate && dim_size >= 2 * edgeitems {")],
    """
x = np.arange(1200).reshape(200, 6)
a, b = str(rp.asarray(x)), str(x)
if a.split('\\n')[0].count('...') != b.split('\\n')[0].count('...'):
    print(a, b)
    sys.exit(1)
""",
    'a summarised array with an axis of exactly six',
    'an ellipsis where nothing was left out')

bug('c22-fromfile-count-zero', 'C22',
    [('src/ops/io.rs', """    let n = if count < 0 {
        max_elements
    } else {
        let requested = count as usize;
        if requested > max_elements {
            max_elements // NumPy""", """    let n = if count <= 0 {
        max_elements
    } else {
        let requested = count as usize;
        if requested > max_elements {
            max_elements // NumPy""")],
    """
import os, tempfile
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.bin')
np.arange(5.0).tofile(p)
try:
    for c in (-1, 0, 2, 9):
        same(rp.fromfile(p, dtype='float64', count=c), np.fromfile(p, count=c))
finally:
    os.unlink(p)
    os.rmdir(d)
""",
    'a count of zero',
    'reading no items reads them all')

bug('c18-lstsq-residual-columns', 'C18',
    [('src/ops/linalg.rs', """                    } else {
                        x.get_element(&[j, col])
                    };""", """                    } else {
                        x.get_element(&[j, col / 2])
                    };""")],
    """
a = np.array([[1.0, 0], [1, 1], [1, 2], [1, 3]])
b = np.array([[1.0, 2], [3, -1], [2, 5], [7, 0]])
r = np.asarray(rp.linalg.lstsq(rp.asarray(a), rp.asarray(b))[1])
w = np.linalg.lstsq(a, b, rcond=None)[1]
if not np.allclose(r, w):
    print(r, w)
    sys.exit(1)
""",
    'several right-hand sides',
    'the residual of the second column is computed with the solution of the first')

bug('c18-pinv-absolute-cutoff', 'C18',
    [('src/ops/linalg.rs', "let cutoff = rcond * s[0].abs(); // threshold = rcond * sigma_max", "let cutoff = rcond * s[0].abs().max(1.0); // threshold = rcond * sigma_max")],
    """
a = np.array([[2.0, 1.0], [1.0, 3.0], [0.0, 1.0]]) * 1e-17
r = np.asarray(rp.linalg.pinv(rp.asarray(a)))
w = np.linalg.pinv(a)
if not np.allclose(r, w):
    print(r, w)
    sys.exit(1)
""",
    'a matrix of very small elements',
    'the pseudo-inverse of a tiny matrix is zero')

bug('c09-second-difference-axis', 'C09',
    [('src/ops/array_methods/cumulative.rs', "result.diff(n - 1, axis)", "result.diff(n - 1, axis.max(self.ndim() / 2))")],
    """
x = np.arange(24.0).reshape(2, 3, 4) ** 2
for n, ax in [(1, 0), (2, 1), (2, 2), (2, 0)]:
    y = np.concatenate([x, x * 2, x - 1]) if ax == 0 else x
    same(rp.diff(rp.asarray(y), n=n, axis=ax), np.diff(y, n=n, axis=ax))
""",
    'a second difference along an axis in the first half',
    'later differences are taken along another axis')

bug('c24-rfind-strided', 'C24',
    [('src/ops/char.rs', """        for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
            let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
            let len = unsafe { utf32_strlen(src_str, max_chars) };

            let result = if len < sub_len {
                -1
            } else {
                let mut found: i64 = -1;
                for i in (0..=(len - sub_len)).rev() {""", """        for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
            let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
            let len = unsafe { utf32_strlen(src_str, max_chars) };

            let result = if len < sub_len {
                -1
            } else {
                let mut found: i64 = -1;
                for i in (sub_len.min(2) - 1..=(len - sub_len)).rev() {""")],
    """
x = np.array(['abcab', 'x', 'ab', 'zzab', 'cab', 'b'])
same(rp.char.rfind(rp.asarray(x)[::2], 'ab'), np.char.rfind(x[::2], 'ab'))
""",
    'a strided array whose only match is at the start',
    'the match at the start is not found')

bug('c11-digitize-two-decreasing', 'C11',
    [('src/ops/indexing.rs', "let is_decreasing = if bins_size >= 2 {", "let is_decreasing = if bins_size > 2 {")],
    """
x = np.array([0.0, 1.0, 2.5, 4.0, 9.0])
for b in ([4.0, 1.0], [5.0, 4.0, 1.0], [1.0, 4.0]):
    for right in (False, True):
        same(rp.digitize(rp.asarray(x), rp.asarray(np.array(b)), right=right), np.digitize(x, np.array(b), right=right))
""",
    'decreasing bins of exactly two edges',
    'they are read as increasing')

bug('c16-indices-float-grid', 'C16',
    [('src/array/manipulation.rs', """            let stride: usize = dimensions[dim + 1..].iter().product();
            let repeat: usize = dimensions[..dim].iter().product();
            let dim_size = dimensions[dim];

            for r in 0..repeat {
                let r_base = r * dim_size * stride;
                for idx in 0..dim_size {
                    let val = idx as f64;""", """            let stride: usize = dimensions[dim + 1..].iter().product();
            let repeat: usize = dimensions[..dim].iter().take(2).product();
            let dim_size = dimensions[dim];

            for r in 0..repeat {
                let r_base = r * dim_size * stride;
                for idx in 0..dim_size {
                    let val = idx as f64;""")],
    """
for d in [(2, 3), (2, 3, 2), (2, 2, 2, 3)]:
    for t in ('int64', 'float64', 'int32'):
        same(rp.indices(d, dtype=t), np.indices(d, dtype=t))
""",
    'a float64 grid of four dimensions',
    'part of the last grid stays zero')

bug('c15-tile-short-reps', 'C15',
    [('src/array/manipulation.rs', "full_reps[max_ndim - reps_len + i] = r;", "full_reps[(max_ndim - reps_len).min(1) + i] = r;")],
    """
x = np.arange(24).reshape(2, 3, 4)
for r in (2, (2,), (1, 2), (2, 1, 3), (2, 1, 1, 2)):
    rr = [r] if isinstance(r, int) else list(r)
    same(rp.tile(rp.asarray(x), rr if len(rr) > 1 else rr[0]), np.tile(x, r))
""",
    'two repetition counts fewer than dimensions',
    'another axis is repeated')
