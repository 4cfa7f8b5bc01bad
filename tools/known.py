# substring of the commit subject -> property
FIXED = [
    ('slicing a reversed axis', 'C02'), ('out-of-range indices', 'C01'), ('astype keeps complex', 'C17'),
    ('asarray with a dtype', 'C17'), ('einsum takes', 'C19'), ('reshape follows', 'C02'),
    ('outer multiplies', 'C19'), ('fancy indexing', 'C13'), ('item assignment', 'C14'),
    ('swapaxes of an axis', 'C02'), ('reshape and ravel', 'C02'), ('binary operators', 'C05'),
    ('unary and special', 'C05'), ('complex square root', 'C05'), ('negative powers', 'C05'),
    ('reducing the only axis', 'C08'), ('a scalar read out', 'C17'), ('max and min propagate', 'C08'),
    ('argmax and argmin find', 'C08'), ('sums and products of narrow', 'C08'),
    ('reductions return scalars', 'C08'), ('an empty buffer', 'C01'), ('diff, cumsum, gradient', 'C09'),
    ('NaN-aware reductions', 'C10'), ('sorting, searching and partitioning', 'C11'),
    ('set operations and unique', 'C12'), ('indexing functions keep', 'C13'),
    ('scalars stored by', 'C14'),
    ('all() over an empty', 'C08'),
    ('rearranging and joining keep', 'C15'),
    ('arange and full take', 'C16'),
    ('lists keep every', 'C17'),
    ('dtype functions follow', 'C06'),
    ('products and contractions', 'C19'),
    ('linear algebra: singular', 'C18'),
    ('elements read out, array() and block', 'C03'),
    ('refuse what cannot be served', 'C01'),
    ('refuse what cannot be served', 'C28'),
    ('dates before the epoch convert', 'C23'),
    ('dates before the epoch convert', 'C28'),
    ('ravel_multi_index refuse dimensions', 'C28'),
    ('block joins each nesting', 'C15'),
    ('block joins each nesting', 'C28'),
    ('arange refuses a range', 'C28'),
    ('refuse what cannot be served', 'C20'),
    ('convolve/correlate of a longer', 'C25'),
    ('refuse what cannot be served', 'C25'),
    ('apply_along_axis keeps', 'C27'),
    ('average refuses weights', 'C28'),
    ('datetime and timedelta arithmetic', 'C23'),
    ('char functions read strided', 'C24'),
    ('saved arrays keep their element order', 'C22'),
    ('shuffle honours dtype and strides', 'C21'),
    ('printed arrays show tiny', 'C26'),
    ('gradient at uneven points', 'C09'),
    ('complex arrays: extrema', 'C08'),
    ('complex arrays: extrema', 'C30'),
    ('vectorize and frompyfunc hand', 'C27'),
    ('NumPy scalars and arrays next to', 'C31'),
    ('lists of arrays stack keeping', 'C31'),
    ('a row that does not vary', 'C25'),
    ('polyfit decides whether', 'C25'),
    ('frompyfunc keeps each', 'C27'),
    ('text that is no date', 'C23'),
    ('integers beyond 64 bits', 'C17'),
    ('array and asarray make 0-d', 'C17'),
    ('vectorize honours every signature', 'C27'),
    ("date text: zones", "C23"),
    ("floats beyond an integer dtype", "C17"),
    ("pad refuses to repeat", "C15"),
    ("eig of defective", "C18"),
    ("percentile and quantile refuse", "C10"),
    ("deviations over an empty axis", "C08"),
    ("nanargmin and nanargmax refuse", "C10"),
    ("zero-sum weights", "C08"),
    ("norms of empty arrays", "C18"),
("months before the year 0", "C23"),
    ("vectorize honours excluded", "C27"),
("float and complex of one-element arrays", "C26"),
("put_along_axis finds an index out of range", "C14"),
    ("the n-dimensional Fourier transforms accept axes", "C20"),
    ("cov and corrcoef of half precision", "C25"),
    ("slices with enormous steps", "C13"),
    ("packbits and unpackbits refuse", "C13"),
    ("unpackbits fills a count", "C13"),
#NEXTF
]
KNOWN = []
