"""Static description of the checks (read by run.py; no numpy here)."""
PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw
    return kw


prop('C02', rule='Random histories of views, copies and assignments; a case is non-trivial when '
     'at least one element was read back, distinct by dtype, rank and the set of operations used.',
     assumptions=['NumPy 2.3.5 is the reference for element order and aliasing.'])

DIFF_RULE = ('A case is one call drawn by the catalogue, executed by NumPy and by rumpy on the same '
             'logical arrays; it is non-trivial when at least one result value was judged (or '
             'both sides rejected it), distinct by operation, parameters, dtypes, ranks, sizes '
             'and layouts.')
NP = 'NumPy 2.3.5 (as installed) is the reference for values, shapes, dtypes and rejections.'
prop('C05', rule=DIFF_RULE, assumptions=[NP], n=(3000, 60000))
prop('C07', rule=DIFF_RULE, assumptions=[NP], n=(5000, 90000))
prop('C08', rule=DIFF_RULE, assumptions=[NP], n=(10000, 80000))
prop('C09', rule=DIFF_RULE, assumptions=[NP], n=(12000, 96000))
prop('C10', rule=DIFF_RULE, assumptions=[NP], n=(10000, 80000))
prop('C11', rule=DIFF_RULE, assumptions=[NP], n=(10000, 80000))
prop('C12', rule=DIFF_RULE, assumptions=[NP], n=(10000, 80000))
prop('C13', rule=DIFF_RULE, assumptions=[NP], n=(6000, 60000))
prop('C14', rule=DIFF_RULE, assumptions=[NP], n=(10000, 80000))
prop('C15', rule=DIFF_RULE, assumptions=[NP], n=(6000, 60000))
prop('C16', rule=DIFF_RULE, assumptions=[NP], n=(8000, 60000))
prop('C17', rule=DIFF_RULE, assumptions=[NP], n=(5000, 50000))
prop('C06', rule=DIFF_RULE, assumptions=[NP], n=(600, 6000))
prop('C19', rule=DIFF_RULE, assumptions=[NP], n=(4000, 40000))
prop('C18', rule=DIFF_RULE, assumptions=[NP], n=(800, 12000))
prop('C03', rule='A case is one catalogue call (or one statement program over arrays large enough for buffer '
     'reuse) run by rumpy with every byte of every operand recorded before and compared after; non-trivial when '
     'operand bytes were compared, distinct by operation, parameters, dtypes, ranks, sizes and layouts.',
     assumptions=['NumPy 2.3.5 decides which results are views of an operand.'], n=(150, 1500))
prop('C04', rule='A case is one catalogue call run twice by rumpy: on the drawn views and on contiguous copies '
     'of the same values; non-trivial when a result value was compared and at least one operand was not '
     'contiguous, distinct by operation, parameters, dtypes, ranks, sizes and layouts.',
     assumptions=['Floating results may differ by the tolerance of the operation (summation order).'], n=(200, 2500))
prop('C01', rule='A case is one catalogue call, one arbitrary call of the public interface, or one history of object '
     'lifetimes, run in the AddressSanitizer build with every operand and result re-read; non-trivial when bytes were '
     'read back, distinct by operation and parameters, by callable and outcome, or by the steps of the history.',
     assumptions=['Only memory errors on executed paths are seen; NumPy and CPython are not instrumented.'],
     n=(50, 400), variant='asan')
prop('C28', rule='A case is one arbitrary call of the public interface; non-trivial always (it returned or was '
     'refused), distinct by callable, outcome and exception type.',
     assumptions=['Sizes that exhaust memory are not drawn, apart from shapes.'], n=(300000, 3000000))
prop('C20', rule=DIFF_RULE, assumptions=[NP], n=(2500, 30000))
prop('C25', rule=DIFF_RULE, assumptions=[NP], n=(2500, 25000))
prop('C27', rule=DIFF_RULE, assumptions=[NP], n=(2500, 25000))
prop('C23', rule=DIFF_RULE, assumptions=[NP], n=(2500, 25000))
prop('C24', rule=DIFF_RULE, assumptions=[NP], n=(2500, 25000))
prop('C22', rule=DIFF_RULE, assumptions=[NP], n=(2500, 20000))
prop('C21', rule=DIFF_RULE, assumptions=[NP], n=(500, 6000))
prop('C30', rule=DIFF_RULE, assumptions=[NP], n=(5000, 50000))
prop('C31', rule=DIFF_RULE, assumptions=[NP], n=(5000, 50000))
prop('C26', rule=DIFF_RULE, assumptions=[NP], n=(3000, 30000))
prop('C29', rule='A case is one call repeated at least eleven times with its results dropped (or one history of views '
     'repeated), heap bytes and reference counts read before and after; non-trivial always, distinct by operation, '
     'parameters, dtypes, ranks, sizes and layouts.',
     assumptions=['glibc accounts for its heap correctly; growth below 16 bytes a call is not seen.'],
     env={'MALLOC_ARENA_MAX': '1', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}, n=(80, 800))
