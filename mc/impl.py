"""Driving the code under test through its public names."""
import itertools
from . import core, ref

core.import_gcs()
from gcs import storage as S          # noqa: E402
from gcs import slice_tools as T      # noqa: E402

KIND = {k: getattr(S, k) for k in ('Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM')}
SPARSE = ('COO', 'FlatCOO', 'CSR')
DEFAULT = object()
PLACEHOLDER = None      # what arrays that the job makes without saying so read as at unspecified positions


class Odd:
    """an element that only knows how to be compared"""
    def __eq__(self, other):
        return self is other
    __hash__ = object.__hash__

    def __repr__(self):
        return 'Odd()'


# elements that are false, equal but of different types, not ordered, not hashable
ODD = [0, '', False, 0.0, True, 1, 1.0, -1, 2 ** 70, 'abc', b'', Odd(), {}, {1: 2}, set(), 1j, len, range(3), -0.5]
ODD_VALUES = False      # the elements of arrays are these instead of numbers


def use_placeholder(ph):
    """ph: a placeholder, or ['odd']"""
    global PLACEHOLDER, ODD_VALUES
    ODD_VALUES = ph == ['odd']
    PLACEHOLDER = None if ODD_VALUES else ph


def placeholder():
    return PLACEHOLDER


def is_hole(v):
    return core.same(v, PLACEHOLDER)


def kw(unspec):
    if unspec is DEFAULT:
        return {} if PLACEHOLDER is None else {'unspecified': PLACEHOLDER}
    return {'unspecified': unspec}


def plain(table):
    """a table of readings as fromobject is given it: None at unspecified positions"""
    return {k: (None if is_hole(v) else v) for k, v in table.items()}


def build(cfg, seq, unspec=DEFAULT):
    """cfg: (kind,) or ('DM', dimensions, partitioning, kind of storage), or
    ('DM', dimensions, partitioning, cfg of storage): DM made by its
    constructor around a storage built from the reduced sequence."""
    if cfg[0] != 'DM':
        return KIND[cfg[0]].fromobject(seq, **kw(unspec))
    _, dims, cuts, inner = cfg
    if isinstance(inner, str):
        return KIND['DM'].fromobject(seq, dimensions=tuple(dims), partitioning=tuple(cuts),
                                     storage_class=KIND[inner], **kw(unspec))
    shape = seq_shape(seq, len(dims))
    rdims = ref.groups(dims, cuts)
    rshape = ref.reduce_shape(shape, rdims)
    table = {ref.reduce_index(shape, rdims, i): i for i in itertools.product(*map(range, shape))}
    data = build(inner, ref.nested(rshape, lambda r: ref.rget(seq, table[r])), unspec)
    rstrides = tuple(ref.cstrides(tuple(shape[d] for d in g)) for g in rdims)
    return KIND['DM'](tuple(shape), rdims, rstrides, (0,) * len(rdims), data)


def seq_shape(seq, n):
    shape = []
    for _ in range(n):
        shape.append(len(seq))
        seq = seq[0] if len(seq) else ()
    return tuple(shape)


def dense(cfg):
    """does the format keep every position (so that any position can be assigned)?"""
    while cfg[0] == 'DM':
        cfg = (cfg[3],) if isinstance(cfg[3], str) else cfg[3]
    return cfg[0] not in SPARSE


def leaf(cfg):
    while cfg[0] == 'DM':
        cfg = (cfg[3],) if isinstance(cfg[3], str) else cfg[3]
    return cfg[0]


def kind_name(x):
    return type(x).__name__


def read(x, shape):
    """Every element through indexing; x is an element value when shape is ()."""
    if shape == ():
        return {(): x}
    if isinstance(x, KIND['Buffer']):
        return {(i,): x[i] for i in range(shape[0])}
    return {i: x[i] for i in itertools.product(*map(range, shape))}


def is_storage(x):
    return isinstance(x, S.Storage)


def expect_reads(ctx, x, shape, table, what=''):
    """x must be a storage of the given shape with the given readings"""
    if shape == ():
        ctx.check(not is_storage(x), '%s: a storage was returned in place of an element', what)
        ctx.same(x, table[()], 'element %s', what)
        return
    ctx.check(is_storage(x), '%s: not a storage: %r', what, type(x))
    ctx.same(tuple(x.shape), shape, 'shape %s', what)
    got = read(x, shape)
    ctx.transitions += len(got)
    if not core.same(got, table):
        bad = [i for i in table if not core.same(got.get(i), table[i])]
        ctx.fail('%s: element %s reads %r, expected %r (%d of %d elements are wrong)' % (
            what, bad[0], got.get(bad[0]), table[bad[0]], len(bad), len(table)))


def attributes(x):
    """[(name, value)] of an object, wherever it keeps them"""
    out = dict(getattr(x, '__dict__', ()))
    for c in type(x).__mro__:
        names = c.__dict__.get('__slots__', ())
        for k in (names,) if isinstance(names, str) else names:
            if k not in ('__dict__', '__weakref__') and hasattr(x, k):
                out[k] = getattr(x, k)
    return sorted(out.items())


def signature(x, depth=0):
    """Structure of a storage object: everything reachable from its attributes,
    whatever their names; lazily computed caches whose name starts with an
    underscore are left out when they do not say anything about the contents."""
    if isinstance(x, S.Storage):
        return (type(x).__name__,) + tuple(
            (k, signature(v, depth + 1)) for k, v in attributes(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(signature(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple(sorted((repr(k), signature(v)) for k, v in x.items()))
    if isinstance(x, (int, float, str, bool, type(None))):
        return (type(x).__name__, x)
    if isinstance(x, (complex, bytes, set, range)):
        return repr(x)
    return repr(type(x))


def keyed(key):
    """the key, such that odd elements can be part of it (0, False and 0.0 are different ones)"""
    return repr(key) if ODD_VALUES else key


def part(it, job):
    """the part of an enumeration that belongs to the job"""
    every = job.get('every', 1)
    phase = every // 2 if job.get('ph', '') == '' else 0 if job['ph'] == -1 else every - 1
    return itertools.islice(itertools.islice(it, phase, None, every), job['part'], None, job['of'])


def split(leg, of, **kwargs):
    return [dict(leg=leg, part=i, of=of, **kwargs) for i in range(of)]


def with_placeholders(jobs):
    """jobs(ph) for placeholders other than None, a falsy one and one of the type of the elements, and for odd elements"""
    return jobs('') + jobs(-1) + jobs(['odd'])


def plain_configs(n, buffer=False):
    for k in ('Strided', 'COO', 'FlatCOO', 'CSR'):
        if k == 'CSR' and n != 2:
            continue
        yield (k,)
    if buffer and n == 1:
        yield ('Buffer',)


def all_configs(n, nested_dm=True):
    from . import gen
    yield from plain_configs(n)
    for c in gen.dm_configs(n):
        yield ('DM',) + c
    if nested_dm:
        yield from nested_configs(n)


def nested_configs(n):
    """DM whose storage is a DM"""
    from . import gen
    for cuts in ref.partitions(n):
        m = len(cuts) + 1
        dims = tuple(range(n))[::-1]
        inners = [('DM', tuple(range(m))[::-1], (m - 1,) if m > 1 else (), k) for k in ('Strided', 'COO', 'FlatCOO')]
        if m == 2:
            inners.append(('DM', (1, 0), (1,), 'CSR'))
            inners.append(('DM', (1, 0), (), 'Buffer'))
        if m == 1:
            inners.append(('DM', (0,), (), 'Buffer'))
        for inner in inners:
            yield ('DM', dims, cuts, inner)


# ------------------------------------------------------------------ contents

FALSY = [0, '', False, 0.0]


def fill(cells, spec):
    """Distinct values for the specified cells (among them falsy ones)."""
    out = {}
    for n, c in enumerate(cells):
        if c in spec:
            out[c] = ODD[(5 * n + len(cells)) % len(ODD)] if ODD_VALUES else n
    return out


def patterns(cells, few=False):
    """named sets of specified cells"""
    cells = list(cells)
    n = len(cells)
    out = [('full', set(cells)), ('mix', set(cells[1::2])), ('none', set())]
    if not few:
        out += [('mix2', set(c for i, c in enumerate(cells) if i % 3 != 1)),
                ('first', set(cells[:1])), ('last', set(cells[-1:])), ('half', set(cells[:n // 2]))]
    seen, res = [], []
    for name, s in out:
        if s not in seen:
            seen.append(s)
            res.append((name, s))
    return res


BIG = 10 ** 9


def fresh(v):
    """an equal object that is not the same one"""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, str):
        return ''.join(list(v)) if len(v) != 1 else v
    if isinstance(v, (int, float)):
        return type(v)(repr(v))
    return v


def make(shape, spec, values=None):
    """nested list with None at unspecified positions, and the reference array"""
    cells = list(itertools.product(*map(range, shape)))
    vals = values if values is not None else fill(cells, spec)
    seq = ref.nested(shape, lambda i: vals[i] if i in spec else None)
    return seq, {i: (vals[i] if i in spec else PLACEHOLDER) for i in cells}


def helper(mod, name, params):
    """A helper function of the package that is not part of its tested
    interface: None when it is not there with these parameters."""
    import inspect
    f = getattr(mod, name, None)
    if f is None or not callable(f):
        return None
    try:
        names = list(inspect.signature(f).parameters)
    except (TypeError, ValueError):
        return None
    return f if names[:len(params)] == list(params) else None


def tuplify(seq):
    return tuple(map(tuplify, seq)) if isinstance(seq, list) else seq


def deep(seq):
    return list(map(deep, seq)) if isinstance(seq, (list, tuple)) else seq


def negate(index, shape, mask):
    return tuple(i - n if mask >> k & 1 else i for k, (i, n) in enumerate(zip(index, shape)))


class Integer(int):
    """an integer of another type"""


def retyped(index, boolean=False):
    """the index with its integers, also those in slices, of another type"""
    if isinstance(index, tuple):
        return tuple(retyped(i, boolean) for i in index)
    if isinstance(index, slice):
        return slice(*(retyped(i, boolean) for i in (index.start, index.stop, index.step)))
    if index is None:
        return None
    return bool(index) if boolean and index in (0, 1) else Integer(index)


def wide_shapes():
    return [(24,), (40,), (7, 5), (2, 13), (17, 2), (1, 9), (4, 3, 2), (2, 3, 4), (1, 3, 1), (2, 3, 2, 2), (3, 1, 2, 2),
            (2, 1, 2, 1, 2), (2, 2, 2, 2, 2), (1, 2, 1, 2, 2, 2), (1, 2, 1, 2, 1, 1, 2), (2, 1, 1, 2, 1, 1, 1, 2), (2, 2, 2, 1, 2, 1, 2)]


def wide_configs(n, every=1):
    """for many dimensions: the plain formats and a spread of dimension mappings"""
    from . import gen
    yield from plain_configs(n)
    if n > 6:
        yield from (('DM',) + c for c in gen.dm_spread(n, 30))
        return
    dm = list(gen.dm_configs(n))
    k = max(1, len(dm) // 60)
    yield from (('DM',) + c for c in dm[::k])
    nd = list(nested_configs(n))
    yield from nd[::max(1, len(nd) // 10)]


# ------------------------------------------------------------------ arrays to start from

def view_indices(shape, level=0):
    """indices of slices that keep at least one dimension"""
    from . import gen
    for index in gen.index_menu(shape, -1 if level == 0 else 0):
        sh, m = ref.select(shape, index)
        if sh and 0 not in sh:
            yield index


def variants(cfg, shape, spec, level=0, unspec=DEFAULT, hole=None):
    """(description, maker, shape, table): a fresh array and slices of it.
    The maker gives a new array every time."""
    seq, table = make(shape, spec)
    if hole is not None:
        seq = ref.nested(tuple(shape), lambda i: table[i] if i in spec else hole())
    if unspec is not DEFAULT:
        table = {k: (unspec if is_hole(v) else v) for k, v in table.items()}
    text = '%r.fromobject(%r%s)' % (cfg, seq, ''.join(', %s=%r' % i for i in kw(unspec).items()))
    yield text, (lambda: build(cfg, seq, unspec)), tuple(shape), table
    if level is None:
        return
    for index in view_indices(shape, level):
        sh, m = ref.select(shape, index)
        yield ('%s[%r]' % (text, index), (lambda index=index: build(cfg, seq, unspec)[index]), sh, {k: table[v] for k, v in m.items()})


def alternate(shape, k=3, r=1):
    """two of three cells are specified"""
    return set(c for i, c in enumerate(itertools.product(*map(range, shape))) if i % k != r)


# ------------------------------------------------------------------ large arrays

LARGE = [(300,), (1100,), (26, 21), (3, 90), (90, 3), (6, 7, 8)]


def large_configs(n):
    yield from plain_configs(n)
    rev = tuple(range(n))[::-1]
    rot = tuple(range(1, n)) + (0,)
    yield 'DM', rev, (), 'Strided'
    yield 'DM', rot, (), 'COO'
    if n > 1:
        yield 'DM', rot, (1,), 'CSR'
        yield 'DM', rev, (n - 1,), 'Strided'
        yield 'DM', rot, (n - 1,), 'FlatCOO'
        yield 'DM', rev, (1,), ('DM', (1, 0), (1,), 'COO')


def large_specs(shape):
    yield alternate(shape)
    yield alternate(shape, 17, 0)
    yield set(c for i, c in enumerate(itertools.product(*map(range, shape))) if i % 19 == 3 or 40 < i < 60)


def large_indices(shape):
    n = len(shape)
    whole = (slice(None),)
    out = [(slice(1, None),) * n, (slice(None, None, -1),) * n, (slice(-3, None),) + whole * (n - 1), whole * (n - 1) + (slice(None, 2),),
           tuple(slice(k // 3, 2 * k // 3 + 1, 2) for k in shape), tuple(slice(k - 1, k // 4, -3) for k in shape),
           tuple(slice(k // 2, k // 2 + 1) for k in shape), (slice(2, None, 2),) + whole * (n - 1)]
    if n > 1:
        out += [whole * (n - 1) + (shape[-1] - 1,), (shape[0] // 2,) + whole * (n - 1)]
    return out


def large():
    """(shape, format, specified cells)"""
    for shape in LARGE:
        for cfg in large_configs(len(shape)):
            for k, spec in enumerate(large_specs(shape)):
                if k == 0 or (shape != (1100,) and (len(shape) < 3 or k == 2)):
                    yield shape, cfg, spec
