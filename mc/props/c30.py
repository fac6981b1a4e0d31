"""Arrays put together from their parts are what the documentation of the formats says about the parts."""
import itertools
from .. import core, ref, gen
from ..impl import KIND, split, part, alternate, expect_reads, kind_name, SPARSE, build, large_indices

PROPERTY = 'C30'
BOUND = ('strided arrays of 1..3 dimensions with all permutations and signs of strides, gaps between elements and offsets; coordinates of sparse '
         'arrays stored by rows, by columns, backwards and inside larger buffers, all parts as windows of one buffer, up to 30 of them (thorough 90); dimension mappings with '
         'offsets into and gaps within larger storages of every format; data that are lists, byte arrays and objects whose slices are views; every array is read, listed, sliced, converted, copied, compared, '
         'assigned to; neighbours of its parts in the shared memory are checked after every assignment')


PAD = 3


class Memory:
    """one list that holds all parts between sentinels"""

    def __init__(self):
        self.cells = []
        self.pad()

    def pad(self):
        for _ in range(PAD):
            self.cells.append('pad%d' % len(self.cells))

    def put(self, values):
        at = len(self.cells)
        self.cells.extend(values)
        self.pad()
        return at, len(values)


def window(memory, at, n):
    return KIND['Buffer'](len(memory.cells), 0, memory.cells)[at:at + n] if at % 2 else KIND['Buffer'](n, at, memory.cells)


class Made:
    """make() -> array; shape, table of readings; where: position of every specified element in memory.cells"""

    def __init__(self, text, shape, table, where, make):
        self.text, self.shape, self.table, self.where, self.make = text, shape, table, where, make


def strided(shape, perm, signs, gap):
    """positions with permuted axes, some of them backwards, with gaps"""
    st, p = {}, 1 + gap
    for d in reversed(perm):
        st[d] = p
        p *= shape[d]
        p += gap
    strides = tuple(st[d] * signs[d] for d in range(len(shape)))
    low = sum(min(0, s * (n - 1)) for s, n in zip(strides, shape))
    high = sum(max(0, s * (n - 1)) for s, n in zip(strides, shape))
    vals = ['gap%d' % i for i in range(high - low + 1)]
    cells = list(itertools.product(*map(range, shape)))
    pos = {c: sum(a * b for a, b in zip(c, strides)) - low for c in cells}
    for n, c in enumerate(cells):
        vals[pos[c]] = n

    def make(memory):
        at, n = memory.put(vals)
        # the first element of the window is element 0, ..., 0
        buffer = window(memory, at - low, n + low)
        return KIND['Strided'](shape, strides, buffer), {c: at + p for c, p in pos.items()}
    return Made('Strided(%r, %r, window at %d of %r)' % (shape, strides, -low, vals), shape, {c: n for n, c in enumerate(cells)}, None, make)


LAYOUTS = ('rows', 'columns', 'backwards', 'gaps')


def coordinates(memory, coords, n, layout):
    """Strided array of shape (n, number of coordinates)"""
    m = len(coords)
    if layout == 'columns':
        at, k = memory.put([c for t in coords for c in t])
        return KIND['Strided']((n, m), (1, n), window(memory, at, k))
    flat = [t[j] for j in range(n) for t in coords]
    if layout == 'rows' or not m:
        at, k = memory.put(flat)
        return KIND['Strided']((n, m), (m, 1), window(memory, at, k))
    if layout == 'backwards':
        at, k = memory.put(flat[::-1])
        return KIND['Strided']((n, m), (-m, -1), window(memory, at + k - 1, 1))
    vals = []
    for j in range(n):
        for t in coords:
            vals += [t[j], 'gap']
        vals += ['gap']
    at, k = memory.put(vals)
    return KIND['Strided']((n, m), (2 * m + 1, 2), window(memory, at, k))


def sparse(kind, shape, spec, layout):
    cells = list(itertools.product(*map(range, shape)))
    coords = [c for c in cells if c in spec]
    values = [100 + n for n, _ in enumerate(coords)]
    table = dict.fromkeys(cells)
    table.update(zip(coords, values))

    def make(memory):
        if kind == 'COO':
            indices = coordinates(memory, coords, len(shape), layout)
            at, n = memory.put(values)
            return KIND['COO'](shape, indices, window(memory, at, n)), {c: at + k for k, c in enumerate(coords)}
        if kind == 'FlatCOO':
            st = ref.cstrides(shape)
            f, n = memory.put([sum(a * b for a, b in zip(c, st)) for c in coords])
            at, n = memory.put(values)
            return KIND['FlatCOO'](shape, window(memory, f, n), window(memory, at, n)), {c: at + k for k, c in enumerate(coords)}
        r, m = memory.put([sum(c[0] < k for c in coords) for k in range(shape[0] + 1)])
        f, n = memory.put([c[1] for c in coords])
        at, n = memory.put(values)
        return (KIND['CSR'](shape, window(memory, r, m), window(memory, f, n), window(memory, at, n)),
                {c: at + k for k, c in enumerate(coords)})
    return Made('%s of shape %r with %r, parts laid out by %s' % (kind, shape, dict(zip(coords, values)), layout), shape, table, None, make)


def mapped(shape, rdims, gap, off, inner, spec):
    """DM whose group k uses every (1 + gap)-th position of the storage from off on"""
    rshape = ref.reduce_shape(shape, rdims)
    big = tuple(off + (n - 1) * (1 + gap) + 1 + off for n in rshape)
    cells = list(itertools.product(*map(range, shape)))
    at = {c: tuple(off + r * (1 + gap) for r in ref.reduce_index(shape, rdims, c)) for c in cells}
    back = {v: k for k, v in at.items()}
    dense = inner == 'Strided' or inner == 'Buffer'
    vals = {}
    for n, r in enumerate(itertools.product(*map(range, big))):
        vals[r] = 'out%d' % n if r not in back else 500 + n if back[r] in spec else None
    table = {c: vals[at[c]] for c in cells}
    rstrides = tuple(tuple(s * (1 + gap) for s in ref.cstrides(tuple(shape[d] for d in g))) for g in rdims)

    def make(memory):
        data = KIND[inner].fromobject(ref.nested(big, lambda r: vals[r]))
        return KIND['DM'](shape, rdims, rstrides, (off,) * len(rdims), data), {c: (data, at[c]) for c in cells if dense or c in spec}
    return Made('DM(%r, %r, %r, offsets %d, %s of shape %r), storage elements %r' % (shape, rdims, rstrides, off, inner, big, vals), shape, table,
                {r: vals[r] for r in vals if r not in back}, make)


def strided_space(tier):
    for shape in [(1,), (3,), (5,), (2, 2), (3, 2), (1, 4), (2, 2, 2), (3, 1, 2)] + ([(4, 3), (2, 3, 2), (2, 2, 1, 2)] if tier != 'quick' else []):
        n = len(shape)
        for perm in itertools.permutations(range(n)):
            for signs in itertools.product((1, -1), repeat=n):
                for gap in (0, 1, 2):
                    yield 'strided', shape, perm, signs, gap


def sparse_space(tier):
    for shape in [(4,), (2, 3), (3, 2), (2, 2, 2)] + ([(6,), (3, 3), (4, 2), (2, 1, 3)] if tier != 'quick' else []):
        cells = list(itertools.product(*map(range, shape)))
        specs = list(gen.subsets(cells)) if len(cells) < 7 or tier != 'quick' else [set(cells), alternate(shape), alternate(shape, 2), set(cells[-1:])]
        for spec in specs:
            for layout in LAYOUTS:
                yield 'sparse', 'COO', shape, frozenset(spec), layout
            yield 'sparse', 'FlatCOO', shape, frozenset(spec), 'rows'
            if len(shape) == 2:
                yield 'sparse', 'CSR', shape, frozenset(spec), 'rows'


def large_space(tier):
    for shape in [(28,), (5, 6), (2, 12), (12, 2)] + ([(60,), (7, 9), (3, 4, 5), (30, 3)] if tier != 'quick' else []):
        for spec in (set(itertools.product(*map(range, shape))), alternate(shape), alternate(shape, 2, 0), alternate(shape, 5, 4)):
            for layout in LAYOUTS:
                yield 'sparse', 'COO', shape, frozenset(spec), layout
            for kind in ('FlatCOO', 'CSR'):
                if kind != 'CSR' or len(shape) == 2:
                    yield 'sparse', kind, shape, frozenset(spec), 'rows'
        if tier == 'quick' and shape[0] == 12:
            continue
        for inner in ('Strided', 'COO', 'FlatCOO', 'CSR', 'Buffer'):
            n = len(shape)
            m = 1 if inner == 'Buffer' else n
            if inner == 'CSR' and m != 2:
                continue
            yield 'mapped', shape, ref.groups(tuple(range(n))[::-1], tuple(range(1, m))), 1, 1, inner, frozenset(alternate(shape))


def mapped_space(tier):
    for shape in [(3,), (2, 2), (3, 2), (2, 1, 2)] + ([(5,), (2, 3), (2, 2, 2), (1, 3, 2)] if tier != 'quick' else []):
        n = len(shape)
        for cuts in ref.partitions(n):
            for perm in itertools.permutations(range(n)):
                for inner in ('Strided', 'COO', 'FlatCOO', 'CSR', 'Buffer'):
                    m = len(cuts) + 1
                    if (inner == 'CSR' and m != 2) or (inner == 'Buffer' and m != 1):
                        continue
                    for gap, off in ((0, 0), (0, 1), (1, 0), (2, 1)):
                        yield 'mapped', shape, ref.groups(perm, cuts), gap, off, inner, frozenset(alternate(shape))


class View:
    """data whose slices are views of it, as Buffer documents: indexing within the window, and copy"""

    def __init__(self, cells, low=0, high=None):
        self.cells, self.low, self.high = cells, low, len(cells) if high is None else high

    def __len__(self):
        return self.high - self.low

    def at(self, i):
        if not -len(self) <= i < len(self):
            raise IndexError(i)
        return self.low + i % len(self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            start, stop, step = i.indices(len(self))
            assert step == 1
            return View(self.cells, self.low + start, self.low + max(start, stop))
        return self.cells[self.at(i)]

    def __setitem__(self, i, v):
        self.cells[self.at(i)] = v

    def __iter__(self):
        return iter(self.cells[self.low:self.high])

    def __eq__(self, other):
        return list(self) == list(other)

    def __repr__(self):
        return repr(list(self))

    def copy(self):
        return View(list(self))


CARRIERS = {'list': list, 'bytearray': bytearray, 'view': View}


def carried_space(tier):
    for carrier in CARRIERS:
        for total in range(1, 6 if tier == 'quick' else 8):
            for low in range(total):
                for high in range(low + 1, total + 1):
                    yield 'carried', carrier, total, low, high


def carried(ctx, carrier, total, low, high):
    """a window of data of any kind, the arrays on it, and their copies"""
    n = high - low
    if carrier == 'bytearray':
        values = list(range(10, 10 + total))
    else:
        values = ['c%d' % k for k in range(total)]

    def fresh():
        data = CARRIERS[carrier](list(values))
        return data, KIND['Buffer'](n, low, data)
    part_ = values[low:high]
    new = list(range(100, 100 + n))
    makers = [('Buffer', lambda b: b), ('Strided', lambda b: KIND['Strided']((n,), (1,), b)), ('Strided backwards', None),
              ('COO', lambda b: KIND['COO']((n,), KIND['Strided']((1, n), (n, 1), KIND['Buffer'](n, 0, list(range(n)))), b)),
              ('FlatCOO', lambda b: KIND['FlatCOO']((n,), KIND['Buffer'](n, 0, list(range(n))), b)),
              ('CSR', lambda b: KIND['CSR']((1, n), KIND['Buffer'](2, 0, [0, n]), KIND['Buffer'](n, 0, list(range(n))), b)),
              ('DM', lambda b: KIND['DM']((n,), ((0,),), ((1,),), (0,), b))]
    for name, mk in makers:
        def arr():
            data, b = fresh()
            if mk is None:
                return data, KIND['Strided']((n,), (-1,), b[n - 1:])
            return data, mk(b)
        ctx.case('%s on a window %d:%d of %s %r' % (name, low, high, carrier, values))
        shape = (1, n) if name == 'CSR' else (n,)
        order = part_[::-1] if mk is None else part_
        table = {((0, i) if name == 'CSR' else (i,)): v for i, v in enumerate(order)}
        data, x = arr()
        expect_reads(ctx, x, shape, table, 'of the array')
        str(x), repr(x)
        for what in ('copy()', 'copy(unspecified=-1)', 'as_Strided(unspecified=-1)', 'as_COO(unspecified=-1)', 'as_DM(unspecified=-1)'):
            ctx.case('%s on a window %d:%d of %s %r' % (name, low, high, carrier, values), 'y = x.' + what)
            data, x = arr()
            y = eval('x.' + what, {'x': x})
            expect_reads(ctx, y, shape, table, 'of y')
            for k, i in enumerate(table):
                x[i if len(i) > 1 else i[0]] = new[k]
            expect_reads(ctx, x, shape, dict(zip(table, new)), 'of x after assignments to it')
            expect_reads(ctx, y, shape, table, 'of y after assignments to x')
            ctx.same(list(data), values[:low] + (new[::-1] if mk is None else new) + values[high:], 'data')
            data, x = arr()
            y = eval('x.' + what, {'x': x})
            for k, i in enumerate(table):
                y[i if len(i) > 1 else i[0]] = new[k]
            expect_reads(ctx, y, shape, dict(zip(table, new)), 'of y after assignments to it')
            expect_reads(ctx, x, shape, table, 'of x after assignments to y')
            ctx.same(list(data), values, 'data')
            ctx.transitions += 2
    ctx.state((carrier, total, low, high))
    ctx.traces += 1


def space(tier):
    yield from carried_space(tier)
    yield from strided_space(tier)
    yield from sparse_space(tier)
    yield from mapped_space(tier)
    yield from large_space(tier)


def jobs(tier):
    return split('all', 24 if tier == 'quick' else 96, tier=tier)


def run_job(job, ctx):
    for args in part(space(job['tier']), job):
        if args[0] == 'carried':
            carried(ctx, *args[1:])
            continue
        made = {'strided': strided, 'sparse': sparse, 'mapped': mapped}[args[0]](*args[1:])
        examine(ctx, args, made)
        ctx.state(args)
        ctx.traces += 1


def examine(ctx, args, made):
    shape, table = made.shape, made.table
    kind = {'strided': 'Strided', 'mapped': 'DM'}.get(args[0], args[1])
    dense = kind == 'Strided' or (kind == 'DM' and args[5] in ('Strided', 'Buffer'))
    ctx.case(made.text)

    def fresh():
        memory = Memory()
        x, where = made.make(memory)
        return x, where, memory

    x, where, memory = fresh()
    before = list(memory.cells)
    expect_reads(ctx, x, shape, table, 'of the array')
    spec = [c for c in table if c in where]
    listed = [(c, table[c]) for c in (spec if kind in SPARSE else table)]
    ctx.same(list(x.elements()), listed, 'elements')
    ctx.check(x.size == len(spec), 'size %r, expected %d', x.size, len(spec))
    ctx.check(bool(x.is_full()) is (len(spec) == len(table)), 'is_full() is %r', x.is_full())
    ctx.check(len(x) == shape[0], 'length %r', len(x))
    seq = ref.nested(shape, lambda c: table[c])
    ctx.check(bool(x.equal(seq)) is True, 'not element-wise equal to its elements')
    other = fresh()[0]
    ctx.check((x == other) is True and (x != other) is False, 'not equal to an array of equal parts')
    if kind == 'Strided' and len(shape) < 3:
        ctx.check(str(x) == str(KIND['Strided'].fromobject(seq)), 'text %r', str(x))
    c = x.copy()
    ctx.check(kind_name(c) == kind, 'the copy is a %s', kind_name(c))
    expect_reads(ctx, c, shape, table, 'of the copy')
    results = [('copy()', c)]
    for to in ('Strided', 'COO', 'FlatCOO', 'CSR', 'DM'):
        if to == 'CSR' and len(shape) != 2:
            continue
        ctx.case(made.text, 'as_%s()' % to)
        y = getattr(x, 'as_' + to)()
        expect_reads(ctx, y, shape, table, 'of the converted array')
        if to in SPARSE and to != kind:
            ctx.same(list(y.elements()), [(c, v) for c, v in table.items() if v is not None], 'elements of the converted array')
            ctx.check(y.size == sum(v is not None for v in table.values()), 'size of the converted array is %r', y.size)
        if to != kind:
            results.append(('as_%s()' % to, y))
    for index in gen.index_menu(shape, 0 if len(shape) < 3 else -1) if ref.prod(shape) < 20 else large_indices(shape):
        ctx.case(made.text, '[%r]' % (index,))
        sh, m = ref.select(shape, index)
        expect_reads(ctx, x[index], sh, {k: table[v] for k, v in m.items()}, 'of the slice')
        ctx.transitions += 1
        if 0 in sh:
            continue
        # assignment: the addressed specified elements change, nothing else in the memory
        x2, where2, mem2 = fresh()
        ctx.case(made.text, '[%r] = ...' % (index,))
        new = {k: 'new%d' % n for n, k in enumerate(m)}
        x2[index] = ref.nested(sh, lambda k: new[k]) if sh else new[()]
        now = dict(table)
        for k, v in m.items():
            if v in where2:
                now[v] = new[k]
        expect_reads(ctx, x2, shape, now, 'after the assignment')
        untouched(ctx, made, before, mem2, where2, now)
        ctx.transitions += 1
    # results of copy and conversions are independent
    ctx.case(made.text, 'assignments after copy and conversions')
    x[(slice(None, None, -1),) * len(shape)] = ref.nested(shape, lambda c: 'over')
    for text, y in results:
        expect_reads(ctx, y, shape, table, 'of %s after an assignment to the array' % text)
    expect_reads(ctx, x, shape, {c: 'over' if c in where else None for c in table}, 'after the last assignment')
    ctx.outcome((args[0], kind, tuple(table.values())))


def untouched(ctx, made, before, memory, where, now):
    if made.where is not None:
        # the storage of a mapping: elements outside of the mapped part
        data = next(iter(where.values()))[0] if where else None
        if data is not None:
            for r, v in made.where.items():
                ctx.same(data[r if len(r) > 1 else r[0]], v, 'storage element %r, which is not mapped', r)
            for c, (d, r) in where.items():
                ctx.same(d[r if len(r) > 1 else r[0]], now[c], 'storage element %r', r)
        return
    for k, v in enumerate(before):
        if k not in where.values():
            ctx.same(memory.cells[k], v, 'memory at %d, which is not of an element', k)
    for c, k in where.items():
        ctx.same(memory.cells[k], now[c], 'memory at %d, which is of element %r', k, c)
