"""Which arrays share elements: all histories of slicing, conversion, copying and assignment."""
import itertools
from .. import core, ref, gen
from ..impl import (is_hole, keyed, placeholder, with_placeholders, all_configs, LARGE, large_configs, large_indices, plain_configs, build, split, part, make, read, alternate, dense, DEFAULT, KIND, SPARSE, wide_configs,
                    is_storage, expect_reads)

PROPERTY = 'C12'
BOUND = ('all histories of 3 operations (thorough 4) from an alphabet of slicing (3 to 4 slices, of any array made so far), conversion to '
         'two other formats and to a mapping, copy, and assignment to an element or a slice of any array made so far; at most 4 arrays alive; every format '
         'and dimension mapping for 1-D..3-D shapes; slices of arrays of up to 1100 elements, sliced, copied or converted again; after every operation every array is read completely; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements (false, unordered, unhashable ones)')
ASSUMPTIONS = ['a conversion to the format that an array already has may give the array itself']


# A model array: cells shared by identity, and the part of the format that decides what slicing shares.

class Model:
    def __init__(self, shape, cells, tree, ):
        self.shape, self.cells, self.tree, self.ph = shape, cells, tree, placeholder()

    def table(self):
        return {i: self.cells[i][0] if i in self.cells else self.ph for i in itertools.product(*map(range, self.shape))}


def tree_of(cfg):
    if cfg[0] != 'DM':
        return cfg[0]
    inner = cfg[3] if isinstance(cfg[3], str) else tree_of(cfg[3])
    return ('DM', ref.groups(cfg[1], cfg[2]), inner)


def slice_tree(tree, fixed):
    """fixed: for every dimension, is it fixed by an integer? -> (are elements shared, tree of the slice)"""
    if tree == 'CSR' and any(fixed):
        return False, 'COO'
    if not isinstance(tree, tuple):
        return tree not in SPARSE, tree
    _, groups, inner = tree
    number = {}
    for d, f in enumerate(fixed):
        if not f:
            number[d] = len(number)
    left = [tuple(number[d] for d in g if not fixed[d]) for g in groups]
    gone = [not g for g in left]
    live = True
    if any(gone):
        live, inner = slice_tree(inner, gone)
    return live, ('DM', tuple(g for g in left if g), inner)


def slices_of(shape):
    n = len(shape)
    if ref.prod(shape) > 40:
        return large_indices(shape)[1:]
    out = [tuple(slice(None, None, -1) for _ in shape), (slice(1, None),) + (slice(None),) * (n - 1)]
    if n > 1:
        out += [(0,) + (slice(None),) * (n - 1), (slice(None),) * (n - 1) + (shape[-1] - 1,)]
    return [i for i in out if 0 not in ref.select(shape, i)[0]]


class World:
    def __init__(self, cfg, shape, spec):
        seq, table = make(shape, spec)
        self.objs = [build(cfg, seq)]
        tree = tree_of(cfg)
        self.models = [Model(tuple(shape), {k: [v] for k, v in table.items() if dense(cfg) or not is_hole(v)}, tree)]
        self.value = 100

    def ops(self, limit):
        """the operations that are possible now; an operation is a tuple of plain values"""
        for k, m in enumerate(self.models):
            if len(self.models) < limit:
                for i, _ in enumerate(slices_of(m.shape)):
                    yield 'slice', k, i
                for to in self.targets(m):
                    yield 'convert', k, to
                yield 'copy', k
            yield 'set', k, 0
            yield 'set', k, 1
            yield 'fill', k

    def targets(self, m):
        t = [x for x in ('Strided', 'COO', 'FlatCOO') if x != (m.tree if isinstance(m.tree, str) else 'DM')]
        if len(m.shape) == 2 and m.tree != 'CSR':
            t.append('CSR')
        return t[-2:] + ['DM']

    def do(self, op):
        x, m = self.objs[op[1]], self.models[op[1]]
        if op[0] == 'slice':
            index = slices_of(m.shape)[op[2]]
            y = x[index]
            sh, mp = ref.select(m.shape, index)
            live, tree = slice_tree(m.tree, [isinstance(i, int) for i in index])
            cells = {k: (m.cells[v] if live else [m.cells[v][0]]) for k, v in mp.items() if v in m.cells}
            self.objs.append(y)
            self.models.append(Model(sh, cells, tree))
            return '= x%d[%r]' % (op[1], index)
        if op[0] == 'convert':
            y = getattr(x, 'as_' + op[2])()
            t = m.table()
            self.objs.append(y)
            n = len(m.shape)
            tree = ('DM', ref.groups(tuple(range(n)), (n - 1,) if n > 1 else ()), 'Strided') if op[2] == 'DM' else op[2]
            self.models.append(Model(m.shape, {k: [v] for k, v in t.items() if op[2] in ('Strided', 'DM') or not is_hole(v)}, tree))
            return '= x%d.as_%s()' % (op[1], op[2])
        if op[0] == 'copy':
            y = x.copy()
            self.objs.append(y)
            self.models.append(Model(m.shape, {k: [v[0]] for k, v in m.cells.items()}, m.tree))
            return '= x%d.copy()' % op[1]
        if op[0] == 'set':
            index = tuple(0 for _ in m.shape) if op[2] == 0 else tuple(n - 1 for n in m.shape)
            self.value += 1
            x[index] = self.value
            if index in m.cells:
                m.cells[index][0] = self.value
            return 'x%d[%r] = %d' % (op[1], index, self.value)
        if op[0] == 'fill':
            index = (slice(None, None, -1),) * len(m.shape)
            sh, mp = ref.select(m.shape, index)
            vals = {}
            for i in itertools.product(*map(range, sh)):
                self.value += 1
                vals[i] = self.value
            x[index] = ref.nested(sh, lambda i: vals[i])
            for k, v in mp.items():
                if v in m.cells:
                    m.cells[v][0] = vals[k]
            return 'x%d[%r] = %r' % (op[1], index, ref.nested(sh, lambda i: vals[i]))

    def key(self):
        """aliasing structure and contents"""
        ids = {}
        return tuple((m.shape, m.tree, tuple((k, ids.setdefault(id(c), len(ids)), c[0]) for k, c in sorted(m.cells.items())))
                     for m in self.models)

    def check(self, ctx):
        for k, (x, m) in enumerate(zip(self.objs, self.models)):
            expect_reads(ctx, x, m.shape, m.table(), 'of x%d' % k)


def starts(tier):
    for shape in [(3,), (2, 2), (3, 2)] + ([(2, 3), (5,)] if tier != 'quick' else []):
        for cfg in all_configs(len(shape)):
            if shape != (2, 2) or tier != 'quick' or cfg[0] != 'DM' or cfg[3] in ('COO', 'Strided'):
                yield shape, cfg, 2 if shape == (3, 2) and tier == 'quick' and cfg[0] == 'DM' else 3
    for shape in [(2, 2, 2)] if tier == 'quick' else [(2, 2, 2), (3, 2, 2), (2, 1, 2)]:
        for cfg in all_configs(3):
            yield shape, cfg, 2 if tier == 'quick' else 3
    if tier != 'quick':
        for shape in [(3,), (2, 2)]:
            for cfg in all_configs(len(shape)):
                yield shape, cfg, 4


def jobs(tier):
    return split('histories', 48 if tier == 'quick' else 256, tier=tier) + split('large', 48) + with_placeholders(
        lambda ph: split('histories', 16, tier=tier, ph=ph, every=7) + split('large', 8, ph=ph, every=5))


def large_space():
    for shape in LARGE[:4] + LARGE[5:]:
        for cfg in large_configs(len(shape)):
            for i, _ in enumerate(slices_of(shape)):
                yield shape, cfg, i


def large_run(ctx, shape, cfg, i):
    """a slice of a large array, perhaps sliced, copied or converted again, then writes to all arrays"""
    spec = alternate(shape)
    for more in (None, ('slice', 1, 0), ('slice', 1, -1), ('copy', 1), ('convert', 1), ('convert', 0)):
        w = World(cfg, shape, spec)
        text = ['x0 = %r.fromobject(...) of shape %r' % (cfg, shape)]
        ops = [('slice', 0, i)] + ([more] if more else [])
        ctx.case(*(text + [repr(ops)]))
        for op in ops:
            n = len(w.objs)
            if op[0] == 'convert':
                op += (w.targets(w.models[op[1]])[0],)
            text.append('x%d %s' % (n, w.do(op)))
        for k in range(len(w.objs)):
            for where in ((0, 1) if k == 1 and not more else (k % 2,)):
                ctx.case(*(text + ['assignment to x%d' % k]))
                w.do(('set', k, where))
                w.check(ctx)
                ctx.transitions += 1
        ctx.traces += 1
        ctx.state((shape, cfg, i, more))


def run_job(job, ctx):
    if job['leg'] == 'large':
        for args in part(large_space(), job):
            large_run(ctx, *args)
        return
    for shape, cfg, depth in part(starts(job['tier']), job):
        spec = alternate(shape)
        frontier = [()]
        seen = set()
        for d in range(depth):
            new = []
            for hist in frontier:
                w = World(cfg, shape, spec)
                for op in hist:
                    w.do(op)
                for op in list(w.ops(3 if d < 2 else 4)):
                    w = World(cfg, shape, spec)
                    text = ['x0 = %r.fromobject(%r)' % (cfg, make(shape, spec)[0])]
                    ctx.case(*text)
                    for o in hist + (op,):
                        n = len(w.objs)
                        ctx.current = tuple(text + ['next: %r' % (o,)])
                        t = w.do(o)
                        text.append('x%d %s' % (n, t) if t.startswith('=') else t)
                    ctx.case(*text)
                    w.check(ctx)
                    ctx.transitions += 1
                    ctx.traces += 1
                    key = (op[0], keyed(w.key()))
                    if op[0] in ('set', 'fill') and key in seen:
                        continue
                    seen.add(key)
                    ctx.state((shape, cfg, key))
                    if d < depth - 1:
                        new.append(hist + (op,))
            frontier = new
        ctx.outcome(len(seen))
