"""Answers depend on the array alone: whatever was done in the process before, with whatever other arrays."""
import gc
import itertools
import os
import pickle
from .. import core, gen, sched
from ..impl import KIND, SPARSE, build, is_storage, kind_name, make, nested_configs, part, read, split, alternate, expect_reads

PROPERTY = 'C31'
BOUND = ('all ordered pairs of 100 (thorough 260) arrays that agree in shape, strides, pattern of specified elements, equal values of different types, placeholder '
         'or memory address and differ elsewhere: all queries of the first array, assignments to it and failing operations, then all queries of the second; the first is kept, '
         'or dropped before the second is made, or made after it; all ordered pairs of queries of one array; compared with the answers of a new process; '
         'all ordered pairs of 20 (thorough 48) sequences of which the second one takes the place of the first in memory; all of 1440 slices and 68 integers for all ordered pairs of 8 lengths up to 33')

SHAPES = [(4,), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (2, 1, 2), (1, 2, 2)]
MORE = [(6,), (1, 1), (3, 3), (2, 2, 2), (2, 1, 1, 2)]


def values(name, shape):
    cells = list(itertools.product(*map(range, shape)))
    n = len(cells)
    kinds = {'int': lambda k: k % 3, 'bool': lambda k: (k % 3) if k % 3 > 1 else bool(k % 3), 'float': lambda k: float(k % 3),
             'other': lambda k: 'v%d' % k}
    spec = set(cells) if name[1] == 'full' else alternate(shape) if name[1] == 'mix' else set(c for k, c in enumerate(cells) if k % 2 == 0 or k == n - 1)
    return make(shape, spec, {c: kinds[name[0]](k) for k, c in enumerate(cells)})[0]


def arrays(tier):
    """(cfg, shape, name of the contents, placeholder)"""
    names = [('int', 'mix', None), ('bool', 'mix', None), ('int', 'even', None), ('other', 'mix', None), ('int', 'mix', 0), ('float', 'full', None), ('int', 'mix', False)]
    out = []
    for s, shape in enumerate(SHAPES + (MORE if tier != 'quick' else [])):
        n = len(shape)
        cfgs = [('Strided',), ('COO',), ('FlatCOO',)] + [('CSR',)] * (n == 2)
        dms = [('DM',) + c for c in gen.dm_configs(n)]
        nested = list(nested_configs(n))
        cfgs += dms[s % 3::5] + nested[s % 2::9] if tier == 'quick' else dms[::3] + nested[::7]
        for k, cfg in enumerate(cfgs):
            for name in names:
                j = names.index(name)
                if (k + j + s) % (2 if tier != 'quick' else 7) == 0 or (j < 2 and shape in ((2, 2), (4,))):
                    out.append((cfg, shape, name))
    return out[::4] if tier != 'quick' else out


def fresh(item):
    cfg, shape, (kind, pattern, ph) = item
    return build(cfg, values((kind, pattern), shape)) if ph is None else build(cfg, values((kind, pattern), shape), ph)


def plain(x):
    """what an array is, as far as questions tell"""
    if not is_storage(x):
        return (type(x).__name__, x)
    shape = tuple(x.shape)
    return kind_name(x), shape, [(i, type(v).__name__, v) for i, v in read(x, shape).items()], repr(x.unspecified)


QUERIES = [
    ('size, is_full(), len()', lambda x: (x.size, bool(x.is_full()), len(x), tuple(x.shape))),
    ('elements()', lambda x: [(i, type(v).__name__, v) for i, v in x.elements()]),
    ('all elements', lambda x: plain(x)),
    ('str()', lambda x: str(x)),
    ('x[::-1]', lambda x: plain(x[::-1])),
    ('x[..., ::-2]', lambda x: plain(x[(slice(None),) * (len(x.shape) - 1) + (slice(None, None, -2),)])),
    ('x[0]', lambda x: plain(x[0])),
    ('x[..., -1]', lambda x: plain(x[(slice(None),) * (len(x.shape) - 1) + (-1,)])),
    ('x[1:]', lambda x: plain(x[1:])),
    ('x[1:][::-1]', lambda x: plain(x[1:][::-1])),
    ('elements of x[..., 1:]', lambda x: [(i, type(v).__name__, v) for i, v in x[(slice(None),) * (len(x.shape) - 1) + (slice(1, None),)].elements()]),
    ('copy()', lambda x: plain(x.copy())),
    ('copy(unspecified=-1)', lambda x: plain(x.copy(unspecified=-1))),
    ('as_Strided()', lambda x: plain(x.as_Strided())),
    ('as_COO()', lambda x: plain(x.as_COO())),
    ('as_FlatCOO()', lambda x: plain(x.as_FlatCOO(unspecified=-1))),
    ('as_CSR()', lambda x: plain(x.as_CSR()) if len(x.shape) == 2 else None),
    ('as_DM()', lambda x: plain(x.as_DM())),
    ('as_DM(reversed)', lambda x: plain(x.as_DM(dimensions=tuple(range(len(x.shape)))[::-1], partitioning=(1,) if len(x.shape) > 1 else ()))),
    ('equal to its copy, to its slice', lambda x: (bool(x.equal(x.copy())), bool(x.equal(x[::-1])), bool(x == x.copy()))),
    ('iteration', lambda x: [plain(v) for v in x]),
]


def answers(x):
    return [f(x) for _, f in QUERIES]


def disturb(x):
    """whatever can be done with an array"""
    answers(x)
    shape = tuple(x.shape)
    for index in ((9,) * len(shape), (0,) * (len(shape) - 1) + (-9,)):
        try:
            x[index]
        except IndexError:
            pass
    try:
        x[1:] = [[]]
    except Exception:
        pass
    spec = [i for i, _ in x.elements()]
    for k, i in enumerate(spec):
        x[i if len(i) > 1 else i[0]] = 'new%d' % k
    answers(x)


def alone(item):
    """the answers in a process that has not done anything else"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                try:
                    out = (True, answers(fresh(item)))
                except Exception as e:
                    out = (False, '%s: %s' % (type(e).__name__, e))
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def jobs(tier):
    return split('pairs', 32 if tier == 'quick' else 160, tier=tier) + split('queries', 16, tier=tier) + split('sequences', 8, tier=tier) + split('lengths', 16)


# ------------------------------------------- the same index, arrays of other lengths

LENGTHS = (1, 2, 3, 5, 8, 12, 20, 33)
POINTS = (None, 0, 1, 2, 5, 10, 15, -1, -2, -5, -10, -15)
STEPS = (None, 1, 2, 3, 5, 9, -1, -2, -3, -7)
FORMATS = [(('Strided',), 1), (('COO',), 1), (('FlatCOO',), 2), (('CSR',), 2), (('DM', (1, 0), (1,), 'Strided'), 2)]


def index_space():
    for start, stop, step in itertools.product(POINTS, POINTS, STEPS):
        yield slice(start, stop, step)
    for i in range(-34, 34):
        yield i


def line(cfg, dims, n):
    seq = [None if i % 3 == 1 else i for i in range(n)]
    return build(cfg, seq) if dims == 1 else build(cfg, [seq, [None if v is None else v + 100 for v in seq]])


def lengths(ctx, arrays, index):
    """an index after it was used for an array of another length"""
    for cfg, dims in FORMATS:
        some = LENGTHS if cfg[0] == 'Strided' else LENGTHS[2::3] + LENGTHS[-1:]
        for n in some:
            sched.reset_modules()
            for m in (n,) + some:
                x = arrays[cfg, m]
                ctx.case('x of length %d and y of length %d, %r' % (n, m, cfg), 'x[%r], then y[%r]' % (index, index))
                want = [None if i % 3 == 1 else i for i in range(m)]
                if isinstance(index, int):
                    try:
                        want = want[index]
                    except IndexError:
                        want = 'IndexError'
                else:
                    want = want[index]
                try:
                    if dims == 1:
                        got = x[index]
                    else:
                        got = x[0, index]
                    if is_storage(got):
                        got = [got[i] for i in range(got.shape[0])]
                except IndexError:
                    got = 'IndexError'
                ctx.check(core.same(got, want), '%r, expected %r', got, want)
                ctx.transitions += 1
    ctx.state(repr(index))
    ctx.traces += 1


def describe(item):
    return '%r.fromobject(%r, unspecified=%r)' % (item[0], values(item[2][:2], item[1]), item[2][2])


def run_job(job, ctx):
    sched.save_modules()
    if job['leg'] == 'sequences':
        for k, l in part(sequence_space(job['tier']), job):
            sequences(ctx, k, l)
        return
    if job['leg'] == 'lengths':
        made = {(cfg, n): line(cfg, dims, n) for cfg, dims in FORMATS for n in LENGTHS}
        for index in part(index_space(), job):
            lengths(ctx, made, index)
        return
    items = arrays(job['tier'])
    want = {}
    mine = list(part(items, job))
    for item in mine:
        ctx.case('y = %s' % describe(item))
        ok, want[item] = alone(item)
        ctx.check(ok, 'the queries of y fail: %s', want[item])
    for b, item in enumerate(mine):
        if job['leg'] == 'queries':
            queries(ctx, item, want[item])
            continue
        for a, first in enumerate(items):
            for mode in ('kept', 'dropped', 'after') if job['tier'] != 'quick' else (('kept', 'dropped', 'dropped', 'after')[(a + b) % 4],):
                pair(ctx, first, item, want[item], mode)


# ------------------------------------------- sequences at the same place in memory

def sequence(k):
    """a nested sequence; all of an outer type have the same outer length"""
    outer = (list, tuple)[k % 2]
    k //= 2
    row = (list, tuple)[k % 2]
    width, base = ((1, 10), (2, 10), (3, 10), (2, 50), (5, 10), (3, 0))[k // 2 % 6]
    if k // 12:
        return outer([outer([row([base + i + 2 * j + w for w in range(width)]) for j in range(1 + width % 2)]) for i in range(3)])
    return outer([row([base + 10 * i + w if (i + w) % 3 != 1 else None for w in range(width)]) for i in range(3)])


def sequence_space(tier):
    n = 24 if tier == 'quick' else 48
    return ((k, l) for k in range(n) for l in range(n) if (k - l) % 2 == 0)


def sequences(ctx, k, l):
    ctx.state((k, l))
    for cfg in [('Strided',), ('COO',), ('FlatCOO',), ('CSR',), ('DM', (1, 0), (1,), 'Strided'), ('DM', (1, 0), (1,), 'COO')]:
        sched.reset_modules()
        if cfg[0] in ('CSR', 'DM') and 24 <= max(k, l):
            continue
        x = seq = None
        for again in range(10):
            seq = sequence(k)
            old = id(seq)
            x = build(cfg, seq)
            read(x, tuple(x.shape))
            x.equal(seq)
            del seq
            x = None
            seq = sequence(l)
            if id(seq) == old:
                ctx.count('same_address')
                break
        ctx.case('x = %r.fromobject(%r)' % (cfg, sequence(k)), 'x.equal(the same), both are deleted', 'x = %r.fromobject(%r)' % (cfg, sequence(l)))
        x = build(cfg, seq)
        table = {i: at(seq, i) for i in itertools.product(*map(range, shape_of(seq)))}
        expect_reads(ctx, x, shape_of(seq), table, 'of the second array')
        # it takes the list as the other array, or as the value of an assignment
        ctx.check(bool(x.equal(seq)), 'not equal to the sequence that it was made from')
        x[:] = seq
        expect_reads(ctx, x, shape_of(seq), table, 'of the second array after x[:] = the sequence')
        ctx.transitions += 3
        ctx.traces += 1


def at(seq, index):
    for i in index:
        seq = seq[i]
    return seq


def shape_of(seq):
    return (len(seq),) + shape_of(seq[0]) if isinstance(seq, (list, tuple)) else ()


def pair(ctx, first, item, want, mode):
    sched.reset_modules()
    ctx.case('x = %s; all queries of x, failing operations, and assignments to all elements of x; y = %s (x is %s)' % (
        describe(first), describe(item), {'kept': 'kept', 'dropped': 'deleted before y is made', 'after': 'made after y'}[mode]))
    if mode == 'after':
        y = fresh(item)
    x = fresh(first)
    disturb(x)
    if mode == 'dropped':
        del x
    if mode != 'after':
        y = fresh(item)
    compare(ctx, answers(y), want)
    ctx.state((first, item, mode))
    ctx.traces += 1


def compare(ctx, got, want):
    for (name, _), g, w in zip(QUERIES, got, want):
        if not core.same(g, w):
            ctx.fail('%s of y: %r, in a new process %r' % (name, g, w))
    ctx.transitions += len(want)
    ctx.outcome(repr(want))


def queries(ctx, item, want):
    for p, q in itertools.product(range(len(QUERIES)), repeat=2):
        sched.reset_modules()
        ctx.case('y = %s' % describe(item), 'first %s, then %s' % (QUERIES[p][0], QUERIES[q][0]))
        y = fresh(item)
        g = QUERIES[p][1](y)
        ctx.check(core.same(g, want[p]), '%s of y: %r, in a new process %r', QUERIES[p][0], g, want[p])
        g = QUERIES[q][1](y)
        ctx.check(core.same(g, want[q]), '%s of y: %r, in a new process %r', QUERIES[q][0], g, want[q])
        ctx.transitions += 2
    ctx.state(item)
    ctx.traces += 1
