"""Failing operations: a fault at every access, then everything is as before and works when repeated."""
import itertools
from .. import core, ref, gen
from ..impl import (is_hole, placeholder, with_placeholders, all_configs, attributes, plain_configs, wide_configs, build, split, part, make, variants, alternate, read, expect_reads, dense,
                    KIND, S, SPARSE, kind_name)

PROPERTY = 'C23'
LEVEL = 'model_checking'
BOUND = ('a fault injected at every single access to the assigned value (nested sequence or array) and, for every operation (slicing, '
         'conversion, copying, comparison, listing), at every single access to the stored data, and at every comparison and text of an element; every format and dimension mapping of '
         'shapes up to (2,2) and (2,1,2); too short and too flat values; selected accesses also with 60 to 960 elements; afterwards every array is read and the operation is repeated; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements (false, unordered, unhashable ones)')


class Fault(Exception):
    pass


class Bomb:
    """counts accesses; the one with number `at` fails"""

    def __init__(self):
        self.n = 0
        self.at = None

    def tick(self):
        self.n += 1
        if self.at is not None and self.n == self.at:
            raise Fault('injected')


class FList(list):
    """a list whose items are fetched through a bomb"""
    bomb = None

    def __getitem__(self, i):
        if self.bomb is not None:
            self.bomb.tick()
        r = list.__getitem__(self, i)
        return r

    def copy(self):
        return list(self)


def armed_seq(seq, bomb):
    if isinstance(seq, list):
        r = FList(armed_seq(s, bomb) for s in seq)
        r.bomb = bomb
        return r
    return seq


def arm(x, bomb):
    """put a bomb into the buffers of values and indices of a storage"""
    for k, v in attributes(x):
        if isinstance(v, KIND['Buffer']):
            for a, d in attributes(v):
                if type(d) is list:
                    f = FList(d)
                    f.bomb = bomb
                    setattr(v, a, f)
        elif isinstance(v, S.Storage):
            arm(v, bomb)


def space(tier):
    shapes = [(3,), (2, 2), (2, 1, 2)] + ([(5,), (3, 2), (2, 2, 2)] if tier != 'quick' else [])
    for shape in shapes:
        for cfg in all_configs(len(shape)):
            yield shape, cfg


def jobs(tier):
    k = 24 if tier == 'quick' else 96
    return split('assign', k, tier=tier) + split('operations', k, tier=tier) + split('bad', 8, tier=tier) + split('elements', k, tier=tier) + split('large', 16, tier=tier) + with_placeholders(
        lambda ph: split('assign', 8, tier=tier, ph=ph, every=7) + split('operations', 8, tier=tier, ph=ph, every=7))


def run_job(job, ctx):
    leg = job['leg']
    if leg == 'large':
        for item in part(large_space(job['tier']), job):
            large(ctx, *item)
            ctx.state(item)
        return
    for shape, cfg in part(space(job['tier']), job):
        if leg == 'assign':
            assign(ctx, shape, cfg)
        elif leg == 'operations':
            operations(ctx, shape, cfg)
        elif leg == 'elements':
            elements(ctx, shape, cfg)
        else:
            bad(ctx, shape, cfg)
        ctx.state((shape, cfg))


def assign(ctx, shape, cfg):
    for text, mk, sh, table in variants(cfg, shape, alternate(shape), 0 if len(shape) < 3 else None):
        for index in gen.index_menu(sh, -1):
            rs, m = ref.select(sh, index)
            if not rs or 0 in rs:
                continue
            new = {k: 500 + n for n, k in enumerate(m)}
            seq = ref.nested(rs, lambda i: new[i])
            for form in ('nested list', 'Strided', 'COO'):
                bomb = Bomb()
                at = 0
                while True:
                    at += 1
                    x = mk()
                    if form == 'nested list':
                        value = armed_seq(seq, bomb)
                    else:
                        value = build((form,), seq)
                        arm(value, bomb)
                    ctx.case(text, '[%r] = %r as %s, failing at access %d' % (index, seq, form, at))
                    bomb.n, bomb.at = 0, at
                    try:
                        x[index] = value
                        failed = False
                    except Fault:
                        failed = True
                    bomb.at = None
                    ctx.transitions += 1
                    if not failed:
                        break
                    expect_reads(ctx, x, sh, table, 'after the assignment failed')
                    # once more
                    x[index] = value
                    expect_reads(ctx, x, sh, after(cfg, table, m, new), 'after the assignment was repeated')
                    ctx.state((text, repr(index), form, at))
                expect_reads(ctx, x, sh, after(cfg, table, m, new), 'after the assignment')
                ctx.check(at > 1 or not any(dense(cfg) or not is_hole(table[v]) for v in m.values()), 'no access was seen')
                ctx.traces += 1
                ctx.outcome((form, at))


def large_space(tier):
    for shape in [(60,), (300,), (12, 80), (70, 6), (5, 9, 7), (2, 40), (34, 2), (3, 4, 6)] + ([(1100,), (3, 600), (130, 5), (4, 3, 5, 4)] if tier != 'quick' else []):
        for cfg in [('Strided',), ('COO',), ('FlatCOO',), ('CSR',)] + ([('DM', tuple(reversed(range(len(shape)))), (), 'Strided')] if len(shape) > 1 else []) + (
                [('DM', (0,), (), 'Buffer')] if len(shape) == 1 else [('DM', tuple(range(len(shape))), (1,), ('DM', (1, 0), (1,), 'FlatCOO'))]):
            # positions in sparse formats are searched for, which takes long
            if (cfg != ('CSR',) or len(shape) == 2) and (len(cfg) > 1 and cfg[-1] != ('DM', (1, 0), (1,), 'FlatCOO') or cfg == ('Strided',) or ref.prod(shape) <= 100):
                yield shape, cfg


def large(ctx, shape, cfg):
    """many elements: values that fail at an access after few or many others, and too short ones"""
    n = ref.prod(shape)
    seq, table = make(shape, set(itertools.product(*map(range, shape))))
    R = slice(None)
    for index in [(R,), (slice(None, None, -1),) * len(shape), (R,) * (len(shape) - 1) + (slice(1, None, 2),), (slice(1, -1),)]:
        if len(index) == 1 and len(shape) > 1:
            index = index + (R,) * (len(shape) - 1)
        rs, m = ref.select(shape, index)
        if 0 in rs:
            continue
        full = ref.nested(rs, lambda i: 900 + sum(i))
        new = {k: 900 + sum(k) for k in m}

        def run(text, value, errors):
            x = build(cfg, seq)
            ctx.case('x = %r.fromobject(%d elements of shape %r)' % (cfg, n, shape), 'x[%r] = %s' % (index, text))
            try:
                x[index] = value
                failed = False
            except errors:
                failed = True
            ctx.transitions += 1
            if failed:
                expect_reads(ctx, x, shape, table, 'after the assignment failed')
            return x, failed
        for form in ('nested list', 'Strided', 'COO'):
            bomb = Bomb()
            if form == 'nested list':
                value = armed_seq(full, bomb)
            else:
                value = build((form,), full)
                arm(value, bomb)
            bomb.n, bomb.at = 0, None
            run('%s' % form, value, Fault)
            last = bomb.n
            for at in sorted({1, 2, 3, 17, last // 3, last // 2, last - 1, last} | {k for k in range(30, last, max(30, last // 10))}):
                if not 0 < at <= last:
                    continue
                bomb.n, bomb.at = 0, at
                x, failed = run('%s that fails at access %d of %d' % (form, at, last), value, Fault)
                bomb.at = None
                ctx.check(failed, 'the failure of the value was hidden')
                x[index] = value
                expect_reads(ctx, x, shape, after(cfg, table, m, new), 'after the assignment was repeated')
            ctx.traces += 1
        deep = full[:-1] + [full[-1][:-1]] if len(rs) > 1 else full[:-1]
        half = rs[0] // 2
        for text, value in [('a value that lacks the last item', full[:-1]), ('a value with a shorter last row', deep), ('half of a value', full[:half]), ('an empty value', []),
                            ('a value with a shorter row in the middle', full[:half] + [full[half][:-1]] + full[half + 1:] if len(rs) > 1 else [])]:
            x, failed = run(text, value, (IndexError, TypeError, ValueError, AssertionError))
            ctx.check(failed, 'a value of a wrong shape was accepted')


def after(cfg, table, m, new):
    now = dict(table)
    for k, v in m.items():
        if dense(cfg) or not is_hole(table[v]):
            now[v] = new[k]
    return now


def op_menu(shape):
    n = len(shape)
    rev = (slice(None, None, -1),) * n
    yield 'x[%r]' % (rev,), lambda x: x[rev], rev
    part_ = (slice(1, None),) + (slice(None),) * (n - 1)
    yield 'x[%r]' % (part_,), lambda x: x[part_], part_
    if n > 1:
        fix = (slice(None),) * (n - 1) + (-1,)
        yield 'x[%r]' % (fix,), lambda x: x[fix], fix
    for kind in ('Strided', 'COO', 'FlatCOO', 'CSR'):
        if kind == 'CSR' and n != 2:
            continue
        yield 'x.as_%s()' % kind, (lambda x, kind=kind: getattr(x, 'as_' + kind)()), None
        yield 'x.as_%s(unspecified=%r).copy()' % (kind, placeholder()), (lambda x, kind=kind: getattr(x, 'as_' + kind)(unspecified=placeholder()).copy()), None
    yield 'x.as_DM()', lambda x: x.as_DM(), None
    yield 'x.copy()', lambda x: x.copy(), None
    yield 'list(x.elements())', lambda x: list(x.elements()), 'elements'
    yield 'x.equal(x.as_Strided())', lambda x: x.equal(x.as_Strided()), 'equal'


def operations(ctx, shape, cfg):
    seq, table = make(shape, alternate(shape))
    for text, op, kind in op_menu(shape):
        at = 0
        while True:
            at += 1
            bomb = Bomb()
            x = build(cfg, seq)
            arm(x, bomb)
            ctx.case('x = %r.fromobject(%r)' % (cfg, seq), '%s, failing at access %d to the stored data' % (text, at))
            bomb.n, bomb.at = 0, at
            try:
                op(x)
                failed = False
            except Fault:
                failed = True
            bomb.at = None
            ctx.transitions += 1
            if not failed and bomb.n < at:
                break
            expect_reads(ctx, x, shape, table, 'after the operation failed')
            r = op(x)
            if kind == 'elements':
                ctx.same(dict(r) if kind_name(x) not in SPARSE else {**{k: placeholder() for k in table}, **dict(r)}, table, 'elements, listed again')
            elif kind == 'equal':
                ctx.check(bool(r) is True, 'not equal when compared again')
            else:
                rs, m = ref.select(shape, kind)
                expect_reads(ctx, r, rs, {k: table[v] for k, v in m.items()}, 'of the result of the repeated operation')
            ctx.state((shape, cfg, text, at))
        ctx.outcome((text, at))
        ctx.traces += 1


class Element:
    """an element whose comparison and text can fail"""
    bomb = None

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        self.bomb.tick()
        return self is other

    __hash__ = object.__hash__

    def __repr__(self):
        self.bomb.tick()
        return self.name

    def __str__(self):
        self.bomb.tick()
        return self.name + '!'


ELEMENT_OPS = [
    ('str(x)', lambda x, y: str(x)), ('repr(x)', lambda x, y: repr(x)), ('x == y', lambda x, y: x == y), ('x != y', lambda x, y: x != y),
    ('x.equal(y)', lambda x, y: x.equal(y)), ('x.equal(y.as_Strided())', lambda x, y: x.equal(y.as_Strided())), ('x.copy()', lambda x, y: x.copy()),
    ('x.copy(unspecified=7)', lambda x, y: x.copy(unspecified=7)), ('x.as_DM(unspecified=7)', lambda x, y: x.as_DM(unspecified=7)),
    ('x.as_DM(storage_class=COO)', lambda x, y: x.as_DM(storage_class=KIND['COO'])), ('list(x)', lambda x, y: list(x)),
    ('list(x.elements())', lambda x, y: list(x.elements())), ('x.size, x.is_full(), len(x)', lambda x, y: (x.size, x.is_full(), len(x))),
    ('x[:] = y', lambda x, y: x.__setitem__(slice(None), y)), ('x[::-1]', lambda x, y: x[::-1])] + [
    ('x.as_%s(%s)' % (k, 'unspecified=7' if u else ''), (lambda x, y, k=k, u=u: getattr(x, 'as_' + k)(**u)))
    for k in ('Strided', 'COO', 'FlatCOO', 'CSR') for u in ({}, {'unspecified': 7})]


def plainly(r):
    if isinstance(r, S.Storage):
        return [kind_name(r), r.shape, sorted(read(r, r.shape).items())]
    if isinstance(r, (list, tuple)):
        return [plainly(v) for v in r]
    return r


def elements(ctx, shape, cfg):
    bomb = Bomb()

    def fresh():
        cells = list(itertools.product(*map(range, shape)))
        vals = {c: items[n] if n % 3 != 1 else None for n, c in enumerate(cells)}
        return build(cfg, ref.nested(shape, lambda i: vals[i])), build(cfg, ref.nested(shape, lambda i: vals[i])), vals
    items = [Element('e%d' % n) for n in range(ref.prod(shape))]
    for e in items:
        e.bomb = bomb
    for back in (False, True):
        for text, op in ELEMENT_OPS:
            if 'as_CSR' in text and len(shape) != 2:
                continue
            x, y, vals = fresh()
            if back:
                x, y = x[::-1], y[::-1]
                vals = {c: vals[(shape[0] - 1 - c[0],) + c[1:]] for c in vals}
            want = plainly(op(x, y))
            at = 0
            while True:
                at += 1
                x, y, _ = fresh()
                if back:
                    x, y = x[::-1], y[::-1]
                ctx.case('x, y = %r.fromobject(%d objects, ...)%s' % (cfg, len(vals), '[::-1]' if back else ''), '%s, failing at the %d-th comparison or text of an element' % (text, at))
                bomb.n, bomb.at = 0, at
                try:
                    op(x, y)
                    failed = False
                except Fault:
                    failed = True
                bomb.at = None
                ctx.transitions += 1
                if not failed and bomb.n < at:
                    break
                for z in (x, y):
                    expect_reads(ctx, z, shape, vals, 'after the operation failed')
                got = plainly(op(x, y))
                ctx.check(core.same(got, want), 'the repeated operation gives %r, expected %r', got, want)
                ctx.check(repr(x) == repr(y), 'the texts are different')
                ctx.state((shape, cfg, text, back, at))
            ctx.outcome((text, at))
            ctx.traces += 1


def bad(ctx, shape, cfg):
    """values that do not fit: too short, not deep enough"""
    for text, mk, sh, table in variants(cfg, shape, set(itertools.product(*map(range, shape))), None):
        for index in gen.index_menu(sh, -1):
            rs, m = ref.select(sh, index)
            if not rs or 0 in rs:
                continue
            full = ref.nested(rs, lambda i: 900 + sum(i))
            values = [full[:-1], [], tuple(full[:-1])]
            if len(rs) > 1:
                values += [list(range(rs[0])), full[:-1] + [full[-1][:-1]]]
            for value in values:
                ctx.case(text, '[%r] = %r' % (index, value))
                x = mk()
                try:
                    x[index] = value
                    ctx.fail('a value of a wrong shape was accepted')
                except (IndexError, TypeError, ValueError, AssertionError):
                    pass
                expect_reads(ctx, x, sh, table, 'after the assignment failed')
                ctx.transitions += 1
            ctx.traces += 1
