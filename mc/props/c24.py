"""Text of arrays: shows exactly the elements, never fails, never changes the array."""
import itertools
from .. import core, ref, gen
from ..impl import (placeholder, with_placeholders, all_configs, wide_configs, wide_shapes, build, split, part, make, variants, alternate, kind_name, expect_reads, KIND,
                    read)

PROPERTY = 'C24'
BOUND = ('str() and repr() of fresh arrays and slices of every format and dimension mapping; strided arrays of 1 and 2 dimensions with '
         '1..60 short and long elements, with up to 41 rows which differ in one place or not, and with every slice of a menu of 7 items per axis; buffers with every window of 0..12 items; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements (false, unordered, unhashable ones)')


def line(values):
    t = ', '.join(map(str, values))
    return '[%s]' % (t if len(t) <= 100 else t[:40] + '.....' + t[-40:])



def want_str(table, sh):
    if len(sh) == 1:
        return line([table[i,] for i in range(sh[0])])
    return '[ %s\n]' % '\n  '.join(line([table[i, j] for j in range(sh[1])]) for i in range(sh[0]))


def strided(tier):
    for n in list(range(1, 61)):
        yield (n,), 'short'
    for n in (1, 2, 9, 10, 11, 40):
        yield (n,), 'long'
    for shape in itertools.product(range(1, 7), (1, 2, 3, 5, 24, 33, 34, 35, 60)):
        yield shape, 'short'
    for shape in ((1, 10), (3, 11), (2, 9)):
        yield shape, 'long'
    # many rows, which differ in few places or not at all
    for shape in itertools.product((7, 10, 11, 12, 20, 41), (1, 3, 5, 35, 60)):
        for kind in ('middle', 'first', 'last', 'blocks'):
            yield shape, kind
    for shape in ((70, 1), (130, 2), (300, 1), (1030, 1), (2, 300), (1030,)):
        yield shape, 'short'


def value(n, kind, c=None, shape=None):
    if kind in ('middle', 'first', 'last'):
        return c[0] % 10 if c[1] == {'middle': shape[1] // 2, 'first': 0, 'last': shape[1] - 1}[kind] else 0
    if kind == 'blocks':
        return 10 + c[0] // 3 * 7 % 10 + c[1]
    if kind == 'long':
        return 'value-%d' % n * (1 + n % 3)
    return [None, n, 'abc'[n % 3], -n, n / 2][n % 5]


def space(tier):
    for shape in [(1,), (4,), (2, 2), (3, 2), (2, 1, 2)] + wide_shapes():
        for cfg in (all_configs(len(shape)) if len(shape) < 4 else wide_configs(len(shape))):
            yield shape, cfg


def jobs(tier):
    return split('strided', 16, tier=tier) + split('all', 16, tier=tier) + split('buffer', 1, tier=tier) + with_placeholders(
        lambda ph: split('strided', 8, tier=tier, ph=ph, every=7) + split('all', 8, tier=tier, ph=ph, every=5))


def run_job(job, ctx):
    leg = job['leg']
    if leg == 'strided':
        for shape, kind in part(strided(job['tier']), job):
            vals = {c: value(n, kind, c, shape) for n, c in enumerate(itertools.product(*map(range, shape)))}
            seq = ref.nested(shape, lambda i: vals[i])
            x = build(('Strided',), seq)
            menu = list(gen.index_menu(shape, 0)) if shape[-1] < 12 and shape[0] < 60 else list(gen.thin_menu(shape, 0))
            for index in [()] + menu:
                ctx.case('str(Strided.fromobject(%r)[%r])' % (seq, index))
                sh, m = ref.select(shape, index)
                if not sh or 0 in sh:
                    continue
                y = x[index]
                t = {k: (placeholder() if vals[v] is None else vals[v]) for k, v in m.items()}
                ctx.same(str(y), want_str(t, sh), 'text')
                check_repr(ctx, y, 'Strided')
                ctx.transitions += 2
                ctx.state((shape, kind, repr(index)))
                ctx.outcome(str(y))
            ctx.traces += 1
    elif leg == 'all':
        for shape, cfg in part(space(job['tier']), job):
            for text, mk, sh, table in variants(cfg, shape, alternate(shape), 0 if len(shape) < 4 else None):
                x = mk()
                ctx.case('str(%s)' % text)
                a, b = str(x), repr(x)
                ctx.transitions += 2
                check_repr(ctx, x, kind_name(x))
                if kind_name(x) != 'Strided':
                    ctx.check(a == b, 'str() is not repr(): %r', a)
                ctx.check(str(x) == a and repr(x) == b, 'the text changes')
                ctx.check('\n' not in b, 'repr() has several lines')
                expect_reads(ctx, x, sh, table, 'after str() and repr()')
                ctx.check(str(mk()) == a and repr(mk()) == b, 'equal arrays have different texts')
                ctx.state((shape, cfg, text))
                ctx.outcome(b)
            ctx.traces += 1
    else:
        for n in list(range(0, 13)) + [30, 60, 120]:
            base = [10 + i for i in range(n)]
            for off in range(n + 1) if n < 13 else (0, 7, 12, 25):
                for size in range(n - off + 1) if n < 13 else (1, 5, n - off):
                    x = KIND['Buffer'](size, off, base)
                    ctx.case('repr(Buffer(%d, %d, %r))' % (size, off, base))
                    r = repr(x)
                    t = str(base[off:off + size])
                    if len(t) > 100:
                        t = t[:40] + '.....' + t[-40:]
                    ctx.check(r.startswith('Buffer(%d, %d, ' % (size, off)) and r.endswith(', unspecified=None)'), 'text %r', r)
                    body = r[len('Buffer(%d, %d, ' % (size, off)):-len(', unspecified=None)')]
                    ctx.check(body.strip('.*') == t.strip('.*'), 'items %r, expected %r', body, t)
                    before = body[:body.index('[')]
                    tail = body[body.rindex(']') + 1:]
                    # one dot for an item, one star for ten items that are outside of the window
                    ctx.check(before.count('.') + 10 * before.count('*') == off, '%d items before the window are shown as %r', off, before)
                    ctx.check(tail.count('.') + 10 * tail.count('*') == n - off - size, '%d items after the window are shown as %r', n - off - size, tail)
                    ctx.transitions += 1
                    ctx.state((n, off, size))
                    ctx.outcome(r)
        ctx.traces += 1


def check_repr(ctx, x, kind):
    r = repr(x)
    ctx.check(r.startswith(kind + '(') and r.endswith(')'), 'repr() of a %s is %r', kind, r)
    ctx.check(repr(tuple(x.shape))[:-1] in r, 'repr() does not show the shape: %r', r)
