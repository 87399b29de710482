"""C02: ordered iteration, ranges and extreme keys of groups and collections."""
from datetime import date

import ZODB
import transaction

import gen
from citrine.storage.collection import Collection
from citrine.storage.group import Group

SIZES = [1, 2, 3, 5, 7, 11, 13, 31]


def build(rng, model):
    kind = rng.choice(['collection', 'group', 'group', 'group'])
    strict = rng.random() < 0.3
    order = list(model)
    rng.shuffle(order)
    extra = [key + '~x' for key in order if rng.random() < 0.2]
    # some are full, or hold more than they should
    limit = 9000 if strict else rng.choice([9000, 9000, 1, 4, 30])
    store = Collection(max_size=limit, strict=strict) if kind == 'collection' \
        else Group.new(rng.choice(SIZES), limit, strict=strict)
    if kind == 'collection' and rng.random() < .2:
        store = Collection(max_size=max(1, len({*order, *extra})),
                           strict=strict)
    for key in order + extra:
        store.insert(key, model.get(key, 0))
    for key in extra:
        if key not in model:
            store.pop(key, None) if rng.random() < .5 else store.pop(key)
        # a key of the model that happens to end in ~x stays
    return kind, store


def bounds(rng, keys):
    """None, stored keys, their neighbours, and ids outside of everything"""
    def one():
        kind = rng.random()
        if kind < 0.2:
            return None
        if kind < 0.55 and keys:
            return rng.choice(keys)
        if kind < 0.7 and keys:
            return rng.choice(keys) + '\x00'
        if kind < 0.8 and keys:
            return rng.choice(keys)[:-1]
        if kind < 0.85:
            return ''
        if kind < 0.9:
            return '\U0010ffff'
        return gen.an_id(rng)
    return one(), one()


def inside(key, low, high):
    return (low is None or key >= low) and (high is None or key <= high)


def check(ctx, rng, store, model, what):
    keys = sorted(model)
    for _ in range(8):
        low, high = bounds(rng, keys)
        wanted = [key for key in keys if inside(key, low, high)]
        style = rng.randrange(3)
        if style == 0:
            args, kwargs = (low, high), {}
        elif style == 1:
            args, kwargs = (), {'min': low, 'max': high}
        else:
            args, kwargs = (low,), {'max': high}
        ctx.step('range', low, high)
        what2 = f'{what} range {low!r}..{high!r}'
        ctx.equal(list(store.iterkeys(*args, **kwargs)), wanted,
                  f'{what2}: iterkeys')
        ctx.equal(list(store.iteritems(*args, **kwargs)),
                  [(key, model[key]) for key in wanted], f'{what2}: iteritems')
        ctx.equal(sorted(store.itervalues(*args, **kwargs)),
                  sorted(model[key] for key in wanted), f'{what2}: itervalues')
        ctx.count('ranges')
        ctx.count('ranges_' + ('empty' if not wanted else
                               'all' if len(wanted) == len(keys) else 'some'))
        # extreme keys
        for name, bound, fits in (
                ('maxKey', high, [k for k in keys if inside(k, None, high)]),
                ('minKey', low, [k for k in keys if inside(k, low, None)])):
            call = getattr(store, name)
            if bound is None and rng.random() < .5:
                fn = call
            else:
                fn = lambda: call(bound)
            if fits:
                ctx.equal(fn(), max(fits) if name == 'maxKey' else min(fits),
                          f'{what}: {name}({bound!r})')
                ctx.count('extremes')
            else:
                ctx.raises(ValueError, fn, f'{what}: {name}({bound!r}) '
                                           'without such a key')
                ctx.count('extremes_missing')
        ctx.saw(what, len(store_collections(store)), low, high, wanted)
    ctx.equal(list(store.iterkeys()), keys, f'{what}: iterkeys()')
    ctx.equal(list(store.iteritems()), sorted(model.items()),
              f'{what}: iteritems()')
    values = sorted(model.values())
    minimums = [3]
    if values:
        minimums = [values[0], values[-1], rng.choice(values)]
        if isinstance(values[0], int):
            minimums += [rng.randint(-5, 60), values[-1] + 1]
    for bound in minimums:
        wanted = sorted(((value, key) for key, value in model.items()
                         if value >= bound), reverse=True)
        ctx.equal([tuple(pair) for pair in store.byValue(bound)], wanted,
                  f'{what}: byValue({bound!r})')
        ctx.count('byvalue')


def store_collections(store):
    return getattr(store, 'collections', (store,))


def one_case(ctx, rng):
    size = rng.choice([0, 1, 2, 5, 20, 60, 200])
    if not ctx.quick and rng.random() < .05:
        size = 2000
    # unique or repeated integer values (values need an order for byValue)
    spread = rng.choice([3, 50, 100000])
    model = {key: rng.randint(-spread, spread) for key in gen.ids(rng, size)}
    if rng.random() < .3:
        # others have an order, too, not all of them are hashable
        make = rng.choice([lambda value: str(value), lambda value: value / 7,
                           lambda value: (value % 3, str(value)),
                           lambda value: [value % 5] * (value % 3),
                           lambda value: date.fromordinal(abs(value) + 1),
                           lambda value: bytes([abs(value) % 5])])
        model = {key: make(value) for key, value in model.items()}
        ctx.count('other_values')
    kind, store = build(rng, model)
    ctx.step('store', kind, len(store_collections(store)), model)
    if len(ctx.samples) < 3 and size == 5:
        ctx.sample({'kind': kind, 'model': model})
    check(ctx, rng, store, model, kind)
    db = None
    if rng.random() < 0.3:
        db = ZODB.DB(None)
        tm = transaction.TransactionManager()
        conn = db.open(tm)
        conn.root()['x'] = store
        tm.commit()
        other_tm = transaction.TransactionManager()
        other = db.open(other_tm)
        check(ctx, rng, other.root()['x'], model, f'loaded {kind}')
        ctx.count('persisted')
        other_tm.abort()
        other.close()
    # remove some, check again
    for key in list(model):
        if rng.random() < .5:
            store.pop(key)
            del model[key]
    check(ctx, rng, store, model, f'{kind} after removals')
    if db is not None:
        tm.abort()
        db.close()


def large_case(ctx, rng):
    """collections of thousands of objects"""
    store = Group.new(rng.choice([1, 2, 3]), 20000) if rng.random() < .7 \
        else Collection(max_size=20000)
    size = rng.choice([1200, 3000, 7000])
    model = {f'{rng.randrange(10 ** 12):x}': rng.randrange(10 ** 9)
             for _ in range(size)}
    for key, value in model.items():
        store.insert(key, value)
    ctx.step('large', len(store_collections(store)), size)
    check(ctx, rng, store, model, 'large store')
    ctx.count('large')


def run(ctx):
    ctx.rule = ('random contents in groups of 1 to 31 collections and single '
                'collections (fresh, loaded from a database, after removals); '
                'ranges with bounds on, next to and outside of stored keys '
                'compared with a sorted dict; distinct: (store kind, bounds, '
                'resulting keys)')
    ctx.require(large=2, ranges=1500, other_values=100, ranges_some=300, extremes_missing=50,
                extremes=500, byvalue=300, persisted=20)
    ctx.case(lambda rng: large_case(ctx, rng), 'large',
             5 if ctx.quick else 60, 15 if ctx.quick else 200)
    ctx.case(lambda rng: one_case(ctx, rng), 'ranges',
             1500 if ctx.quick else 20000, 10 if ctx.quick else 600)
