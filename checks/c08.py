"""C08: how many collections are made, how large they are, where objects go."""
import itertools

import ZODB

import gen
from citrine.database.containerdb import ContainerDb
from citrine.storage.collection import Collection
from citrine.storage.container import Container
from citrine.storage.group import Group
from citrine.storage.transaction import TransactionManager
from citrine.storage.utils import (get_primes, is_prime,
                                   next_number_of_collections,
                                   number_of_collections)

LIMIT = 20000


def sieve(limit):
    """documented: primes starting at 1"""
    marks = bytearray([1]) * (limit + 1)
    marks[0] = 0
    for number in range(2, int(limit ** .5) + 1):
        if marks[number]:
            marks[number * number::number] = bytes(
                len(range(number * number, limit + 1, number)))
    return [number for number in range(1, limit + 1) if marks[number]]


PRIMES = sieve(400000)
PRIME_SET = set(PRIMES)


def next_prime(number):
    import bisect
    return PRIMES[bisect.bisect_left(PRIMES, number)]


def primes_case(ctx, rng):
    low = rng.choice([1, 1, 2, rng.randint(1, 200), rng.randint(1, LIMIT)])
    high = rng.choice([low, low + 1, low + rng.randint(0, 300)])
    wanted = [p for p in PRIMES if low <= p <= high]
    ctx.step('primes', low, high)
    ctx.equal(list(get_primes(low, high)), wanted, f'primes {low}..{high}')
    ctx.equal(list(get_primes(min=low, max=high)), wanted,
              f'primes {low}..{high} by name')
    ctx.equal(list(itertools.islice(get_primes(low), 12)),
              [p for p in PRIMES if p >= low][:12], f'primes from {low}')
    ctx.equal(list(itertools.islice(get_primes(), 20)), PRIMES[:20],
              'all primes')
    for number in range(low, min(high, low + 50) + 1):
        ctx.equal(bool(is_prime(number)), number in PRIME_SET,
                  f'is_prime({number})')
        ctx.count('numbers')
    square = rng.choice(PRIMES[1:150])
    ctx.equal(bool(is_prime(square * square)), False, 'square of a prime')
    ctx.equal(bool(is_prime(square * rng.choice(PRIMES[1:150]))), False,
              'product of primes')
    ctx.saw('primes', low, high)


def count_case(ctx, rng):
    largest = rng.choice([1, 2, 3, 10, 999, 5000, rng.randint(1, 9000)])
    times = rng.randint(1, rng.choice([3, 30, 3000]))
    capacity = max(1, largest * times + rng.choice([-1, 0, 0, 1]))
    if rng.random() < .4:
        capacity = rng.randint(1, 200000)
    needed = -(-capacity // largest)
    ctx.step('count', capacity, largest)
    got = number_of_collections(capacity, largest)
    ctx.equal(got, next_prime(needed),
              f'number_of_collections({capacity}, {largest})')
    ctx.expect(got * largest >= capacity, 'capacity is not reached')
    ctx.equal(number_of_collections(capacity),
              next_prime(-(-capacity // 5000)),
              f'number_of_collections({capacity})')
    grown = -(-capacity * 3 // 2)
    ctx.equal(next_number_of_collections(capacity, largest),
              next_prime(-(-grown // largest)),
              f'next_number_of_collections({capacity}, {largest})')
    ctx.equal(next_number_of_collections(capacity),
              next_prime(-(-grown // 5000)),
              f'next_number_of_collections({capacity})')
    ctx.count('counts')
    ctx.saw('count', capacity, largest)


def caps_of(group):
    return [collection.max_size for collection in group.collections]


def custom_case(ctx, rng):
    """custom sizes by position, gaps filled with the default size"""
    kind = rng.choice(['good'] * 6 + ['low', 'key', 'value', 'none', 'max'])
    positions = rng.sample(range(rng.choice([1, 3, 8, 15])),
                           k=1) if rng.random() < .3 else \
        rng.sample(range(15), rng.randint(1, 6))
    custom = {position: rng.choice([1, 2, 7, 100, 5000, 9999])
              for position in positions}
    default = rng.choice([None, 1, 33, 5000, 6001])
    kwargs = {}
    if default is not None:
        kwargs['max_collection_size'] = default
    default = 5000 if default is None else default
    strict = rng.random() < .5
    if rng.random() < .7:
        kwargs['strict'] = strict
    else:
        strict = False
    top = max(custom)
    ctx.step('custom', kind, custom, kwargs)
    ctx.count(f'custom_{kind}')
    if kind == 'good':
        size = rng.choice([None, None, top + 1, top + 2, top + 9])
        if size is not None:
            kwargs['size'] = size
        given = dict(custom)
        group = Group.new(custom=given, **kwargs)
        ctx.equal(given, custom, "the caller's mapping")
        length = max(top + 1, size or 0)
        ctx.equal(caps_of(group), [custom.get(n, default)
                                   for n in range(length)],
                  f'sizes of custom {custom} {kwargs}')
        ctx.equal(bool(group.strict), strict, 'strict of the group')
        ctx.expect(all(bool(c.strict) == strict for c in group.collections),
                   'strict of the collections')
        ctx.saw('custom', caps_of(group))
        placement(ctx, rng, group)
    elif kind == 'low':
        ctx.raises(KeyError, lambda: Group.new(
            custom={**custom, top + 2: 4}, size=rng.randint(1, top + 1),
            **kwargs), 'size below the highest position')
    elif kind == 'key':
        custom[rng.choice(['a', 1.5, None, '1'])] = 5
        ctx.raises(KeyError, lambda: Group.new(custom=custom, **kwargs),
                   f'positions {list(custom)}')
    elif kind == 'value':
        custom[rng.choice(list(custom))] = rng.choice([0, -1, -5000])
        ctx.raises(ValueError, lambda: Group.new(custom=custom, **kwargs),
                   f'sizes {list(custom.values())}')
    elif kind == 'none':
        ctx.raises(ValueError, lambda: Group.new(**kwargs), 'no size at all')
    else:
        kwargs['max_collection_size'] = rng.choice([0, -1, -70])
        ctx.raises(ValueError, lambda: Group.new(size=3, **kwargs),
                   'collections without space')


def placement(ctx, rng, group):
    """each id is stored once, in the collection its bytes name"""
    count = len(group.collections)
    pool = gen.ids(rng, rng.choice([5, 40]))
    for key in pool:
        try:
            group.insert(key, 'v' + key)
        except Exception as error:
            if 'CapacityError' not in type(error).__name__:
                raise
            continue
        holders = [index for index, collection
                   in enumerate(group.collections)
                   if collection.has_key(key)]
        ctx.equal(holders, [gen.index_of(key, count)],
                  f'collections (of {count}) that hold {key!r}')
        ctx.equal(group.get(key), 'v' + key, f'get({key!r})')
        ctx.count('placements')


def plain_case(ctx, rng):
    size = rng.choice([1, 2, 3, 5, 7, 11, 23, 101])
    largest = rng.choice([None, 1, 50, 5000])
    strict = rng.random() < .5
    kwargs = {} if largest is None else {'max_collection_size': largest}
    group = Group.new(size, strict=strict, **kwargs) if rng.random() < .5 \
        else Group.new(size=size, strict=strict, **kwargs)
    ctx.step('plain', size, kwargs, strict)
    ctx.equal(caps_of(group), [largest or 5000] * size, 'sizes')
    ctx.equal(bool(group.strict), strict, 'strict of the group')
    group.strict = not strict
    ctx.expect(all(bool(c.strict) != strict for c in group.collections),
               'strict was not set on every collection')
    for wrong in (1, 'yes', None, 0):
        ctx.raises(TypeError, lambda: setattr(group, 'strict', wrong),
                   f'strict = {wrong!r}')
    ctx.equal(bool(group.strict), not strict, 'strict afterwards')
    group.strict = False
    placement(ctx, rng, group)
    # ids spread over every collection of a prime number of collections
    for number in range(40 * size):
        group.insert(f'https://example.org/{number}', number)
    ctx.expect(all(collection.size for collection in group.collections),
               'a collection is never used')
    db = ZODB.DB(None)
    tm = TransactionManager()
    conn = db.open(tm)
    conn.root()['g'] = group
    tm.commit()
    other = db.open(TransactionManager())
    loaded = other.root()['g']
    ctx.equal(caps_of(loaded), [largest or 5000] * size, 'sizes after loading')
    for index, collection in enumerate(loaded.collections):
        for key in collection.keys():
            ctx.equal(gen.index_of(key, size), index, f'place of {key!r}')
    db.close()
    ctx.saw('plain', size, largest, strict)


def container_case(ctx, rng):
    capacity = rng.choice([1, 2, 5, 100, 4999, 5000, 5001, 100000,
                           rng.randint(1, 60000)])
    largest = rng.choice([None, 5000, 1000, 100])
    if largest and capacity / largest > 300:
        largest = None
    strict = rng.random() < .5
    kwargs = {} if largest is None else {'collection_max_size': largest}
    ctx.step('container', capacity, kwargs, strict)
    way = rng.choice(['new', 'resize', 'db'])
    limit = largest or 5000
    needed = next_prime(-(-capacity // limit))
    if way == 'new':
        container = Container.new(capacity, strict=strict, **kwargs)
    elif way == 'resize':
        container = Container.new(1, strict=strict)
        container.resize(capacity, limit)
    else:
        limit = 5000
        needed = next_prime(-(-capacity // limit))
        path = ctx.folder() + '/db'
        db = ContainerDb.new(path, capacity=capacity, strict=strict)
        container = db.open(TransactionManager()).container
    caps = caps_of(container.primary)
    ctx.equal(len(caps), needed, f'{way}: collections for {capacity}')
    ctx.equal(len(container.groups), 1, f'{way}: groups')
    ctx.expect(sum(caps) >= capacity, f'{way}: capacity')
    ctx.equal(len(set(caps)), 1, f'{way}: equal collections')
    ctx.equal(caps[0], min(limit, needed * capacity), f'{way}: size of one')
    ctx.equal(container.capacity, sum(caps), f'{way}: capacity')
    ctx.equal(bool(container.strict), strict, f'{way}: strict')
    for wrong in (1, 'yes', None):
        ctx.raises(TypeError, lambda: setattr(container, 'strict', wrong),
                   f'strict = {wrong!r}')
    if way == 'db':
        db.close()
    ctx.count('containers')
    ctx.saw(way, capacity, largest)


def run(ctx):
    ctx.rule = ('prime generators against a sieve, numbers of collections '
                'against exact arithmetic, sizes and strictness of custom and '
                'plain groups and of containers against the documented rules, '
                'the collection that holds each id; distinct: parameters')
    ctx.require(numbers=2000, counts=500, custom_good=100, placements=2000,
                containers=60, custom_low=5, custom_key=5, custom_value=5)
    quick = ctx.quick
    ctx.case(lambda rng: primes_case(ctx, rng), 'primes',
             150 if quick else 3000, 10 if quick else 200)
    ctx.case(lambda rng: count_case(ctx, rng), 'count',
             1500 if quick else 40000, 10 if quick else 200)
    ctx.case(lambda rng: custom_case(ctx, rng), 'custom',
             400 if quick else 8000, 10 if quick else 200)
    ctx.case(lambda rng: plain_case(ctx, rng), 'plain',
             60 if quick else 1500, 10 if quick else 200)
    ctx.case(lambda rng: container_case(ctx, rng), 'container',
             150 if quick else 3000, 10 if quick else 200)
