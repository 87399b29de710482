"""C04: sizes, usage and health levels agree with what is stored."""
from fractions import Fraction

import ZODB

import gen
from citrine.database.containerdb import ContainerDb
from citrine.storage.collection import Collection
from citrine.storage.container import Container
from citrine.storage.group import Group
from citrine.storage.transaction import TransactionManager

LEVELS = [0, 60, 70, 80, 90]


def level(used, limit):
    """highest level not above the usage, a started percent counts"""
    percent = -((-100 * used) // limit)
    return max(value for value in LEVELS if value <= percent)


def near(ctx, got, used, limit, what):
    ctx.expect(abs(Fraction(got) - Fraction(used, limit)) < Fraction(1, 10**9),
               lambda: f'{what}: got {got!r}, expected {used}/{limit}')


def check_collection(ctx, collection, limit, what):
    held = len(list(collection.keys()))
    ctx.equal(collection.size, held, f'{what}: size')
    ctx.equal(collection.max_size, limit, f'{what}: max_size')
    near(ctx, collection.usage, held, limit, f'{what}: usage')
    float_percent = held / limit * 100
    wanted = level(held, limit)
    # a usage that floating point cannot represent exactly may be rounded up
    if abs(float_percent - round(float_percent)) < 1e-6:
        nearby = {level(held, limit), max(
            value for value in LEVELS if value <= round(float_percent) + 1)}
        if round(float_percent) in (59, 69, 79, 89):
            ctx.expect(collection.status in nearby, f'{what}: status')
            return held, collection.status
    ctx.equal(collection.status, wanted, f'{what}: status at '
                                         f'{held}/{limit}')
    ctx.count(f'level_{wanted}')
    return held, wanted


def check_group(ctx, group, caps, what):
    ctx.equal(len(group.collections), len(caps), f'{what}: collections')
    held, levels = [], []
    for index, (collection, cap) in enumerate(zip(group.collections, caps)):
        size, status = check_collection(ctx, collection, cap,
                                        f'{what} collection {index}')
        held.append(size)
        levels.append(status)
    ctx.equal(group.size, sum(held), f'{what}: size')
    ctx.equal(group.size, len(list(group.keys())), f'{what}: size and keys')
    ctx.equal(group.max_size, sum(caps), f'{what}: max_size')
    ctx.equal(group.max_collection_size, max(caps),
              f'{what}: max_collection_size')
    near(ctx, group.usage, sum(held), sum(caps), f'{what}: usage')
    ctx.equal(group.status, max(levels), f'{what}: status')
    usages = group.collection_usage
    ctx.equal(len(usages), len(caps), f'{what}: collection_usage')
    for collection, size, cap in zip(group.collections, held, caps):
        near(ctx, usages[collection], size, cap, f'{what}: collection_usage')
    shares = [Fraction(size, cap) for size, cap in zip(held, caps)]
    high, low = max(shares), min(shares)
    near(ctx, group.highest_collection_usage, high.numerator,
         high.denominator, f'{what}: highest_collection_usage')
    near(ctx, group.lowest_collection_usage, low.numerator, low.denominator,
         f'{what}: lowest_collection_usage')
    ctx.count('group_audits')
    return sum(held), max(levels)


def check_container(ctx, container, all_caps, what):
    """all_caps: capacities per group, the primary first"""
    sizes = []
    for index, (group, caps) in enumerate(zip(container.groups, all_caps)):
        sizes.append(check_group(ctx, group, caps, f'{what} group {index}'))
    ctx.equal(len(container.groups), len(all_caps), f'{what}: groups')
    ctx.equal(container.size, sum(size for size, _ in sizes), f'{what}: size')
    ctx.equal(container.max_size, sum(map(sum, all_caps)),
              f'{what}: max_size')
    primary(ctx, container, sizes[0], all_caps[0], what)
    ctx.count('container_audits')
    return sizes[0]


def primary(ctx, target, size_level, caps, what):
    size, status = size_level
    ctx.equal(target.capacity, sum(caps), f'{what}: capacity')
    ctx.equal(target.used, size, f'{what}: used')
    near(ctx, target.usage, size, sum(caps), f'{what}: usage')
    ctx.equal(target.status, status, f'{what}: status')


def some_caps(rng, many=0):
    if rng.random() < many:
        return [rng.choice([1, 2, 3, 5])
                for _ in range(rng.choice([101, 130, 401]))]
    return [rng.choice([1, 2, 3, 5, 10, 10, 20, 33, 100])
            for _ in range(rng.choice([1, 1, 2, 3, 5]))]


def make_group(rng, caps, strict):
    if rng.random() < .5:
        return Group.new(custom=dict(enumerate(caps)), strict=strict)
    return Group(tuple(Collection(max_size=cap) for cap in caps),
                 strict=strict)


def fill(ctx, rng, store, amount, pool):
    for _ in range(amount):
        key = rng.choice(pool)
        kind = rng.random()
        try:
            if kind < .55:
                store.insert(key, 1)
            elif kind < .7:
                store.update({key: 2, rng.choice(pool): 3})
            elif kind < .8:
                store.setdefault(key, 4)
            elif store.has_key(key):
                store.pop(key)
        except Exception as error:
            if 'CapacityError' not in type(error).__name__:
                raise
            ctx.count('refused')


def exact_case(ctx, rng):
    """a collection filled one by one crosses every level"""
    cap = rng.choice([1, 2, 3, 7, 10, 20, 50, 64, 100, 150, 1000])
    collection = Collection(max_size=cap, strict=rng.random() < .5)
    over = 0 if collection.strict else rng.choice([0, 1, cap])
    for number in range(min(cap, 160) + min(over, 200)):
        held, status = check_collection(ctx, collection, cap, 'filling')
        ctx.saw('exact', cap, held, status)
        collection.insert(f'k{number}', number)
    check_collection(ctx, collection, cap, 'filled')
    while collection.size:
        collection.popitem()
        if rng.random() < .1:
            check_collection(ctx, collection, cap, 'emptying')
    check_collection(ctx, collection, cap, 'emptied')


def big_case(ctx, rng):
    """collections of many objects, a few of them beyond a level"""
    cap = rng.choice([7919, 10000, 30011, 60000])
    share = rng.choice([59, 69, 79, 89])
    number = share * cap // 100
    store = Collection(max_size=cap, strict=rng.random() < .5)
    if rng.random() < .3:
        store = Group((store,))
    store.update({f'k{index:06}': None for index in range(number)})
    for _ in range(4):
        wanted = level(number, cap)
        if abs(number * 100 / cap - share) > 1e-6:
            ctx.equal(store.status, wanted, f'level of {number} in {cap}')
            ctx.count(f'big_{wanted}')
        ctx.equal((store.size, store.max_size), (number, cap),
                  f'size and capacity of {number} in {cap}')
        near(ctx, store.usage, number, cap, f'usage of {number} in {cap}')
        store.insert(f'x{number:06}', number)
        number += 1
    ctx.saw('big', cap, share)


def each_level(ctx, rng):
    """every number of objects in collections of every small size"""
    start = rng.case_index * 10
    for cap in range(start + 1, start + 11):
        collection = Collection(max_size=cap)
        for number in range(cap):
            collection.insert(f'k{number:03}', number)
            ctx.equal((collection.size, collection.usage, collection.status),
                      (number + 1, (number + 1) / cap,
                       level(number + 1, cap)),
                      f'size, usage and level of {number + 1} in {cap}')
            ctx.count('levels')


def memory_case(ctx, rng):
    all_caps = [some_caps(rng, .03) for _ in range(rng.choice([1, 1, 2, 3]))]
    strict = rng.random() < .3
    groups = [make_group(rng, caps, strict) for caps in all_caps]
    container = Container(groups[0], tuple(groups[1:]), strict=strict)
    pool = gen.ids(rng, rng.choice([5, 40, 150]))
    for _ in range(rng.choice([2, 5])):
        for group in groups:
            fill(ctx, rng, group, rng.choice([0, 3, 30]), pool)
            if len(group.collections) > 100:
                # most of them stay empty
                ctx.count('many_collections')
        for _ in range(5):
            key = rng.choice(pool)
            try:
                container.write(key, 1)
            except Exception as error:
                if 'CapacityError' not in type(error).__name__:
                    raise
        if rng.random() < .2:
            groups[-1].clear()
        check_container(ctx, container, all_caps, 'container')
        ctx.saw(all_caps, [[c.size for c in g.collections] for g in groups])
    if len(ctx.samples) < 3:
        ctx.sample({'capacities': all_caps,
                    'held': [[c.size for c in g.collections]
                             for g in groups]})


def database_case(ctx, rng):
    """the same figures through connections, commits, aborts and reopening"""
    path = ctx.folder() + '/db'
    capacity = rng.choice([1, 5, 20, 300])
    strict = rng.random() < .3
    db = ContainerDb.new(path, capacity=capacity, strict=strict)
    conn = db.open(TransactionManager())
    caps = [c.max_size for c in conn.container.primary.collections]
    ctx.expect(sum(caps) >= capacity, 'capacity of the new database')
    all_caps = [caps]
    if rng.random() < .5:
        with conn.transaction_manager:
            more = some_caps(rng)
            conn.root.container = Container(
                conn.container.primary, (make_group(rng, more, False),),
                strict=strict)
        all_caps.append(more)
    pool = gen.ids(rng, rng.choice([5, 40]))
    second = db.open(TransactionManager())
    if not strict and rng.random() < .3:
        # trees of many parts
        with conn:
            pool = [f'k{number}' for number in range(400)]
            for group in conn.container.groups:
                group.update({key: 1 for key in rng.sample(
                    pool, rng.choice([100, 300]))})
        ctx.count('large_databases')
    for _ in range(4):
        for _ in range(rng.choice([3, 15])):
            key = rng.choice(pool)
            try:
                if rng.random() < .7:
                    conn.update(key, 'x')
                else:
                    conn.delete(key)
            except Exception as error:
                if 'CapacityError' not in type(error).__name__:
                    raise
        found = check_container(ctx, conn.container, all_caps, 'connection')
        primary(ctx, conn, found, caps, 'connection')
        second.sync()
        found = check_container(ctx, second.container, all_caps, 'second')
        primary(ctx, second, found, caps, 'second connection')
        ctx.equal(bool(second.strict), strict, 'strict of the connection')
        with conn.transaction_manager as tm:
            conn.autocommit = False
            try:
                conn.update(rng.choice(pool) + '!', 1)
            except Exception as error:
                if 'CapacityError' not in type(error).__name__:
                    raise
            found = check_container(ctx, conn.container, all_caps, 'pending')
            primary(ctx, conn, found, caps, 'pending')
            tm.abort()
        check_container(ctx, conn.container, all_caps, 'aborted')
        if rng.random() < .3:
            conn.autocommit = False
            for _ in range(rng.choice([3, 60])):
                key = rng.choice(pool)
                try:
                    conn.update(key, 'y') if rng.random() < .3 else \
                        conn.delete(key)
                except Exception as error:
                    if 'CapacityError' not in type(error).__name__:
                        raise
            check_container(ctx, conn.container, all_caps, 'in a block')
            if rng.random() < .5:
                conn.transaction_manager.commit()
            else:
                conn.transaction_manager.abort()
            conn.autocommit = True
            check_container(ctx, conn.container, all_caps, 'after a block')
        ctx.saw('db', all_caps, found)
    conn.close()
    second.close()
    db.close()
    db = ContainerDb(path)
    conn = db.open(TransactionManager())
    found = check_container(ctx, conn.container, all_caps, 'reopened')
    primary(ctx, conn, found, caps, 'reopened')
    ctx.equal(bool(conn.strict), strict, 'strict after reopening')
    ctx.count('reopened')
    conn.close()
    db.close()


def identity_case(ctx, rng):
    """names of collections: unique when generated, kept when given"""
    group = Group.new(rng.choice([2, 5, 23]))
    names = [collection.uuid for collection in group.collections]
    ctx.equal(len(set(names)), len(names), 'distinct names of collections')
    name = gen.an_id(rng) or 'x'
    first, second = Collection(uuid=name), Collection(uuid=name)
    ctx.equal(first.uuid, name, 'given name')
    ctx.equal(first.max_size, 5000, 'default size of a collection')
    ctx.raises(KeyError, lambda: Group((first, second)),
               'a group of two collections of one name')
    ctx.equal(len(Group((first, Collection())).collections), 2,
              'a group of different collections')


def run(ctx):
    ctx.rule = ('figures of collections, groups, containers and connections '
                'compared with a recount of what iteration yields, after '
                'random histories and item by item across every level; '
                'distinct: (capacities, items per collection)')
    ctx.require(group_audits=400, container_audits=200, level_0=100,
                level_60=50, level_70=50, level_80=50, level_90=50,
                many_collections=5, big_60=1,
                reopened=5, large_databases=3)
    quick = ctx.quick
    ctx.case(lambda rng: each_level(ctx, rng), 'levels',
             12 if ctx.quick else 100)
    ctx.case(lambda rng: big_case(ctx, rng), 'big', 12 if quick else 200,
             10 if quick else 60)
    ctx.case(lambda rng: exact_case(ctx, rng), 'exact',
             150 if quick else 3000, 5 if quick else 100)
    ctx.case(lambda rng: memory_case(ctx, rng), 'memory',
             500 if quick else 10000, 8 if quick else 400)
    ctx.case(lambda rng: database_case(ctx, rng), 'database',
             60 if quick else 1500, 8 if quick else 400)
    ctx.case(lambda rng: identity_case(ctx, rng), 'identity',
             30 if quick else 300)
