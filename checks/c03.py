"""C03: strict capacity limits."""
import ZODB
from ZODB.DemoStorage import DemoStorage
import transaction
from ZODB.POSException import ConflictError

import gen
from citrine.database.containerdb import ContainerDb
from citrine.storage.collection import Collection, CollectionCapacityError
from citrine.storage.container import Container
from citrine.storage.group import Group, GroupCapacityError
from citrine.storage.transaction import TransactionManager

MAYBE = object()
FULL = (CollectionCapacityError, GroupCapacityError)


class Slots:
    """
    Which collection of the group an id belongs to, learned from an unlimited
    group of the same shape, so that the oracle does not repeat the placement
    """

    def __init__(self, count):
        self.count = count
        self.cache = {}
        self.probe = Group.new(count, strict=False)

    def __call__(self, key):
        if self.count == 1:
            return 0
        if key not in self.cache:
            self.probe.insert(key, 1)
            found = [index for index, collection
                     in enumerate(self.probe.collections) if collection.size]
            self.probe.clear()
            assert len(found) == 1
            self.cache[key] = found[0]
        return self.cache[key]


def capacities(rng):
    return [rng.choice([1, 1, 2, 3, 5]) for _ in
            range(rng.choice([1, 2, 3, 5, 7]))]


def make_group(ctx, rng, caps, strict):
    """the same group through the different constructors"""
    way = rng.randrange(3)
    if way == 0 and len(set(caps)) == 1:
        ctx.count('by_size')
        return Group.new(len(caps), caps[0], strict=strict)
    if way == 1:
        ctx.count('by_custom')
        custom = dict(enumerate(caps))
        return Group.new(custom=custom, strict=strict)
    ctx.count('by_collections')
    return Group(tuple(Collection(max_size=cap,
                                  strict=rng.random() < .5)
                       for cap in caps), strict=strict)


def content(store):
    return dict(store.items())


def unchanged(ctx, store, model, what):
    got = content(store)
    ctx.equal(sorted(got), sorted(model), f'{what}: stored ids')
    for key, value in got.items():
        ctx.expect(gen.same(value, model[key]),
                   lambda: f'{what}: {key!r} is {value!r}, expected '
                           f'{model[key]!r}')


def fits(model, slots, caps, new):
    load = [0] * len(caps)
    added = [0] * len(caps)
    for key in model:
        load[slots(key)] += 1
    for key in new:
        if key not in model:
            added[slots(key)] += 1
    if not all(not more or have + more <= cap
               for have, more, cap in zip(load, added, caps)):
        return False
    if any(added) and sum(load) + sum(added) > sum(caps):
        # overfull since a time without limit: the total is exceeded although
        # this collection has room, either answer is right
        return None
    return True


def attempt(ctx, store, model, ok, fn, apply, what):
    """runs an operation that must be accepted (ok) or refused"""
    if ok is None:
        ctx.count('overfull')
        try:
            result = fn()
        except FULL:
            unchanged(ctx, store, model, f'after refused {what}')
            return MAYBE
        apply()
        return result
    if ok:
        result = fn()
        apply()
        ctx.count('accepted')
        return result
    ctx.raises(FULL, fn, f'{what} beyond the capacity')
    ctx.count('refused')
    unchanged(ctx, store, model, f'after refused {what}')
    return None


def memory_case(ctx, rng):
    single = rng.random() < .25
    caps = [rng.choice([1, 2, 3, 6])] if single else capacities(rng)
    strict = rng.random() < .75
    slots = Slots(len(caps))
    if single:
        store = Collection(max_size=caps[0], strict=strict)
    else:
        store = make_group(ctx, rng, caps, strict)
    ctx.step('store', single, caps, strict)
    ctx.equal(bool(store.strict), strict, 'strict as created')
    pool = gen.ids(rng, sum(caps) + rng.randint(1, 12))
    serial = gen.Serial()
    model = {}
    for _ in range(rng.choice([20, 60])):
        key = rng.choice(pool)
        value = serial(rng)
        op = rng.choice(['insert'] * 4 + ['update'] * 3 + ['setdefault'] * 3
                        + ['pop'] * 2 + ['strict'] * (rng.random() < .15)
                        + ['popitem'] * (rng.random() < .1))
        ctx.step(op, key, value)
        ok = not strict or fits(model, slots, caps, [key])
        if op == 'insert':
            attempt(ctx, store, model, ok, lambda: store.insert(key, value),
                    lambda: model.setdefault(key, value), f'insert {key!r}')
        elif op == 'setdefault':
            got = attempt(ctx, store, model, ok,
                          lambda: store.setdefault(key, value),
                          lambda: model.setdefault(key, value),
                          f'setdefault {key!r}')
            if got is not MAYBE and (ok or ok is None):
                ctx.expect(gen.same(got, model[key]), 'setdefault result')
        elif op == 'update':
            new = {rng.choice(pool): serial(rng)
                   for _ in range(rng.choice([0, 1, 1, 2, 3, 6, 15]))}
            ctx.step('with', new)
            ok = not strict or fits(model, slots, caps, new)
            attempt(ctx, store, model, ok, lambda: store.update(new),
                    lambda: model.update(new), f'update {sorted(new)!r}')
        elif op == 'pop' and key in model:
            store.pop(key)
            del model[key]
        elif op == 'popitem' and model:
            found, _ = store.popitem()
            del model[found]
        elif op == 'strict':
            strict = not strict
            store.strict = strict
            ctx.count('toggled')
        if strict and len(model) == sum(caps):
            ctx.count('completely_full')
        ctx.saw(caps, strict, sorted(model))
    unchanged(ctx, store, model, 'at the end')
    if len(ctx.samples) < 3:
        ctx.sample({'capacities': caps, 'strict': strict,
                    'trace': [repr(op)[:80] for op in ctx.trace[:8]]})


def bulk_case(ctx, rng):
    """large updates that fit exactly, or are one too large"""
    single = rng.random() < .5
    caps = [rng.choice([50, 120, 700])] if single else \
        [rng.choice([40, 90, 150])] * rng.choice([2, 3, 5])
    slots = Slots(len(caps))
    store = Collection(max_size=caps[0], strict=True) if single else \
        make_group(ctx, rng, caps, True)
    prefix = rng.choice(['', 'https://example.org/', 'é'])
    serial = gen.Serial()
    model = {}
    room = list(caps)
    over = []
    for number in range(4 * sum(caps)):
        key = f'{prefix}{number}'
        slot = slots(key)
        if room[slot]:
            room[slot] -= 1
            model[key] = serial(rng)
        else:
            over.append(key)
    held = {key: serial(rng) for key in model if rng.random() < .3}
    ctx.step('bulk', caps, len(model), len(held))
    store.update(held)
    new = {**held, **model}
    extra = {**new, **dict.fromkeys(over[:rng.choice([1, 2, 60])], 'over')}
    if rng.random() < .5:
        items = list(extra.items())
        rng.shuffle(items)
        extra = dict(items)
    attempt(ctx, store, held, False, lambda: store.update(extra),
            lambda: None, 'bulk update')
    part = dict(rng.sample(list(new.items()), len(new) // 2))
    for given in (part, new):
        attempt(ctx, store, held, True, lambda: store.update(given),
                lambda: held.update(given), 'bulk update')
        unchanged(ctx, store, held, 'after a bulk update')
    attempt(ctx, store, held, False, lambda: store.update({over[0]: 1}),
            lambda: None, 'one more')
    ctx.count('bulk')
    ctx.saw('bulk', caps, len(new), len(extra))


def container_case(ctx, rng):
    """the same limits through containers and database connections"""
    caps = capacities(rng)
    strict = rng.random() < .8
    slots = Slots(len(caps))
    database = rng.random() < .5
    if database:
        if rng.random() < .5:
            # the smallest strict database: one collection
            caps = [rng.choice([1, 2, 5])]
            slots = Slots(1)
            path = ctx.folder() + '/db'
            db = ContainerDb.new(path, capacity=caps[0], strict=strict)
        else:
            db = ContainerDb(None, strict=strict)
            conn = db.open(TransactionManager())
            with conn.transaction_manager:
                conn.root.container = Container(
                    make_group(ctx, rng, caps, strict), strict=strict)
            conn.close()
        conn = db.open(TransactionManager())
        container = conn.container
        ctx.count('databases')
    else:
        conn = None
        container = Container(make_group(ctx, rng, caps, strict),
                              strict=strict)
    ctx.step('container', caps, strict, database)
    ctx.equal(bool(container.strict), strict, 'strict of the container')
    if conn is not None:
        ctx.equal(bool(conn.strict), strict, 'strict of the connection')
    pool = gen.ids(rng, sum(caps) + rng.randint(1, 8))
    model = {}
    serial = gen.Serial()
    for _ in range(rng.choice([15, 40])):
        key = rng.choice(pool)
        value = serial(rng)
        ok = not strict or fits(model, slots, caps, [key])
        op = rng.choice(['write'] * 5 + ['delete'] * 2
                        + ['strict'] * (rng.random() < .15)
                        + ['resize'] * (rng.random() < .15))
        ctx.step(op, key, value)
        if op == 'resize':
            kwargs = dict(
                capacity=max(1, len(model) + rng.choice([0, 1, 5])),
                max_collection_size=rng.choice([1, 2, 4, 5000]),
                condense=rng.random() < .5, transfer=rng.random() < .7)
            if conn is not None:
                kwargs['transaction_manager'] = conn.transaction_manager
            ctx.step(kwargs)
            try:
                container.resize(**kwargs)
            except FULL:
                ctx.expect(strict, 'resize refused without strict mode')
                return
            finally:
                for group in container.groups:
                    ctx.equal(bool(group.strict), strict,
                              f'strict after resize({kwargs})')
            ctx.count('resized')
            caps = [c.max_size for c in container.primary.collections]
            slots = Slots(len(caps))
            if len(container.groups) > 1:
                # the copies left behind are not what is looked at here
                container.condense(
                    transaction_manager=kwargs.get('transaction_manager'))
        elif op == 'write':
            def apply():
                model[key] = value
            if conn is None:
                fn = lambda: container.write(key, value)
            elif key in model or rng.random() < .5:
                fn = lambda: conn.update(key, value)
            else:
                fn = lambda: conn.create(key, value)
            attempt(ctx, container.primary, model, ok, fn, apply,
                    f'write {key!r}')
        elif op == 'delete' and key in model:
            (conn or container).delete(key)
            del model[key]
        elif op == 'strict':
            strict = not strict
            target = conn if conn is not None and rng.random() < .5 \
                else container
            ctx.step(target is conn)
            if target is conn and rng.random() < .5:
                # within a block that fails first
                try:
                    with conn:
                        conn.strict = strict
                        ctx.equal(bool(conn.strict), strict, 'strict, block')
                        raise LookupError
                except LookupError:
                    pass
                ctx.equal(bool(container.strict), not strict,
                          'strict after a failed block')
                with conn:
                    conn.strict = strict
            else:
                target.strict = strict
            if conn is not None and target is not conn:
                conn.transaction_manager.commit()
            ctx.equal(bool(container.strict), strict, 'strict after setting')
            if conn is not None:
                # an operation of the connection, and another connection
                conn.delete(rng.choice(pool) + 'missing')
                ctx.equal(bool(conn.strict), strict,
                          'strict after the next operation')
                other = db.open(TransactionManager())
                ctx.equal(bool(other.strict), strict,
                          'strict in another connection')
                other.close()
                ctx.count('strict_of_database')
    unchanged(ctx, container.primary, model, 'container at the end')
    ctx.saw('container', caps, sorted(model))
    if conn is not None:
        fresh = db.open(TransactionManager())
        unchanged(ctx, fresh.container.primary, model, 'database at the end')
        fresh.close()
        conn.close()
        db.close()


def concurrent_case(ctx, rng):
    """interleaved transactions of several connections near the limit"""
    db = ZODB.DB(DemoStorage())    # merges changes of one bucket
    caps = capacities(rng)
    single = rng.random() < .3
    if single:
        caps = caps[:1]
    store = Collection(max_size=caps[0], strict=True) if single else \
        make_group(ctx, rng, caps, True)
    if rng.random() < .5 and not single:
        store = Container(store, strict=True)
    is_container = isinstance(store, Container)
    slots = Slots(len(caps))
    tm = transaction.TransactionManager()
    conn = db.open(tm)
    conn.root()['s'] = store
    tm.commit()
    model = {}
    pool = gen.ids(rng, sum(caps) + 6)
    peers = []
    for _ in range(rng.choice([2, 3, 4])):
        peer_tm = transaction.TransactionManager()
        peers.append([peer_tm, db.open(peer_tm), {}, dict(model)])
    serial = gen.Serial()
    for _ in range(rng.choice([20, 50])):
        peer = rng.choice(peers)
        peer_tm, peer_conn, pending, base = peer
        mine = peer_conn.root()['s']
        group = mine.primary if is_container else mine
        if rng.random() < .45:
            ctx.step('commit', peers.index(peer), pending)
            try:
                peer_tm.commit()
                for key, value in pending.items():
                    if value is None:
                        model.pop(key, None)
                    else:
                        model[key] = value[0]
                ctx.count('commits' if pending else 'empty_commits')
            except ConflictError:
                peer_tm.abort()
                ctx.count('conflicts')
            peer_tm.begin()
            peer[2], peer[3] = {}, dict(model)
            continue
        key = rng.choice(pool)
        view = dict(base)
        for done, value in pending.items():
            if value is None:
                view.pop(done, None)
            else:
                view[done] = value[0]
        value = serial(rng, falsy=0)
        ctx.step('write', peers.index(peer), key)
        if rng.random() < .15 and key in view:
            if is_container:
                mine.delete(key)
            else:
                group.pop(key)
            pending[key] = None
            continue
        try:
            if is_container:
                mine.write(key, value)
                pending[key] = (value,)
            else:
                way = rng.randrange(3)
                if way == 0:
                    group.update({key: value})
                    pending[key] = (value,)
                else:
                    (group.insert if way == 1 else group.setdefault)(key,
                                                                     value)
                    if key not in view:
                        pending[key] = (value,)
        except FULL:
            ctx.count('refused')
            ctx.expect(not fits(view, slots, caps, [key]),
                       lambda: f'{key!r} refused although there is room')
        checker_tm = transaction.TransactionManager()
        checker = db.open(checker_tm)
        now = checker.root()['s']
        now = now.primary if is_container else now
        for index, collection in enumerate(getattr(now, 'collections',
                                                   (now,))):
            ctx.expect(collection.size <= caps[index],
                       lambda: f'committed collection {index} holds '
                               f'{collection.size} of {caps[index]}')
        unchanged(ctx, now, model, 'committed content')
        checker.close()
    ctx.saw('concurrent', caps, sorted(model))
    for peer_tm, peer_conn, _, _ in peers:
        peer_tm.abort()
    db.close()


def run(ctx):
    ctx.rule = ('operations at and over the limit on strict and non-strict '
                'collections, groups, containers and databases (built through '
                'every constructor, strictness switched on the way), each '
                'accepted or refused as a per-collection count predicts and '
                'without effect if refused; interleaved transactions of 2-4 '
                'connections near the limit; distinct: (capacities, ids held)')
    ctx.require(accepted=1500, refused=400, completely_full=20, toggled=20,
                conflicts=50, commits=100, databases=15, resized=100,
                strict_of_database=20, bulk=10)
    quick = ctx.quick
    ctx.case(lambda rng: memory_case(ctx, rng), 'memory',
             1500 if quick else 20000, 6 if quick else 400)
    ctx.case(lambda rng: container_case(ctx, rng), 'container',
             500 if quick else 5000, 5 if quick else 400)
    ctx.case(lambda rng: bulk_case(ctx, rng), 'bulk',
             25 if quick else 500, 5 if quick else 200)
    ctx.case(lambda rng: concurrent_case(ctx, rng), 'concurrent',
             400 if quick else 5000, 6 if quick else 400)
