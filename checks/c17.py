"""C17: the legacy containers and the connection built on them."""
import types

import ZODB
import ZODB.FileStorage
import transaction
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError
from persistent.mapping import PersistentMapping

import gen
from citrine.cluster_tools.clusterdb.container import \
    ClusterRegistryContainer, DbModuleRegistry
from citrine.connection.connection import CitrineConnection
from citrine.persistence import (CitrineThreadTransactionManager,
                                 CitrineTransactionManager, DbContainer,
                                 DbMetadata)


class Boom(Exception):
    pass


class Down(MappingStorage):
    """transactions cannot begin for a while"""
    down = False

    def sync(self, force=True):
        if self.down:
            raise Boom()


class LegacyDb(ZODB.DB):
    klass = CitrineConnection


def audit(ctx, container, model, pool, what):
    for key in pool:
        ctx.equal(container.has(key), key in model, f'{what}: has({key!r})')
        ctx.expect(gen.same(container.read(key), model.get(key)),
                   lambda: f'{what}: {key!r} reads {container.read(key)!r}, '
                           f'expected {model.get(key)!r}')
    ctx.equal(container.size, len(model), f'{what}: size')
    found = [key for part in container.containers.values() for key in part]
    ctx.equal(sorted(found, key=repr), sorted(model, key=repr),
              f'{what}: ids held')
    # where an object is stored must stay the same, or it is lost
    count = container.containers_size
    ctx.equal(len(container.containers), count, f'{what}: containers')
    for index, part in container.containers.items():
        for key in part:
            ctx.equal(gen.index_of(str(key), count), index,
                      f'{what}: container of {key!r}')


def container_case(ctx, rng):
    db = ZODB.DB(None) if rng.random() < .5 else None
    start = rng.choice([None, 1, 2, 5])
    outer, inner = (rng.choice([dict, PersistentMapping]) for _ in range(2))
    if start is not None:
        ctx.count(f'of_{outer.__name__}_of_{inner.__name__}')
    model = {}
    pool = gen.ids(rng, rng.choice([3, 10, 30]))
    serial = gen.Serial()
    if start is None:
        container = DbContainer()
    else:
        # there may be something in them
        parts = {n: {} for n in range(start)}
        for key in rng.sample(pool, rng.choice([0, 0, 1, 3])):
            model[key] = parts[gen.index_of(key, start)][key] = serial(rng)
            ctx.count('filled')
        container = DbContainer(
            outer({n: inner(part) for n, part in parts.items()}))
    ctx.equal(container.containers_size, start or 1, 'containers')
    audit(ctx, container, model, pool, 'given')
    tm = transaction.TransactionManager()
    if db is not None:
        conn = db.open(tm)
        conn.root()['c'] = container
        tm.commit()
        ctx.count('persisted')
    saved = dict(model)
    if rng.random() < .3:
        # other ids than texts are their own, but placed like their text
        pool += rng.sample([0, 7, '7', 255, -3, 10 ** 20, 2.5, '2.5', None,
                            ('a', 1), b'7'], 4)
        ctx.count('other_ids')
    for _ in range(rng.choice([10, 40])):
        key = rng.choice(pool)
        op = rng.choice(['write'] * 6 + ['delete'] * 3 + ['expand']
                        + ['commit', 'abort'] * (db is not None))
        ctx.step(op, key)
        if op == 'write':
            model[key] = serial(rng)
            container.write(key, model[key])
        elif op == 'delete':
            if key in model:
                container.delete(key)
                del model[key]
            else:
                ctx.raises(KeyError, lambda: container.delete(key),
                           'deleting what is not there')
        elif op == 'expand':
            have = container.containers_size
            new = have + rng.choice([-1, 0, 1, 2, 5])
            if new <= have:
                ctx.raises(ValueError, lambda: container.expand_size(new),
                           f'expanding from {have} to {new}')
                ctx.count('refused')
            elif have < 30:
                container.expand_size(new)
                ctx.equal(container.containers_size, new, 'containers')
                ctx.count('expanded')
        elif op == 'commit':
            tm.commit()
            saved = dict(model)
            other = db.open(transaction.TransactionManager())
            audit(ctx, other.root()['c'], saved, pool, 'other connection')
            other.close()
        elif op == 'abort':
            tm.abort()
            model = dict(saved)
        audit(ctx, container, model, pool, op)
        ctx.saw(op, container.containers_size, sorted(map(repr, model)))
    if db is not None:
        tm.abort()
        db.close()


def connect(ctx, rng, db):
    """a connection, opened by the database or made by itself"""
    kind = rng.choice(['open', 'open', 'open threads', 'made', 'made threads',
                       'made alone'])
    ctx.step('connect', kind)
    ctx.count(kind)
    if kind == 'made alone':
        size, amount = rng.choice([3, 400, 1000]), rng.choice([0, 10 ** 6])
        conn = CitrineConnection(db, cache_size=size,
                                 cache_size_bytes=amount)
        ctx.equal((conn._cache.cache_size, conn._cache.cache_size_bytes),
                  (size, amount), 'size of the cache')
        return conn, conn.transaction_manager
    tm = (CitrineThreadTransactionManager if 'threads' in kind
          else CitrineTransactionManager)()
    conn = (db.open(tm) if 'open' in kind
            else CitrineConnection(db, transaction_manager=tm))
    ctx.equal(conn._cache.cache_size, db.getCacheSize() if 'open' in kind
              else 400, 'size of the cache')
    ctx.expect(conn.transaction_manager is tm,
               'a connection does not use the manager it was given')
    return conn, tm


def connection_case(ctx, rng):
    storage = ZODB.FileStorage.FileStorage(ctx.folder() + '/db') \
        if rng.random() < .3 else Down()
    db = LegacyDb(storage, cache_size=rng.choice([2, 400, 999]))
    conn, tm = connect(ctx, rng, db)
    model = {}
    meta = None
    past = []
    serial = gen.Serial()
    pool = gen.ids(rng, 10)
    if rng.random() < .4:
        # set up as part of a block
        for fails in rng.choice([(True, False), (False,)]):
            try:
                with conn:
                    conn.setup()
                    conn.create(pool[0], serial(rng))
                    if fails:
                        raise Boom()
                    model[pool[0]] = conn.read(pool[0])
            except Boom:
                ctx.expect(fails and not hasattr(conn.root, 'container'),
                           'a failed block has set up the database')
        ctx.count('set_up_in_blocks')
    else:
        conn.setup()
    containers = conn.num_containers()

    def view(what):
        other = db.open(transaction.TransactionManager())
        audit(ctx, other.root.container, model, pool, f'{what}, others')
        other.close()
        audit(ctx, conn.root.container, model, pool, what)

    def inside(key, value, new, count):
        """an operation of a block"""
        op = rng.choice(['update'] * 4 + ['delete', 'read', 'expand', 'setup'])
        ctx.step('in a block', op, key, value)
        if op == 'update':
            getattr(conn, rng.choice(['create', 'update']))(key, value)
            new[key] = value
        elif op == 'delete' and key in new:
            conn.delete(key)
            del new[key]
        elif op == 'delete':
            ctx.raises(KeyError, lambda: conn.delete(key), 'delete')
        elif op == 'read':
            ctx.expect(gen.same(conn.read(key), new.get(key)), 'read')
        elif op == 'expand':
            more = rng.choice([-1, 0, 1, 2])
            if more < 1:
                ctx.raises(ValueError, lambda: conn.expand_containers(more),
                           'expanding by nothing')
            elif count < 20:
                conn.expand_containers(more)
                count += more
                ctx.count('expanded_in_blocks')
        else:
            conn.setup()
        return count

    for number in range(rng.choice([8, 25])):
        key, value = rng.choice(pool), serial(rng)
        op = rng.choice(['expand', 'setup'] if number < 3
                        and rng.random() < .5 else
                        ['create', 'update', 'delete', 'read', 'index',
                         'expand', 'block', 'fail', 'manual', 'reopen',
                         'setup', 'down'])
        ctx.step(op, key, value)
        if op in ('create', 'update'):
            getattr(conn, op)(key, value)
            model[key] = value
        elif op == 'delete':
            if key in model:
                conn.delete(key)
                del model[key]
            else:
                ctx.raises(KeyError, lambda: conn.delete(key), 'delete')
        elif op == 'read':
            ctx.expect(gen.same(conn.read(key), model.get(key)), 'read')
        elif op == 'index':
            keys = [rng.choice(pool) for _ in range(rng.choice([0, 1, 4]))]
            got = conn[tuple(keys) if rng.random() < .5 else keys]
            ctx.equal(got, [model.get(key) for key in keys], 'index')
            ctx.expect(gen.same(conn[key], model.get(key)), 'index')
            ctx.raises(TypeError, lambda: conn['a':'b'], 'slices')
        elif op == 'expand':
            have = conn.num_containers()
            if have < 20:
                more = rng.choice([1, 2, 3])
                conn.expand_containers(more)
                ctx.equal(conn.num_containers(), have + more, 'containers')
                ctx.count('expanded')
        elif op in ('block', 'fail'):
            new, count = dict(model), conn.num_containers()
            try:
                with rng.choice([conn, tm]) as block:
                    ctx.expect(block is tm.get(), 'the transaction of a block')
                    for _ in range(rng.choice([1, 3, 3, 6])):
                        count = inside(key, value, new, count)
                        key, value = rng.choice(pool), serial(rng)
                    audit(ctx, conn.root.container, new, pool, 'in a block')
                    if op == 'fail':
                        raise Boom()
            except Boom:
                ctx.expect(op == 'fail', 'exception')
                ctx.count('failed_blocks')
            else:
                ctx.expect(op == 'block', 'an exception was swallowed')
                model, containers = new, count
                ctx.count('blocks')
            ctx.equal(tm.autocommit, True, 'autocommit after a block')
        elif op == 'manual':
            # nothing is committed automatically
            # which either of them can be told
            by = rng.choice(['connection', 'manager'])
            if by == 'manager':
                tm.autocommit = False
                ctx.equal(tm.autocommit, False, 'autocommit')
            else:
                conn.auto_transaction = False
            for kept in rng.choice([(True,), (False,), (False, True)]):
                tm.begin()
                new, count = dict(model), conn.num_containers()
                for _ in range(rng.choice([1, 3, 6])):
                    count = inside(key, value, new, count)
                    key, value = rng.choice(pool), serial(rng)
                audit(ctx, conn.root.container, new, pool, 'uncommitted')
                other = db.open(transaction.TransactionManager())
                audit(ctx, other.root.container, model, pool,
                      'not committed, others')
                other.close()
                if kept:
                    tm.commit()
                    model, containers = new, count
                else:
                    tm.abort()
                view('commits by hand')
            if by == 'manager':
                tm.autocommit = True
            else:
                conn.auto_transaction = True
            ctx.count(f'by_hand_{by}')
        elif op == 'reopen':
            if conn in db.pool.all:
                conn.close()
            # the pool knows no others
            conn, tm = connect(ctx, rng, db)
        elif op == 'down' and isinstance(storage, Down):
            storage.down = True
            try:
                for call in (lambda: conn.create(key, value),
                             lambda: conn.delete(key),
                             lambda: conn.expand_containers(1),
                             conn.__enter__):
                    if rng.random() < .5:
                        ctx.raises(Boom, call, 'a block that cannot begin')
            finally:
                storage.down = False
            ctx.equal(tm.autocommit, True, 'autocommit without a block')
            conn.update(key, value)
            model[key] = value
            ctx.count('could_not_begin')
        elif op == 'setup':
            # must leave an existing database alone
            conn.setup()
        ctx.equal(conn.size, len(model), 'size')
        ctx.expect(isinstance(conn.meta, DbMetadata)
                   and conn.meta is conn.root()['meta'], 'meta')
        ctx.equal(conn.meta._p_oid, meta or conn.meta._p_oid,
                  'meta was replaced')
        meta = conn.meta._p_oid
        if op != 'expand':
            # what a block added is in the number
            ctx.equal(conn.num_containers(), containers,
                      f'containers after {op}')
        containers = conn.num_containers()
        view(op)
        past.append((db.lastTransaction(), dict(model)))
        if rng.random() < .3:
            when, old = rng.choice(past)
            then = db.open(CitrineTransactionManager(), at=when)
            audit(ctx, then.container, old, pool, 'the past')
            then.close()
            ctx.count('looks_back')
        ctx.saw('connection', op, sorted(model))
        ctx.count('operations')
    tm.abort()
    db.close()


def several_case(ctx, rng):
    """blocks and operations of several connections overlap"""
    db = LegacyDb(None)
    first, _ = connect(ctx, rng, db)
    first.setup()
    serial = gen.Serial()
    pool = gen.ids(rng, rng.choice([2, 5, 12]))
    model = {}
    for key in pool:
        if rng.random() < .4:
            model[key] = serial(rng)
            first.create(key, model[key])
    if rng.random() < .5:
        first.expand_containers(rng.choice([1, 2, 6]))
    containers = first.num_containers()
    # [connection, what its block found, what it changed, containers then]
    peers = [[first, None, None, None]]
    for _ in range(rng.choice([1, 2])):
        peers.append([connect(ctx, rng, db)[0], None, None, None])
    for _ in range(rng.choice([20, 50])):
        number = rng.randrange(len(peers))
        peer = peers[number]
        conn, snapshot, changes, had = peer
        if snapshot is None and rng.random() < .6:
            ctx.step(number, 'begin')
            conn.__enter__()
            peer[1:] = dict(model), {}, containers
            continue
        if snapshot is not None and rng.random() < .3:
            peer[1:] = None, None, None
            if rng.random() < .2:
                ctx.step(number, 'fails')
                error = Boom()
                conn.__exit__(Boom, error, None)
            else:
                ctx.step(number, 'ends')
                overlap = [key for key in changes
                           if model.get(key, Boom) is not
                           snapshot.get(key, Boom)]
                expanded = changes.pop(None, None)
                try:
                    conn.__exit__(None, None, None)
                except ConflictError:
                    ctx.count('conflicts')
                    ctx.count('conflicts_same', bool(overlap))
                else:
                    ctx.expect(not overlap, lambda: f'{overlap} were changed '
                                                    'by another connection '
                                                    'and overwritten')
                    for key, value in changes.items():
                        if value is None:
                            model.pop(key, None)
                        else:
                            model[key] = value[0]
                    if expanded:
                        ctx.equal(containers, had, 'expanded twice')
                        containers = expanded
                    ctx.count('overlapping_blocks')
        else:
            # in the block of the connection, or alone
            view = dict(model)
            if snapshot is not None:
                view = dict(snapshot)
                for key, value in changes.items():
                    view.pop(key, None)
                    if value is not None and key is not None:
                        view[key] = value[0]
            key, value = rng.choice(pool), serial(rng)
            op = rng.choice(['update', 'update', 'delete', 'read'])
            if rng.random() < .07:
                op = 'expand'
            ctx.step(number, op, key, value, snapshot is not None)
            if op == 'expand':
                if snapshot is None:
                    conn.expand_containers(1)
                    containers += 1
                else:
                    count = conn.num_containers()
                    ctx.equal(count, changes.get(None) or had, 'containers')
                    conn.container.expand_size(count + 2)
                    changes[None] = count + 2
                ctx.count('overlapping_expansions')
            elif op == 'update':
                conn.update(key, value)
                if snapshot is None:
                    model[key] = value
                else:
                    changes[key] = (value,)
            elif op == 'delete':
                if snapshot is None:
                    conn.sync()
                if key in view:
                    conn.delete(key)
                    if snapshot is None:
                        del model[key]
                    else:
                        changes[key] = None
                else:
                    ctx.raises(KeyError, lambda: conn.delete(key), 'delete')
            else:
                if snapshot is None:
                    conn.sync()
                ctx.expect(gen.same(conn.read(key), view.get(key)),
                           lambda: f'connection {number} reads '
                                   f'{conn.read(key)!r} for {key!r}, '
                                   f'expected {view.get(key)!r}')
        other = db.open(transaction.TransactionManager())
        audit(ctx, other.root.container, model, pool, 'others')
        ctx.equal(other.num_containers(), containers, 'containers')
        other.close()
    ctx.saw('several', sorted(model), containers)
    for conn, snapshot, _, _ in peers:
        if snapshot is not None:
            conn.__exit__(Boom, Boom(), None)
    db.close()


def registry_case(ctx, rng):
    """the registry has the same interface for modules"""
    db = ZODB.DB(None)
    tm = transaction.TransactionManager()
    conn = db.open(tm)
    model = {}
    pool = gen.ids(rng, 6)
    given = rng.choice([None, dict, PersistentMapping])
    if given is not None:
        model = {key: ('given', key) for key in
                 rng.sample(pool, rng.choice([0, 1, 3]))}
        ctx.count(f'registry_of_{given.__name__}')
        given = given({key: DbModuleRegistry(*value)
                       for key, value in model.items()})
    conn.root()['r'] = registry = ClusterRegistryContainer(given)
    tm.commit()
    for _ in range(12):
        key = rng.choice(pool)
        if rng.random() < .6:
            module = types.SimpleNamespace(name=f'n{rng.randrange(99)}',
                                           path=f'/p/{rng.randrange(99)}')
            registry.write(key, module)
            model[key] = (module.name, module.path)
        elif key in model:
            registry.delete(key)
            del model[key]
        else:
            ctx.raises(KeyError, lambda: registry.delete(key), 'delete')
        registry.expand_size(rng.randrange(9))
        tm.commit()
        other = db.open(transaction.TransactionManager())
        for view in (registry, other.root()['r']):
            for key in pool:
                ctx.equal(view.has(key), key in model, 'registry has')
                got = view.read(key)
                ctx.equal(None if got is None else (got.name, got.path),
                          model.get(key), 'registry read')
        other.close()
        ctx.count('registry')
    conn.close()
    db.close()


def run(ctx):
    ctx.rule = ('histories of writes, deletes, reads and expansions against '
                'a dict, in memory, across commits and aborts and through '
                'the connection; distinct: (operation, containers, ids)')
    ctx.require(expanded_in_blocks=30, by_hand_manager=20,
                by_hand_connection=20, filled=30, set_up_in_blocks=20, expanded=100,
                refused=40, persisted=40, operations=200, failed_blocks=15,
                blocks=15, registry=60, looks_back=60, conflicts_same=50,
                **{f'of_{outer}_of_{inner}': 5
                   for outer in ('dict', 'PersistentMapping')
                   for inner in ('dict', 'PersistentMapping')},
                registry_of_dict=2, registry_of_PersistentMapping=2,
                overlapping_blocks=200, overlapping_expansions=50,
                **{'open': 20, 'open threads': 7, 'made': 7,
                   'made threads': 7, 'made alone': 7},
                could_not_begin=20)
    quick = ctx.quick
    ctx.case(lambda rng: container_case(ctx, rng), 'container',
             250 if quick else 5000, 8 if quick else 300)
    ctx.case(lambda rng: connection_case(ctx, rng), 'connection',
             150 if quick else 1500, 8 if quick else 300)
    ctx.case(lambda rng: several_case(ctx, rng), 'several',
             250 if quick else 4000, 12 if quick else 300)
    ctx.case(lambda rng: registry_case(ctx, rng), 'registry',
             20 if quick else 300, 4 if quick else 60)
