"""C13: databases are created, opened and reopened without surprises."""
import os
import random
import time
from contextlib import ExitStack
from datetime import datetime, timezone
from operator import methodcaller

import ZODB
import transaction
from persistent.mapping import PersistentMapping
from ZODB.blob import Blob
from ZODB.FileStorage import FileStorage
from ZODB.FileStorage.FileStorage import FileStorageQuotaError
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import (POSKeyError, ReadOnlyError,
                               ReadOnlyHistoryError, Unsupported)
from ZODB.utils import p64, u64

import gen
from citrine.cluster_tools.dbmodule.dbmodule import DbModule
from citrine.connection.group_connection import GroupReadConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import IncompatibleDatabaseError
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

# what a database holds at least if no capacity is given
DEFAULT = 50000


def content(conn):
    return {key: value for group in reversed(conn.container.groups)
            for key, value in group.items()}


def same_content(ctx, conn, model, what):
    got = content(conn)
    ctx.equal(sorted(got), sorted(model), f'{what}: ids')
    for key, value in model.items():
        ctx.expect(gen.same(conn.read(key), value),
                   lambda: f'{what}: {key!r} reads {conn.read(key)!r}, '
                           f'expected {value!r}')


def settings(rng, every=False):
    """constructor arguments with the method that tells the one in effect"""
    options = {
        'pool_timeout': (rng.choice([60, 3600]), lambda db: db.pool._timeout),
        'pool_size': (rng.choice([1, 3, 9]), 'getPoolSize'),
        'cache_size': (rng.choice([10, 50, 1000]), 'getCacheSize'),
        'cache_size_bytes': (rng.choice([0, 10 ** 6]), 'getCacheSizeBytes'),
        'historical_pool_size': (rng.choice([1, 5]), 'getHistoricalPoolSize'),
        'historical_cache_size': (rng.choice([7, 300]),
                                  'getHistoricalCacheSize'),
        'historical_cache_size_bytes': (rng.choice([0, 4096]),
                                        'getHistoricalCacheSizeBytes'),
        'historical_timeout': (rng.choice([10, 600]),
                               'getHistoricalTimeout'),
        'database_name': (rng.choice(['unnamed', 'n1', 'x']),
                          lambda db: db.database_name),
        'xrefs': (rng.random() < .5, lambda db: db.xrefs),
        'large_record_size': (rng.choice([1000, 1 << 24]),
                              lambda db: db.large_record_size),
    }
    if every:
        return options
    return {name: options[name] for name in
            rng.sample(sorted(options), rng.choice([0, 0, 1, 3, 11]))}


def check_settings(ctx, db, wanted, what):
    for name, (value, getter) in wanted.items():
        got = getter(db) if callable(getter) else getattr(db, getter)()
        ctx.equal(got, value, f'{what}: {name} in effect')
        ctx.count('settings')
    # those of ZODB are in effect when nothing is asked for
    plain = ZODB.DB(None)
    for name, (_, getter) in settings(random.Random(1), True).items():
        if name not in wanted:
            get = getter if callable(getter) else methodcaller(getter)
            ctx.equal(get(db), get(plain), f'{what}: {name} by default')
    plain.close()


class Expected:
    """what the file must hold"""

    def __init__(self):
        self.exists = False
        self.model = {}
        self.strict = None
        self.capacity = None
        self.minimum = None


def use(ctx, rng, conn, expected, pool, serial, what):
    container = conn.container
    same_content(ctx, conn, expected.model, what)
    ctx.equal(conn.strict, expected.strict, f'{what}: strict')
    ctx.equal(container.strict, expected.strict, f'{what}: container strict')
    if expected.capacity is None:
        ctx.expect(conn.capacity >= expected.minimum,
                   lambda: f'{what}: capacity {conn.capacity}, '
                           f'{expected.minimum} asked for')
        expected.capacity = conn.capacity
    ctx.equal(conn.capacity, expected.capacity, f'{what}: capacity')
    for _ in range(rng.choice([0, 1, 5, 12])):
        key = rng.choice(pool)
        if rng.random() < .25:
            got = conn.delete(key)
            ctx.equal(len(got), 1 if key in expected.model else 0,
                      f'{what}: delete')
            expected.model.pop(key, None)
        else:
            value = serial(rng)
            conn.update(key, value)
            expected.model[key] = value
    if rng.random() < .08:
        strict = rng.random() < .5
        with conn:
            conn.strict = strict
        expected.strict = strict
    if rng.random() < .08:
        capacity = len(expected.model) + rng.choice([40, 7000])
        with conn:
            container.resize(capacity)
        expected.capacity = None
        expected.minimum = capacity
        ctx.expect(conn.capacity >= capacity, f'{what}: resized capacity')
        expected.capacity = conn.capacity
        ctx.count('resized')
    same_content(ctx, conn, expected.model, f'{what}, after changes')


def file_case(ctx, rng):
    path = os.path.join(ctx.folder(), rng.choice(['db', 'data.fs', 'ü db']))
    expected = Expected()
    pool = gen.ids(rng, 25)
    serial = gen.Serial()
    for _ in range(rng.choice([2, 4, 7])):
        way = rng.choice(['new', 'create', 'create', 'path', 'storage',
                          'load path', 'load storage'])
        strict = rng.random() < .5
        capacity = rng.choice([100, 5000, 5001, 20000, DEFAULT])
        anew = rng.random() < .3
        wanted = settings(rng)
        args = {name: value for name, (value, _) in wanted.items()}
        if rng.random() < .8 or way in ('new', 'create'):
            args['strict'] = strict
        else:
            strict = False
        what = f'{way} {path!r} ({args}, {capacity}, create={anew})'
        ctx.step(way, args, capacity, anew, expected.exists)
        if way in ('new', 'create'):
            if rng.random() < .15:
                del args['strict']
                strict = False
            size = {'capacity': capacity}
            if rng.random() < .15:
                size, capacity = {}, DEFAULT
            if anew or not expected.exists:
                expected.model, expected.strict = {}, strict
                expected.capacity, expected.minimum = None, capacity
                ctx.count('anew' if expected.exists else 'created')
            else:
                ctx.count('kept')
            if rng.random() < .3 and not anew:
                kwargs = {}
            else:
                kwargs = {'create': anew}
            if way == 'new':
                db = ContainerDb.new(path, **size, **kwargs, **args)
            else:
                if 'strict' in args:
                    kwargs['strict'] = args.pop('strict')
                storage = ContainerDb.create(path, **size, **kwargs)
                if rng.random() < .5:
                    args['strict'] = rng.random() < .5
                db = (ContainerDb.load if rng.random() < .5
                      else ContainerDb)(storage, **args)
        else:
            if not expected.exists:
                expected.model, expected.strict = {}, strict
                expected.capacity, expected.minimum = None, DEFAULT
                ctx.count('created')
            else:
                ctx.count('reopened')
            target = path if 'path' in way else FileStorage(path)
            opener = ContainerDb.load if 'load' in way else ContainerDb
            db = opener(target, **args)
        expected.exists = True
        check_settings(ctx, db, wanted, what)
        conn = db.open()
        use(ctx, rng, conn, expected, pool, serial, what)
        conn.close()
        if rng.random() < .15:
            db.pack()
            conn = db.open()
            same_content(ctx, conn, expected.model, f'{what}, packed')
            conn.close()
            ctx.count('packed')
        ctx.saw(way, sorted(args), sorted(expected.model), expected.strict)
        db.close()
        if rng.random() < .2:
            # a plain look into the file, it must not be locked
            plain = ZODB.DB(FileStorage(path, read_only=True))
            tm = transaction.TransactionManager()
            box = plain.open(tm).root()['container']
            ctx.equal({key: value for group in box.groups[::-1]
                       for key, value in group.items()}, expected.model,
                      f'{what}: read by a plain ZODB')
            plain.close()
        if rng.random() < .2:
            reader = ContainerDb(path, read_only=True)
            conn = reader.open()
            same_content(ctx, conn, expected.model, f'{what}: read only')
            ctx.raises(ReadOnlyError, lambda: conn.update('new one', 1),
                       'writing to a read-only database')
            ctx.equal(conn.read('new one'), None, 'refused write')
            ctx.count('read_only')
            reader.close()
    if len(ctx.samples) < 3:
        ctx.sample([repr(op)[:150] for op in ctx.trace[:6]])


def file_option_case(ctx, rng):
    """options of the file itself do what they say"""
    folder = ctx.folder()
    path = os.path.join(folder, 'db')
    way = rng.choice(['new', 'create', 'path'])
    blobs = os.path.join(folder, 'blobs')
    packed = []
    options = {'pack_keep_old': rng.random() < .5,
               'pack_gc': rng.random() < .5, 'blob_dir': blobs,
               'quota': rng.choice([40000, 80000]),
               'packer': lambda *args: packed.append(args)}
    args = {name: options[name] for name in
            rng.sample(sorted(options), rng.choice([0, 1, 2, 3]))}

    def opened(**args):
        if way == 'new':
            return ContainerDb.new(path, **args)
        if way == 'create':
            return ContainerDb(ContainerDb.create(path, **args))
        return ContainerDb(path, **args)
    if rng.random() < .4:
        # made without them
        opened().close()
        ctx.count('options_later')
    what = f'{way} with {args}'
    ctx.step(what)
    db = opened(**args)
    conn = db.open()
    model = {}
    # blobs
    if 'blob_dir' in args:
        data = bytes(rng.randrange(256) for _ in range(50))
        conn.create('blob', Blob(data))
        with conn.read('blob').open() as reader:
            ctx.equal(reader.read(), data, f'{what}: a blob')
        ctx.expect(any(name.endswith('.blob') for _, _, files in
                       os.walk(blobs) for name in files),
                   f'{what}: no blob in its folder')
        conn.delete('blob')
    else:
        ctx.raises(Unsupported, lambda: conn.create('blob', Blob(b'x')),
                   f'{what}: a blob')
        ctx.equal(conn.read('blob'), None, 'what could not be stored')
    # garbage
    thing = PersistentMapping()
    conn.create('garbage', thing)
    oid = thing._p_oid
    conn.delete('garbage')
    for n in range(3):
        model['kept'] = n
        conn.update('kept', n)
    db.pack(time.time() + 5)
    if 'packer' in args:
        ctx.expect(len(packed) == 1, f'{what}: packer not called')
    else:
        ctx.equal(os.path.exists(path + '.old'),
                  args.get('pack_keep_old', True), f'{what}: old file')
        try:
            db.storage.load(oid)
            held = True
        except POSKeyError:
            held = False
        ctx.equal(held, not args.get('pack_gc', True), f'{what}: garbage')
    # limited size
    limit = args.get('quota')
    failed = False
    for n in range(60):
        key = f'k{n}'
        size = os.path.getsize(path)
        try:
            conn.create(key, 'x' * 3000)
        except FileStorageQuotaError:
            failed = True
            ctx.equal(conn.read(key), None, 'refused by the quota')
            break
        ctx.expect(not limit or size <= limit, f'{what}: {size} bytes and '
                                               f'more was stored')
        model[key] = 'x' * 3000
    ctx.equal(failed, bool(limit), f'{what}: quota')
    same_content(ctx, conn, model, what)
    tid = db.lastTransaction()
    held = dict(model)
    conn.close()
    db.close()
    conn_db = opened()
    conn = conn_db.open()
    same_content(ctx, conn, model, f'{what}, reopened')
    conn.update('kept', 'later')
    conn.close()
    conn_db.close()
    # up to a certain moment only
    if os.path.exists(path + '.index'):
        os.remove(path + '.index')
    back = opened(stop=p64(u64(tid) + 1), read_only=True)
    conn = back.open()
    same_content(ctx, conn, held, f'{what}, as it was')
    ctx.raises(ReadOnlyError, lambda: conn.update('kept', 1), 'read only')
    back.close()
    conn_db = opened(read_only=True)
    same_content(ctx, conn_db.open(), {**model, 'kept': 'later'},
                 f'{what}, read only')
    conn_db.close()
    for name in args:
        ctx.count('option_' + name)
    ctx.saw('file options', way, tuple(sorted(args)))


def memory_case(ctx, rng):
    """databases in memory and in given storages, several at once"""
    serial = gen.Serial()
    pool = gen.ids(rng, 15)
    opened = []
    for _ in range(rng.choice([1, 2, 3])):
        expected = Expected()
        strict = rng.random() < .5
        expected.strict, expected.minimum = strict, DEFAULT
        storage = None if rng.random() < .5 else MappingStorage()
        wanted = settings(rng)
        args = {name: value for name, (value, _) in wanted.items()}
        opener = rng.choice([ContainerDb, ContainerDb.load])
        db = opener(storage, strict=strict, **args)
        check_settings(ctx, db, wanted, 'in memory')
        opened.append((db, storage, expected))
    for _ in range(rng.choice([2, 5])):
        entry = rng.choice(opened)
        db, storage, expected = entry
        conn = db.open(TransactionManager() if rng.random() < .3 else None)
        use(ctx, rng, conn, expected, pool, serial, 'in memory')
        conn.close()
        if storage is not None and rng.random() < .3:
            # another database takes over the storage
            other = ContainerDb(storage, strict=not expected.strict)
            conn = other.open()
            use(ctx, rng, conn, expected, pool, serial, 'same storage again')
            conn.close()
            opened[opened.index(entry)] = (other, storage, expected)
            ctx.count('reopened_storage')
        ctx.saw('memory', sorted(expected.model), storage is None)
    for db, _, _ in opened:
        db.close()


def incompatible_case(ctx, rng):
    """a database of something else is refused and stays as it is"""
    path = os.path.join(ctx.folder(), 'other')
    plain = ZODB.DB(path)
    tm = transaction.TransactionManager()
    conn = plain.open(tm)
    root = {f'k{n}': n for n in range(rng.choice([0, 1, 4]))}
    if rng.random() < .5:
        root['containers'] = PersistentMapping({'a': 1})
    if rng.random() < .2:
        root['container'] = rng.choice([None, 0, ''])
    conn.root().update(root)
    tm.commit()
    wanted = dict(conn.root())
    wanted = {key: dict(value) if isinstance(value, PersistentMapping)
              else value for key, value in wanted.items()}
    conn.close()
    plain.close()
    with open(path, 'rb') as reader:
        before = reader.read()
    databases = {} if rng.random() < .6 else None
    args = {} if databases is None else {'databases': databases}
    if rng.random() < .5:
        args['database_name'] = 'some name'
    ctx.step('incompatible', root, args)
    others = []
    if databases is not None:
        # others that are registered stay so
        others = [ContainerDb(None, databases=databases,
                              database_name=f'other {number}')
                  for number in range(rng.choice([0, 1, 1, 2]))]
    registered = dict(databases or {})
    for _ in range(rng.choice([1, 2])):
        if rng.random() < .7:
            ctx.raises(IncompatibleDatabaseError,
                       lambda: rng.choice([ContainerDb, ContainerDb.load])(
                           path, **args), 'opening an incompatible file')
        else:
            storage = FileStorage(path)
            ctx.raises(IncompatibleDatabaseError,
                       lambda: ContainerDb(storage, **args),
                       'opening an incompatible storage')
            # it belongs to the caller, who can go on using it
            again = ZODB.DB(storage)
            conn = again.open(transaction.TransactionManager())
            ctx.equal(sorted(conn.root()), sorted(wanted), 'storage root')
            conn.close()
            again.close()
        ctx.count('refused')
        if databases is not None:
            ctx.expect(databases == registered,
                       lambda: f'databases after a failure: {databases}, '
                               f'expected {registered}')
    for other in others:
        other.close()
    if others:
        ctx.count('refused_beside_others')
    with open(path, 'rb') as reader:
        ctx.expect(reader.read() == before, 'the refused file was changed')
    plain = ZODB.DB(path)
    conn = plain.open(transaction.TransactionManager())
    got = {key: dict(value) if isinstance(value, PersistentMapping)
           else value for key, value in conn.root().items()}
    ctx.equal(got, wanted, 'root of the refused file')
    conn.close()
    plain.close()
    if not root.get('container', None) and rng.random() < .5:
        # it can be made one, keeping what else it holds
        ContainerDb.new(path, capacity=100).close()
        db = ContainerDb(path)
        conn = db.open()
        same_content(ctx, conn, {}, 'made compatible')
        for key, value in root.items():
            if isinstance(value, (int, str)) and key != 'container':
                ctx.equal(conn.root()[key], value, 'other content')
        conn.close()
        db.close()
        ctx.count('made_compatible')
    ctx.saw('incompatible', sorted(root), sorted(args))


def historical_case(ctx, rng):
    path = os.path.join(ctx.folder(), 'db')
    stored = rng.random() < .5
    db = ContainerDb.new(path, capacity=200) if stored else ContainerDb(None)
    opened = db.open
    if rng.random() < .25:
        # the database of a module
        db.close()
        module = DbModule.create(ctx.folder(), rng.choice(['m', 'x y']))
        db, opened = module.db, module.open
        ctx.count('historical_modules')
    # MappingStorage keeps old revisions just as well
    tm = rng.choice([None, TransactionManager, ThreadTransactionManager])
    if tm is None:
        conn = opened()
    else:
        tm = tm()
        conn = opened(tm) if rng.random() < .5 else \
            opened(transaction_manager=tm)
        ctx.expect(conn.transaction_manager is tm,
                   'the manager of a connection is not the given one')
    model = {}
    states = []
    pool = gen.ids(rng, 8)
    serial = gen.Serial()
    states.append((db.lastTransaction(), {}, time.time()))
    for _ in range(rng.choice([3, 8])):
        time.sleep(.002)
        key = rng.choice(pool)
        kind = rng.random()
        if kind < .25 and key in model:
            conn.delete(key)
            del model[key]
        elif kind < .35:
            with conn:
                conn.container.resize(rng.choice([100, 6000]))
        elif kind < .5:
            values = {key: serial(rng) for key in rng.sample(pool, 3)}
            with conn:
                for key, value in values.items():
                    conn.update(key, value)
            model.update(values)
        else:
            value = serial(rng)
            conn.update(key, value)
            model[key] = value
        time.sleep(.002)
        states.append((db.lastTransaction(), dict(model), time.time()))
    held = []
    for _ in range(rng.choice([4, 10])):
        index = rng.randrange(len(states))
        tid, wanted, moment = states[index]
        how = rng.choice(['at', 'before', 'at time', 'before time', 'aware'])
        if states[index][0] == db.lastTransaction():
            # later times would be in the future
            how = 'at'
        if how == 'at':
            args = {'at': tid}
        elif how == 'before':
            args = {'before': next(state[0] for state in states[index + 1:]
                                   if state[0] > tid)}
        elif how == 'aware':
            args = {'at': datetime.fromtimestamp(moment, timezone.utc)}
        else:
            # a naive time is UTC
            when = datetime.fromtimestamp(moment, timezone.utc)
            args = {how.split()[0]: when.replace(tzinfo=None)}
        ctx.step('historical', how, index, wanted)
        old = opened(**args)
        same_content(ctx, old, wanted, f'historical connection {how}')
        ctx.count('historical')
        for key in pool:
            ctx.equal(bool(old.container.has(key)), key in wanted,
                      f'historical has({key!r})')
        ctx.raises((ReadOnlyHistoryError, ReadOnlyError),
                   lambda: old.update(rng.choice(pool), 'changed history'),
                   'writing through a historical connection')
        same_content(ctx, old, wanted, f'historical {how} after the write')
        if rng.random() < .5:
            old.close()
        else:
            held.append((old, wanted))
        if rng.random() < .5:
            value = serial(rng)
            conn.update(pool[0], value)
            model[pool[0]] = value
            same_content(ctx, conn, model, 'current connection')
            time.sleep(.002)
            states.append((db.lastTransaction(), dict(model), time.time()))
        for kept, state in held:
            same_content(ctx, kept, state, 'historical connection kept')
        ctx.saw('historical', how, index, len(states), sorted(wanted))
    same_content(ctx, conn, model, 'current connection at the end')
    ctx.raises(ValueError,
               lambda: opened(at=states[0][0], before=states[-1][0]),
               'both at and before')
    conn.close()
    db.close()


def several_case(ctx, rng):
    """databases that know each other"""
    databases = {}
    names = ['a', 'b', 'c'][:rng.choice([2, 3])]
    dbs = {}
    models = {name: {} for name in names}
    folder = ctx.folder()
    for name in names:
        storage = None if rng.random() < .6 else os.path.join(folder, name)
        opener = rng.choice([ContainerDb, ContainerDb.load, ContainerDb.new])
        if opener == ContainerDb.new:
            storage = os.path.join(folder, name)
        ctx.step('open', name, storage, opener.__name__)
        dbs[name] = opener(storage, databases=databases, database_name=name)
    ctx.expect(databases == dbs, lambda: f'databases: {databases}')
    taken = rng.choice(names)
    path = os.path.join(folder, 'another')
    ctx.raises(ValueError, lambda: ContainerDb(
        path, databases=databases, database_name=taken), 'name used twice')
    ctx.expect(databases == dbs, 'databases after a name used twice')
    again = ContainerDb(path)
    again.close()
    serial = gen.Serial()
    pool = gen.ids(rng, 6)
    conn = dbs[names[0]].open()
    linked = {name: conn.get_connection(name) for name in names}
    for _ in range(rng.choice([3, 8])):
        new = {name: {rng.choice(pool): serial(rng)} for name in names}
        fail = rng.random() < .4
        ctx.step('block', new, fail)
        try:
            with linked[rng.choice(names)]:
                for name, items in new.items():
                    for key, value in items.items():
                        linked[name].update(key, value)
                if fail:
                    raise KeyError('stop')
        except KeyError:
            ctx.count('several_failed')
        else:
            ctx.count('several_committed')
            for name, items in new.items():
                models[name].update(items)
        for name in names:
            same_content(ctx, linked[name], models[name],
                         f'linked connection {name}, failed={fail}')
            other = dbs[name].open()
            same_content(ctx, other, models[name],
                         f'connection of its own {name}, failed={fail}')
            other.close()
        name = rng.choice(names)
        key, value = rng.choice(pool), serial(rng)
        linked[name].update(key, value)
        models[name][key] = value
        ctx.saw('several', fail, [sorted(m) for m in models.values()])
    conn.close()
    for db in dbs.values():
        db.close()


def bystander_case(ctx, rng):
    """opening and using databases leaves other transactions alone"""
    folder = ctx.folder()
    serial = gen.Serial()
    pool = gen.ids(rng, 6)
    plain = ZODB.DB(None)
    mine = ContainerDb(None)
    other = os.path.join(folder, 'other')
    incompatible = ZODB.DB(other)
    incompatible.close()
    opened = [ContainerDb(os.path.join(folder, 'existing'))]

    def make(number):
        path = os.path.join(folder, f'db{number}')
        way = rng.choice(['memory', 'path', 'new', 'create', 'storage',
                          'reopen', 'refused', 'use', 'read', 'module',
                          'historical', 'strict'])
        ctx.step(way)
        ctx.count(f'beside_{way}')
        if way == 'memory':
            opened.append(ContainerDb(None))
        elif way == 'path':
            opened.append(ContainerDb(path))
        elif way == 'new':
            opened.append(ContainerDb.new(path, capacity=100))
        elif way == 'create':
            opened.append(ContainerDb.load(ContainerDb.create(path)))
        elif way == 'storage':
            opened.append(ContainerDb.load(
                rng.choice([MappingStorage, lambda: FileStorage(path)])()))
        elif way == 'reopen':
            opened.pop(0).close()
            opened.insert(0, ContainerDb(os.path.join(folder, 'existing')))
        elif way == 'refused':
            ctx.raises(IncompatibleDatabaseError, lambda: ContainerDb(other),
                       'opening something else')
        elif way == 'module':
            name = f'module{number}'
            DbModule.create(folder, name).db.close()
        else:
            db = rng.choice(opened)
            with db as conn:
                if way == 'use':
                    conn.update(rng.choice(pool), serial(rng))
                    with conn:
                        conn.update(rng.choice(pool), serial(rng))
                    conn.delete(rng.choice(pool))
                elif way == 'strict':
                    conn.strict = not conn.strict
                elif way == 'historical':
                    old = db.open(at=db.lastTransaction())
                    old.read(rng.choice(pool))
                    old.close()
                else:
                    GroupReadConnection(opened).read(pool[0], multiple=True)

    conn = plain.open(transaction.manager)
    kind = rng.choice(['default', 'own', 'none'])
    block = None if kind == 'none' else \
        mine.open() if kind == 'default' else mine.open(TransactionManager())
    model, number = {}, 0
    for _ in range(rng.choice([1, 3])):
        transaction.begin()
        current = transaction.get()
        value = serial(rng)
        conn.root()['mine'] = value
        kept = rng.random() < .6

        def work():
            nonlocal number
            for _ in range(rng.choice([1, 2, 4])):
                make(number)
                number += 1
                ctx.expect(transaction.get() is current
                           and gen.same(conn.root()['mine'], value),
                           'a transaction in progress was ended')
        if block is None:
            work()
        else:
            key, stored = rng.choice(pool), serial(rng)
            with block:
                block.update(key, stored)
                work()
                ctx.expect(gen.same(block.read(key), stored),
                           'a block lost its changes')
            model[key] = stored
            same_content(ctx, block, model, 'after a block')
        (transaction.commit if kept else transaction.abort)()
        again = plain.open(transaction.TransactionManager())
        if kept:
            ctx.expect(gen.same(again.root().get('mine'), value),
                       'a commit without effect')
        again.close()
        ctx.count('beside_commits' if kept else 'beside_aborts')
    for one in (conn, block):
        if one is not None:
            one.close()
    for db in (*opened, plain, mine):
        db.close()
    ctx.saw('bystander', kind, number)


def failing_case(ctx, rng):
    """what could not be created or opened is released"""
    path = os.path.join(ctx.folder(), 'db')
    serial = gen.Serial()
    databases = {}
    there = ContainerDb(None, databases=databases, database_name='there')
    model, strict = {}, None
    if rng.random() < .6:
        strict = rng.random() < .5
        db = ContainerDb.new(path, strict=strict)
        with db as conn:
            for key in gen.ids(rng, rng.choice([0, 3])):
                model[key] = serial(rng)
                conn.update(key, model[key])
        db.close()
    for _ in range(rng.choice([1, 2, 3])):
        how = rng.choice(['name', 'name', 'quota', 'quota', 'argument',
                          'argument', 'file', 'file', 'unknown', 'unknown'])
        way = rng.choice([ContainerDb, ContainerDb.new, ContainerDb.new,
                          ContainerDb.create])
        if how == 'quota' and strict is not None:
            continue
        if way == ContainerDb.create and how != 'quota':
            way = ContainerDb.new
        ctx.step(how, getattr(way, '__name__', way))
        if how == 'name':
            ctx.raises(ValueError, lambda: way(
                path, databases=databases, database_name='there'),
                'opening a second database of one name')
            if strict is None:
                strict = False
        elif how == 'quota':
            ctx.raises(FileStorageQuotaError,
                       lambda: way(path, quota=rng.choice([1, 100])),
                       'creating more than the quota allows')
        elif how == 'argument':
            ctx.raises(TypeError, lambda: way(path, cache_size='large'),
                       'an impossible cache size')
            if strict is None:
                strict = False if way == ContainerDb.new else None
        elif how == 'unknown':
            # neither the database nor the storage has such an option, one
            # given to a finished storage would be without any effect
            where = rng.choice(['path', 'memory', 'given', 'given'])
            option = rng.choice(['compression', 'stroct'])
            with ExitStack() as stack:
                if where == 'path':
                    storage = path
                elif where == 'memory':
                    storage = None
                else:
                    storage = MappingStorage()
                    stack.callback(storage.close)
                ctx.raises(TypeError, lambda: ContainerDb(
                    storage, **{option: True}, databases=databases,
                    database_name='other'), f'an unknown option ({where})')
            ctx.count(f'unknown_{where}')
        else:
            ctx.raises(OSError, lambda: way(os.path.join(path, 'none', 'db')),
                       'a file in a folder that does not exist')
        ctx.expect(databases == {'there': there}, 'databases after a failure')
        # nobody else could close the file that was not opened
        FileStorage(path).close()
        ctx.count(f'failed_{how}')
        if how == 'quota' or strict is None:
            os.remove(path)
    db = ContainerDb(path)
    with db as conn:
        same_content(ctx, conn, model, 'after failures')
        ctx.equal(conn.strict, bool(strict), 'strict after failures')
    db.close()
    there.close()
    ctx.saw('failing', how, sorted(model))


def run(ctx):
    ctx.rule = ('sequences of creating, opening and reopening one file in '
                'every way and with every option, with changes between; '
                'databases in memory; files of something else; historical '
                'connections against the states recorded; databases that '
                'share a mapping; distinct: (way, options, ids held)')
    ctx.require(created=40, anew=10, kept=20, reopened=40, refused=20,
                historical=80, read_only=5, resized=3, packed=5,
                several_failed=10, several_committed=10, settings=60, option_quota=2,
                option_blob_dir=2, option_pack_gc=2, option_packer=2,
                option_pack_keep_old=2, beside_new=5, beside_create=5,
                beside_path=5, beside_memory=5, beside_refused=5,
                beside_module=5, beside_commits=20, beside_aborts=10,
                failed_name=10, failed_quota=3, failed_argument=5,
                failed_file=5, unknown_path=3, unknown_memory=3,
                unknown_given=5)
    quick = ctx.quick
    ctx.case(lambda rng: file_case(ctx, rng), 'file',
             120 if quick else 3000, 12 if quick else 500)
    ctx.case(lambda rng: file_option_case(ctx, rng), 'options',
             30 if quick else 600, 15 if quick else 200)
    ctx.case(lambda rng: memory_case(ctx, rng), 'memory',
             80 if quick else 2000, 6 if quick else 200)
    ctx.case(lambda rng: incompatible_case(ctx, rng), 'incompatible',
             50 if quick else 800, 6 if quick else 200)
    ctx.case(lambda rng: historical_case(ctx, rng), 'historical',
             50 if quick else 800, 10 if quick else 300)
    ctx.case(lambda rng: several_case(ctx, rng), 'several',
             30 if quick else 600, 6 if quick else 200)
    ctx.case(lambda rng: bystander_case(ctx, rng), 'bystander',
             40 if quick else 600, 10 if quick else 200)
    ctx.case(lambda rng: failing_case(ctx, rng), 'failing',
             90 if quick else 800, 10 if quick else 100)
