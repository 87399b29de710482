"""C16: databases behind a ZEO server."""
import inspect
import os
import sys
import threading
import time

import ZEO
import ZODB
import transaction
from ZEO.ClientStorage import ClientStorage
from ZODB.POSException import ConflictError, ReadOnlyError

import c13
import gen
import vf
from citrine.client.container_client import ContainerClient
from citrine.connection.container_connection import ContainerConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import (IncompatibleDatabaseError,
                                ObjectOverwriteError)
from citrine.storage.collection import CollectionCapacityError
from citrine.storage.container import Container
from citrine.storage.group import GroupCapacityError
from citrine.storage.transaction import TransactionManager

DEFAULT = 50000


def same_content(ctx, conn, model, what):
    got = {key: value for group in conn.container.groups[::-1]
           for key, value in group.items()}
    ctx.equal(sorted(got), sorted(model), f'{what}: ids')
    for key, value in model.items():
        ctx.expect(gen.same(conn.read(key), value),
                   lambda: f'{what}: {key!r} reads {conn.read(key)!r}, '
                           f'expected {value!r}')


class Client:
    def __init__(self, ctx, rng, addr, folder, number, strict):
        cache = None
        if rng.random() < .4:
            # kept on disk, and used again by a later client
            cache = os.path.join(folder, f'cache{number}')
            ctx.count('cache_files')
        args = {'wait_timeout': 60, 'server_sync': True}
        if rng.random() < .7 or strict:
            args['strict'] = strict
        if rng.random() < .4:
            args['name'] = rng.choice(['mine', '2', 'ü'])
            ctx.count('named')
        wanted = c13.settings(rng)
        registered = None
        if rng.random() < .4:
            registered = args['databases'] = {}
            ctx.count('registered')
        self.db = ContainerClient.connect(
            addr, cache, **args,
            **{name: value for name, (value, _) in wanted.items()})
        c13.check_settings(ctx, self.db, wanted, 'client')
        if registered is not None:
            own = wanted.get('database_name', ('unnamed',))[0]
            ctx.expect(list(registered) == [own]
                       and registered[own] is self.db
                       and self.db.databases is registered,
                       lambda: f'databases of client {own}: {registered}')
        if 'name' in args:
            ctx.expect(args['name'] in self.db.storage.getName(),
                       lambda: f'a storage named {args["name"]} is called '
                               f'{self.db.storage.getName()}')
        ctx.expect(isinstance(self.db, ContainerClient), 'type of a client')
        self.tm = TransactionManager()
        self.conn = self.db.open(self.tm)
        ctx.expect(isinstance(self.conn, ContainerConnection),
                   'connection of a client')

    def close(self):
        self.tm.abort()
        self.conn.close()
        self.db.close()


def one_case(ctx, rng):
    folder = ctx.folder()
    path = os.path.join(folder, 'served')
    model = {}
    serial = gen.Serial()
    pool = gen.ids(rng, 12)
    strict = None
    capacity = None
    if rng.random() < .4:
        # made by a local database before
        strict = rng.random() < .5
        db = ContainerDb.new(path, capacity=200, strict=strict)
        conn = db.open()
        for key in rng.sample(pool, 4):
            model[key] = serial(rng)
            conn.create(key, model[key])
        capacity = conn.capacity
        conn.close()
        db.close()
        ctx.count('existing')
    for _ in range(rng.choice([1, 2])):
        addr, stop = ZEO.server(path=path, threaded=True)
        clients = []
        try:
            for number in range(rng.choice([1, 2, 3])):
                asked = rng.random() < .5
                client = Client(ctx, rng, addr, folder, number, asked)
                clients.append(client)
                if strict is None:
                    strict = asked
                    ctx.expect(client.conn.capacity >= DEFAULT,
                               'capacity of a new database')
                    ctx.count('missing_container')
                    capacity = client.conn.capacity
                ctx.equal(client.conn.strict, strict, 'strict of a client')
                ctx.equal(client.conn.capacity, capacity, 'capacity')
                same_content(ctx, client.conn, model, 'new client')
                ctx.count('clients')
            for _ in range(rng.choice([5, 12])):
                client = rng.choice(clients)
                conn = client.conn
                key, value = rng.choice(pool), serial(rng)
                op = rng.choice(['update', 'update', 'create', 'delete',
                                 'block', 'rivals', 'fail'])
                ctx.step(op, clients.index(client), key, value)
                client.tm.begin()
                if op == 'update':
                    previous = conn.update(key, value)
                    ctx.expect(gen.same(previous, model.get(key)),
                               'update returns the previous value')
                    model[key] = value
                elif op == 'create':
                    if key in model:
                        ctx.raises(ObjectOverwriteError,
                                   lambda: conn.create(key, value),
                                   'creating what another client created')
                    else:
                        conn.create(key, value)
                        model[key] = value
                elif op == 'delete':
                    got = conn.delete(key)
                    wanted = (model.pop(key),) if key in model else ()
                    ctx.expect(gen.same(got, wanted), 'delete result')
                elif op == 'block':
                    with conn:
                        for key in rng.sample(pool, 3):
                            model[key] = serial(rng)
                            conn.update(key, model[key])
                elif op == 'fail':
                    try:
                        with conn:
                            for key in rng.sample(pool, 3):
                                conn.update(key, 'never')
                            raise ValueError()
                    except ValueError:
                        ctx.count('failed_blocks')
                elif op == 'rivals' and len(clients) > 1:
                    other = rng.choice([c for c in clients
                                        if c is not client])
                    late = serial(rng)
                    try:
                        with conn:
                            conn.update(key, late)
                            other.tm.begin()
                            other.conn.update(key, value)
                            model[key] = value
                    except ConflictError:
                        ctx.count('conflicts')
                    else:
                        raise vf.Violation('overlapping updates of two '
                                           'clients were both accepted')
                # all of them see it from now on
                for peer in clients:
                    peer.tm.begin()
                    same_content(ctx, peer.conn, model, f'after {op}')
                ctx.saw(op, len(clients), sorted(model))
                ctx.count('operations')
            ctx.raises(NotImplementedError,
                       lambda: ContainerClient.create(path),
                       'creating a file through a client')
        finally:
            for client in clients:
                client.close()
            stop()
    # the file itself
    db = ContainerDb(path)
    conn = db.open()
    same_content(ctx, conn, model, 'file of the server')
    ctx.equal(conn.strict, strict, 'strict of the file')
    ctx.equal(conn.capacity, capacity, 'capacity of the file')
    conn.close()
    db.close()


def storages_case(ctx, rng):
    """a server of several databases, and clients that only read"""
    folder = ctx.folder()
    names = rng.sample(['1', '2', 'two', 'x y'.replace(' ', '_')], 2)
    conf = ''.join(f'<filestorage {name}>\n  path {folder}/{name}\n'
                   f'</filestorage>\n' for name in names)
    addr, stop = ZEO.server(storage_conf=conf, threaded=True)
    serial = gen.Serial()
    pool = gen.ids(rng, 5)
    clients = {}
    models = {name: {} for name in names}
    strict = {name: rng.random() < .5 for name in names}
    try:
        for name in names:
            args = {'storage_type': name}
            if name == '1' and rng.random() < .5:
                args = {}
            if rng.random() < .5:
                args['name'] = names[0]
            client = ContainerClient.connect(
                addr, None, strict=strict[name], wait_timeout=60,
                server_sync=True, **args)
            clients[name] = client
            with client as conn:
                ctx.equal(conn.strict, strict[name], f'strict of {name}')
        for _ in range(6):
            name = rng.choice(names)
            key, value = rng.choice(pool), serial(rng)
            with clients[name] as conn:
                conn.update(key, value)
            models[name][key] = value
            for name, client in clients.items():
                with client as conn:
                    same_content(ctx, conn, models[name],
                                 f'storage {name} of {names}')
        name = rng.choice(names)
        reader = ContainerClient.connect(
            addr, None, storage_type=name, read_only=True, wait_timeout=60,
            server_sync=True, strict=not strict[name])
        clients['reader'] = reader
        conn = reader.open(TransactionManager())
        same_content(ctx, conn, models[name], 'client that only reads')
        ctx.equal(conn.strict, strict[name], 'strict when only reading')
        key = rng.choice(pool)
        ctx.raises(ReadOnlyError, lambda: conn.update(key, 'never'),
                   'writing through a client that only reads')
        same_content(ctx, conn, models[name], 'after the refused write')
        value = serial(rng)
        with clients[name] as other:
            other.update(key, value)
        models[name][key] = value
        conn.transaction_manager.begin()
        same_content(ctx, conn, models[name], 'client that only reads')
        conn.close()
    finally:
        for client in clients.values():
            client.close()
        stop()
    for name in names:
        db = ContainerDb(f'{folder}/{name}')
        with db as conn:
            same_content(ctx, conn, models[name], f'file of {name}')
            ctx.equal(conn.strict, strict[name], f'strict of {name}')
        db.close()
        ctx.saw('storages', name, sorted(models[name]), strict[name])
    ctx.count('storages')


def in_memory_case(ctx, rng):
    """a full strict database and storages other than a file"""
    addr, stop = ZEO.server(threaded=True)
    try:
        client = ContainerClient.connect(addr, None, strict=True,
                                         wait_timeout=60)
        conn = client.open()
        with conn:
            conn.container.resize(rng.choice([1, 2, 3]))
        limit = conn.capacity
        stored = 0
        for n in range(limit + 3):
            try:
                conn.create(f'id{n}', n)
                stored += 1
            except (CollectionCapacityError, GroupCapacityError):
                ctx.count('refused')
        ctx.equal(stored, limit, 'objects in a strict database')
        ctx.equal(conn.container.size, limit, 'size')
        conn.close()
        client.close()
    finally:
        stop()


def down_case(ctx, rng):
    """the server goes away for a while"""
    folder = ctx.folder()
    path, addr = os.path.join(folder, 'served'), os.path.join(folder, 's')
    start = lambda: ZEO.server(path=path, port=addr, threaded=True)[1]
    stop = start()
    serial = gen.Serial()
    pool = gen.ids(rng, 6)
    model = {}
    client = other = None
    try:
        client = ContainerClient.connect(
            addr, os.path.join(folder, 'cache') if rng.random() < .5 else
            None, wait_timeout=1, server_sync=True, max_disconnect_poll=1)
        conn = client.open(TransactionManager())
        for key in pool[:3]:
            model[key] = serial(rng)
            conn.update(key, model[key])
        if rng.random() < .3:
            conn.autocommit = False
            conn.autocommit = True
        stop()
        stop = None
        for _ in range(rng.choice([1, 2])):
            way = rng.choice(['update', 'delete', 'block', 'block'])
            ctx.step('down', way)
            key = rng.choice(pool)
            try:
                if way == 'update':
                    conn.update(key, 'never')
                elif way == 'delete':
                    conn.delete(key)
                else:
                    with conn:
                        conn.update(key, 'never')
            except Exception:
                ctx.count('failed_while_down')
            else:
                ctx.expect(False, f'{way} succeeded without the server')
        stop = start()
        other = ContainerClient.connect(addr, None, wait_timeout=60,
                                        server_sync=True)
        deadline = time.monotonic() + 120
        while not client.storage.is_connected():
            ctx.expect(time.monotonic() < deadline, 'no connection again')
            time.sleep(.02)
        ctx.equal(conn.autocommit, True, 'autocommit once it is there again')
        for _ in range(3):
            key = rng.choice(pool)
            model[key] = serial(rng)
            if rng.random() < .7:
                conn.update(key, model[key])
            else:
                with conn:
                    conn.update(key, model[key])
            for db in (client, other):
                with db as view:
                    view.transaction_manager.begin()
                    same_content(ctx, view, model, 'after the server came '
                                                   'back')
        conn.transaction_manager.abort()
        conn.close()
        ctx.count('server_back')
    finally:
        for one in (client, other):
            if one is not None:
                one.close()
        if stop:
            stop()


def networking():
    return {thread for thread in threading.enumerate()
            if 'zeo client networking' in thread.name}


def refused_case(ctx, rng):
    """a client that could not be made is no client of the server"""
    folder = ctx.folder()
    path = os.path.join(folder, 'served')
    plain = ZODB.DB(path)
    with plain.transaction() as conn:
        conn.root()['other'] = 1
    plain.close()
    databases = {} if rng.random() < .7 else None
    cache = os.path.join(folder, 'cache') if rng.random() < .7 else None
    addr, stop = ZEO.server(path=path, threaded=True)
    try:
        before = networking()
        for _ in range(rng.choice([1, 2])):
            ctx.raises(IncompatibleDatabaseError, lambda:
                       ContainerClient.connect(addr, cache, wait_timeout=60,
                                               databases=databases),
                       'connecting to a database of something else')
            for thread in networking() - before:
                thread.join(30)
            ctx.expect(networking() == before,
                       'a refused client stays connected')
            ctx.expect(not databases, 'a refused client is registered')
            ctx.count('refused_clients')
    finally:
        stop()
    plain = ZODB.DB(path)
    with plain.transaction() as conn:
        ctx.equal(dict(conn.root()), {'other': 1}, 'the refused database')
        conn.root.container = Container.new()
    plain.close()
    # the cache file is free again
    addr, stop = ZEO.server(path=path, threaded=True)
    try:
        client = ContainerClient.connect(addr, cache, wait_timeout=60)
        with client as conn:
            conn.update('id', 'value')
            ctx.equal(conn.read('id'), 'value', 'a client accepted later')
        client.close()
    finally:
        stop()


def race_case(ctx, rng):
    """clients that are the first ones at the same time"""
    addr, stop = ZEO.server(path=os.path.join(ctx.folder(), 'served'),
                            threaded=True)
    number = rng.choice([2, 3, 4])
    barrier = threading.Barrier(number)
    strict = [rng.random() < .5 for _ in range(number)]
    clients = [None] * number
    failures = []

    def work(n):
        barrier.wait(60)
        while True:
            try:
                clients[n] = ContainerClient.connect(
                    addr, None, strict=strict[n], wait_timeout=60,
                    server_sync=True)
                break
            except ConflictError:
                # others were faster, it is there now
                ctx.count('races_lost')
            except Exception as error:
                failures.append(error)
                return
        while True:
            try:
                with clients[n] as conn:
                    conn.update(f'id{n}', n)
                return
            except ConflictError:
                pass

    switch = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    threads = [threading.Thread(target=work, args=(n,), daemon=True)
               for n in range(number)]
    try:
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(120)
        ctx.expect(not failures, lambda: f'connecting failed: {failures}')
        ctx.expect(all(clients), 'clients did not connect')
        kinds = set()
        for client in clients:
            with client as conn:
                conn.transaction_manager.begin()    # asks the server
                same_content(ctx, conn, {f'id{n}': n for n in range(number)},
                             'after connecting at the same time')
                kinds.add((conn.strict, conn.capacity))
        ctx.expect(len(kinds) == 1 and kinds.pop()[0] in strict,
                   'clients disagree')
        ctx.count('races')
        ctx.saw('race', number, sorted(strict))
    finally:
        sys.setswitchinterval(switch)
        for client in clients:
            if client is not None:
                client.close()
        stop()


class Reached(Exception):
    """the options arrived at the storage of a client"""


def options_case(ctx, rng):
    """the options of the storage of a client, as it gets them"""
    possible = {
        'storage_type': rng.choice(['1', '2', 'main']),
        'storage_cache_size': rng.choice([1 << 20, 1 << 24]),
        'name': rng.choice(['mine', 'ü']),
        'wait_timeout': rng.choice([1, 5, 3600]),
        'disconnect_poll': rng.choice([1, 7]),
        'read_only': rng.choice([1, True]),
        'read_only_fallback': rng.choice([1, True]),
        'blob_dir': rng.choice(['/nowhere/b', 'blobs']),
        'shared_blob_dir': True,
        'blob_cache_size': rng.choice([1000, 1 << 30]),
        'blob_cache_size_check': rng.choice([1, 50]),
        'client_label': 'label',
        'cache': '/nowhere/cache',
        'client': 'kept',
        'var': '/nowhere/var',
        '_client_factory': object(),
        'ssl': object(),
        'ssl_server_hostname': 'example.org',
        'wait': False,
        'min_disconnect_poll': 3,
        'max_disconnect_poll': 9,
        'drop_cache_rather_verify': False,
        'credentials': ('a', 'b'),
        'server_sync': True,
        'username': 'user',
        'password': 'secret',
        'realm': 'realm',
    }
    names = rng.sample(sorted(possible), rng.choice([0, 1, 3, 8, 27]))
    given = {name: possible[name] for name in names}
    path = None
    if 'cache' not in given and rng.random() < .5:
        path = '/nowhere/path'
    args = dict(given, **{name: value for name, (value, _)
                          in c13.settings(rng).items()})
    if rng.random() < .5:
        args['strict'] = rng.random() < .5
    addr = rng.choice([('localhost', 1), '/nowhere/socket'])
    seen = []
    original = ClientStorage.__init__
    signature = inspect.signature(original)

    def record(*args, **kwargs):
        bound = signature.bind(*args, **kwargs)
        bound.apply_defaults()
        seen.append(bound.arguments)
        raise Reached()
    wanted = {name: field.default for name, field
              in signature.parameters.items()
              if field.default is not field.empty}
    renamed = {'storage_type': 'storage', 'storage_cache_size': 'cache_size'}
    wanted.update((renamed.get(name, name), value)
                  for name, value in given.items())
    wanted['cache'] = path or given.get('cache')
    wanted['addr'] = addr
    ctx.step('connect', addr, path, sorted(args))
    ClientStorage.__init__ = record
    try:
        ctx.raises(Reached, lambda: ContainerClient.connect(addr, path,
                                                            **args),
                   'connecting')
    finally:
        ClientStorage.__init__ = original
    ctx.equal(len(seen), 1, 'storages made')
    for name, value in wanted.items():
        got = seen[0][name]
        ctx.expect(got is value or got == value,
                   lambda: f'the storage has {name}={got!r}, asked for was '
                           f'{value!r} by {args}')
    ctx.count('options', len(given))
    ctx.saw('options', sorted(args), path)


def run(ctx):
    ctx.rule = ('1-3 clients of a server, in turn and with overlapping '
                'transactions; what each sees after every operation, across '
                'restarts of the server and in its file; distinct: '
                '(operation, clients, ids)')
    ctx.require(clients=15, operations=60, conflicts=3, failed_blocks=3,
                existing=2, missing_container=3, cache_files=3, refused=2, storages=1,
                named=3, settings=10, options=100, refused_clients=5, races=4,
                server_back=2)
    quick = ctx.quick
    ctx.case(lambda rng: one_case(ctx, rng), 'served',
             25 if quick else 400, 40 if quick else 1500, stuck=300)
    ctx.case(lambda rng: options_case(ctx, rng), 'options',
             60 if quick else 1000, 10 if quick else 60)
    ctx.case(lambda rng: storages_case(ctx, rng), 'storages',
             6 if quick else 100, 20 if quick else 300, stuck=300)
    ctx.case(lambda rng: in_memory_case(ctx, rng), 'memory',
             3 if quick else 20, 15 if quick else 200, stuck=300)
    ctx.case(lambda rng: refused_case(ctx, rng), 'refused',
             6 if quick else 60, 15 if quick else 200, stuck=300)
    ctx.case(lambda rng: race_case(ctx, rng), 'race',
             6 if quick else 200, 20 if quick else 300, stuck=300)
    ctx.case(lambda rng: down_case(ctx, rng), 'down',
             4 if quick else 60, 40 if quick else 300, stuck=300)
