"""C31: what is over leaves nothing behind."""
import gc
import itertools
import os
import sys
import threading
import time
import types
import warnings
from collections import Counter, deque

import transaction
import ZEO
import ZODB
from BTrees.OOBTree import OOBTree
from persistent.mapping import PersistentMapping
from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError
from ZODB.utils import p64, u64

import as2
import gen
import vf
from activitystreams import create_engine, create_package
from citrine.client.container_client import ContainerClient
from citrine.cluster_tools.dbmodule.dbgroup import DbGroup
from citrine.cluster_tools.dbmodule.dbmodule import DbModule
from citrine.connection.group_connection import GroupReadConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import ObjectOverwriteError
from citrine.persistence import (CitrineThreadTransactionManager,
                                 CitrineTransactionManager)
from citrine.storage.container import Container
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)
from jsonld import JsonLdEngine, JsonLdPackage, JsonProperty
from jsonld.base import JsonContextAwareManager, PropertyAwareObject
from jsonld.docloader import CachedRequestsJsonLoader, RequestsJsonLoader

WATCHED = ('citrine', 'jsonld', 'activitystreams', 'ZODB', 'ZEO',
           'transaction', 'persistent', 'BTrees', 'asyncio', 'concurrent',
           'logging', 'pyld', 'requests', 'threading', '_thread', 'socket',
           '_io', 'generated', 'db')
HOLDERS = (dict, list, set, deque)
# a storage in memory keeps every transaction until it is packed
HISTORY = ('ZODB.MappingStorage.',)


class Boom(Exception):
    pass


# ---- what there is -------------------------------------------------------
def origin(module):
    return isinstance(module, str) and module.split('.')[0] in WATCHED


def resources():
    """what there is that something could leave behind"""
    for _ in range(3):
        gc.collect()
    found = Counter()
    for thing in gc.get_objects():
        kind = type(thing)
        if kind is types.FunctionType:
            if origin(thing.__module__):
                found[f'function {thing.__module__}.{thing.__qualname__}'] += 1
        elif kind is types.MethodType:
            if origin(getattr(thing.__func__, '__module__', None)):
                found[f'method {thing.__func__.__qualname__}'] += 1
        elif kind in (*HOLDERS, tuple):
            found[f'kinds of {kind.__name__}'] += 1
        elif kind is types.FrameType or kind is types.TracebackType:
            found[kind.__name__] += 1
        elif issubclass(kind, type):
            if origin(thing.__module__):
                found[f'class {thing.__module__}.{thing.__qualname__}'] += 1
        elif issubclass(kind, BaseException):
            found[f'exception {kind.__name__}'] += 1
        elif origin(kind.__module__):
            name = f'{kind.__module__}.{kind.__qualname__}'
            if not name.startswith(HISTORY):
                found[name] += 1
    sizes = {id(thing): (kind, len(thing)) for kind in HOLDERS
             for thing in gc.get_objects() if type(thing) is kind}
    for holder, attributes in owners():
        for name, value in attributes.items():
            if type(value) in (*HOLDERS, tuple):
                # whatever object it is in the meantime
                sizes[id(holder), name] = (type(value), len(value))
    found['open files and sockets'] = len(os.listdir('/proc/self/fd'))
    found['threads'] = threading.active_count()
    return found, sizes


OWN = ('citrine', 'jsonld', 'activitystreams')


def owners():
    """modules, classes and objects of this code with their attributes"""
    for name, module in list(sys.modules.items()):
        if name.split('.')[0] in OWN:
            yield module, dict(vars(module))
    for thing in gc.get_objects():
        kind = type(thing)
        if issubclass(kind, type):
            if origin(thing.__module__):
                yield thing, dict(vars(thing))
        elif isinstance(kind.__module__, str) \
                and kind.__module__.split('.')[0] in OWN:
            try:
                yield thing, dict(object.__getattribute__(thing, '__dict__'))
            except AttributeError:
                pass


def grown(before, after, least):
    found = {name for name, number in after[0].items()
             if number - before[0][name] >= least}
    for ident, (kind, size) in after[1].items():
        if ident in before[1] and before[1][ident][0] is kind \
                and size - before[1][ident][1] >= least:
            found.add((kind.__name__, ident))
    return found


def described(suspects):
    """what grew, and what holds it"""
    found = []
    for one in sorted(suspects, key=str):
        if isinstance(one, str):
            found.append(one)
            continue
        if isinstance(one[1], tuple):
            found.append(f'entries in a {one[0]}, {one[1][1]} of ' + ', '.join(
                vf.short(repr(thing), 150) for thing, _ in owners()
                if id(thing) == one[1][0]))
            continue
        for thing in gc.get_objects():
            if id(thing) == one[1]:
                found.append(f'entries in a {one[0]} of '
                             f'{vf.short(repr(thing), 150)}')
    return found


UNCLOSED = []


def warned(message, category, *args, **kwargs):
    if issubclass(category, ResourceWarning) and len(UNCLOSED) < 3:
        UNCLOSED.append(str(message))


def watch(ctx, what, step, rounds, storage_fails=False):
    """
    The step is repeated: something of it stays behind if every round leaves
    at least one more for each of its repetitions
    """
    gc.collect()
    UNCLOSED.clear()
    for _ in range(6):
        step()
    before = resources()
    suspects = None
    for number in range(3):
        for _ in range(rounds):
            step()
        after = resources()
        found = grown(before, after, rounds)
        deadline = time.monotonic() + 5
        while number == 2 and found & suspects \
                and time.monotonic() < deadline:
            # threads may need a moment to end
            time.sleep(.05)
            after = resources()
            found = grown(before, after, rounds)
        suspects = found if suspects is None else suspects & found
        before = after
        if not suspects:
            break
    ctx.expect(not suspects, lambda: f'{what}: each repetition leaves '
               f'{described(suspects)} behind')
    ctx.peak('kinds_of_objects', len(after[0]))
    ctx.peak('holders_followed', len(after[1]))
    # storages leave their files to the collector if they fail themselves
    ctx.expect(storage_fails or not UNCLOSED, lambda: f'{what}: never closed: {UNCLOSED}')
    ctx.count('rounds', number + 1)
    ctx.count('repeated', 6 + rounds * (number + 1))


def opened(db):
    """connections that are open now"""
    return [info for info in db.connectionDebugInfo() if info['opened']]


def nothing_open(ctx, what, *dbs):
    for db in dbs:
        ctx.equal(opened(db), [], f'{what}: connections still open')
    ctx.count('audits')


# ---- blocks and connections ----------------------------------------------
def failing(fn, *kinds):
    try:
        fn()
    except kinds:
        return
    raise AssertionError(f'{fn} did not fail')


def block(db, key, value):
    with db as conn:
        conn.update(key, value)
        conn.read(key)


def reading(db, key):
    with db as conn:
        conn.read(key, None)
        conn.read('missing', None)


def failing_block(db, key, value):
    def fail():
        with db as conn:
            conn.update(key, value)
            raise Boom
    failing(fail, Boom)


def refused(db, key, value):
    def fail():
        with db as conn:
            conn.update(key, value)
            conn.create(key, value)
    failing(fail, ObjectOverwriteError)


def unpicklable(db, key, value):
    def fail():
        with db as conn:
            conn.update(key, lambda: value)
    failing(fail, Exception)


def nested(db, key, value):
    with db as outer:
        with db as inner:
            inner.update(key, value)
            with db as third:
                third.read(key)
        outer.transaction_manager.begin()
        outer.read(key)


def nested_failing(db, key, value):
    def fail():
        with db as outer:
            outer.read(key)
            with db as inner:
                inner.update(key, value)
                raise Boom
    failing(fail, Boom)


def conflict(db, key, value):
    one, two = db.open(TransactionManager()), db.open(TransactionManager())
    try:
        for conn in (one, two):
            # neither of them what is stored already
            conn.container.write(key, [value, time.monotonic()])
        one.transaction_manager.commit()
        failing(two.transaction_manager.commit, ConflictError)
        two.transaction_manager.abort()
    finally:
        one.close()
        two.close()


def by_hand(db, key, value):
    conn = db.open()
    conn.update(key, value)
    conn.delete(key)
    conn.close()


MANAGERS = [TransactionManager, ThreadTransactionManager,
            CitrineTransactionManager, CitrineThreadTransactionManager,
            transaction.TransactionManager,
            transaction.ThreadTransactionManager,
            lambda: transaction.TransactionManager(explicit=True)]


def with_manager(kind):
    def step(db, key, value):
        manager = kind()
        conn = db.open(manager)
        manager.begin()
        conn.container.write(key, value)
        manager.commit()
        manager.begin()
        conn.container.write(key, [value])
        manager.abort()
        conn.close()
    return step


def same_manager(manager):
    """a manager that lives on"""
    def step(db, key, value):
        conn = db.open(manager)
        with manager:
            conn.update(key, value)

        def fail():
            with manager:
                conn.update(key, [value])
                raise Boom
        failing(fail, Boom)
        conn.update(key, [])
        failing(lambda: conn.create(key, value), ObjectOverwriteError)
        conn.close()
    return step


def settings(db, key, value):
    conn = db.open()
    conn.autocommit = False
    conn.update(key, value)
    conn.transaction_manager.commit()
    conn.update(key, [value])
    conn.transaction_manager.abort()
    conn.close()


def historical(db, key, value):
    # connections to the same time are kept for others
    at = FIRST[-1]
    for args in ({'at': at}, {'before': at}):
        conn = db.open(**args)
        try:
            conn.read(key, None)
        except Exception:       # before the container was made
            pass
        conn.transaction_manager.abort()
        conn.close()


FIRST = []


def bad_history(db, key, value):
    at = p64(u64(db.lastTransaction()))
    failing(lambda: db.open(at=at, before=at), ValueError)
    failing(lambda: db.open(at=p64(u64(at) + (1 << 50))), ValueError)


def in_thread(fn):
    def step(db, key, value):
        errors = []

        def run():
            try:
                fn(db, key, value)
            except BaseException as error:
                errors.append(error)
        thread = threading.Thread(target=run)
        thread.start()
        thread.join()
        if errors:
            raise errors.pop()
    return step


def two_threads(db, key, value):
    first = threading.Event()

    def hold():
        with db as conn:
            conn.read(key, None)
            first.set()
    threads = [threading.Thread(target=hold), threading.Thread(
        target=lambda: first.wait() and reading(db, key))]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()


def resized(db, key, value):
    with db as conn:
        conn.update(key, value)
        before = conn.container.groups
        conn.container.resize(3)
        conn.container.groups
        transaction_manager = conn.transaction_manager
        transaction_manager.abort()
        assert len(conn.container.groups) == len(before)


STEPS = {
    'block': block, 'reading': lambda db, key, value: reading(db, key),
    'failing block': failing_block, 'refused': refused,
    'unpicklable': unpicklable, 'nested': nested,
    'nested failing': nested_failing, 'conflict': conflict,
    'by hand': by_hand, 'settings': settings, 'historical': historical,
    'bad history': bad_history, 'two threads': two_threads,
    'resize dropped': resized,
    **{f'manager {number}': with_manager(kind)
       for number, kind in enumerate(MANAGERS)},
    **{f'same manager {number}': same_manager(kind())
       for number, kind in enumerate(MANAGERS[:4])},
    **{f'{fn.__name__} in a thread': in_thread(fn) for fn in
       (block, failing_block, nested, by_hand, refused, historical,
        with_manager(ThreadTransactionManager))},
}


def block_case(ctx, rng):
    """the same things again and again in one database"""
    stored = rng.choice(['file', 'file', 'memory'])
    db = ContainerDb(os.path.join(ctx.folder(), 'db')
                     if stored == 'file' else None,
                     pool_size=rng.choice([1, 2, 7]))
    order = sorted(STEPS)
    names = [order[rng.case_index % len(order)]] + \
        rng.sample(order, rng.choice([0, 0, 2]))
    what = f'{names} with a database in {stored}'
    ctx.step(what)
    key = rng.choice(gen.ids(rng, 3))
    value = rng.choice([0, 'text', [1, 2], {'a': None}])
    with db as conn:
        conn.update(key, value)
    FIRST[:] = [db.lastTransaction()]

    def step():
        for name in names:
            STEPS[name](db, key, value)
            nothing_open(ctx, name, db)
    try:
        watch(ctx, what, step, 6)
        # never more than were open at once
        ctx.expect(len(db.pool.all) <= 4, lambda: f'{what}: the database '
                   f'keeps {len(db.pool.all)} connections')
    finally:
        db.close()
    for name in names:
        ctx.saw('step', name, stored)
    if names[0] == 'block':
        ctx.sample(what)


# ---- databases -----------------------------------------------------------
def database_case(ctx, rng):
    """databases that are opened and closed"""
    root = ctx.folder()
    path = os.path.join(root, 'db')
    kinds = ['file', 'memory', 'storage', 'several', 'loaded', 'damaged',
             'missing', 'refused', 'held', 'in use', 'new']
    kind = kinds[rng.case_index % len(kinds)]
    ctx.step(kind)
    first = ContainerDb(path)
    with first as conn:
        conn.update('key', 'value')
    if kind != 'held':
        first.close()
    damaged = os.path.join(root, 'damaged')
    with open(damaged, 'w') as writer:
        writer.write('no database')
    with_block = rng.random() < .6

    def use(db, close=True):
        if with_block:
            with db as conn:
                conn.update('key', conn.read('key', 0))
        else:
            conn = db.open()
            conn.read('key', None)
            conn.close()
        nothing_open(ctx, kind, db)
        if close:
            db.close()

    def attempt(fn):
        try:
            fn().close()
        except Exception as error:
            error.__traceback__ = None
            return
        raise AssertionError(f'{kind} did not fail')

    def step():
        if kind == 'file':
            use(ContainerDb(path))
        elif kind == 'memory':
            use(ContainerDb(None))
        elif kind == 'storage':
            storage = FileStorage(path)
            use(ContainerDb(storage))
        elif kind == 'several':
            known = {}
            dbs = [ContainerDb(path if number == 1 else None, databases=known,
                               database_name=f'n{number}')
                   for number in range(3)]
            for db in dbs:
                use(db, False)
            for db in dbs:
                db.close()
        elif kind == 'loaded':
            use(ContainerDb.load(path))
        elif kind == 'damaged':
            attempt(lambda: ContainerDb(damaged))
        elif kind == 'missing':
            attempt(lambda: ContainerDb(os.path.join(root, 'no', 'db')))
        elif kind == 'refused':
            attempt(lambda: ContainerDb(path, no_such_option=1))
            attempt(lambda: ContainerDb.new(path, databases={'x': 1},
                                            database_name='x'))
            attempt(lambda: ContainerDb(path, databases={'x': 1},
                                        database_name='x'))
        elif kind == 'new':
            use(ContainerDb.new(path, capacity=100))
        elif kind == 'held':
            attempt(lambda: ContainerDb(path))
        elif kind == 'in use':
            known = {}
            one = ContainerDb(None, databases=known, database_name='name')
            attempt(lambda: ContainerDb(path, databases=known,
                                        database_name='name'))
            one.close()
    watch(ctx, f'databases: {kind}', step, 6, kind == 'damaged')
    if kind == 'held':
        first.close()
    # the file is free
    db = ContainerDb(path)
    with db as conn:
        ctx.equal(conn.read('key'), 'value', f'{kind}: content')
    db.close()
    ctx.count('databases')
    ctx.saw('database', kind, with_block)


# ---- groups of databases -------------------------------------------------
def group_case(ctx, rng):
    """reading from several databases"""
    root = ctx.folder()
    count = rng.choice([1, 2, 4])
    dbs = [ContainerDb(os.path.join(root, str(number)),
                       database_name=f'n{number}') for number in range(count)]
    for number, db in enumerate(dbs):
        with db as conn:
            conn.update('both', 1)
            conn.update(f'key{number}', number)
    kinds = ['reads', 'duplicates', 'missing', 'slow', 'unopened', 'manager']
    kind = kinds[rng.case_index % len(kinds)]
    ctx.step(count, kind)
    lasting = GroupReadConnection(dbs)
    closed = ContainerDb(None, database_name='closed')
    closed.close()

    def step():
        if kind == 'unopened':
            def make():
                GroupReadConnection([*dbs, closed])
            failing(make, Exception)
            for db in dbs:
                ctx.equal(len(opened(db)), 1, f'{kind}: connections open')
            return
        lasting.read('key0')
        lasting.read('no', multiple=True)
        args = {}
        if kind == 'manager':
            args = {'transaction_manager': TransactionManager()}
        group = GroupReadConnection(dbs, **args)
        if kind == 'duplicates':
            group.read('both', multiple=True)
            if count > 1:
                failing(lambda: group.read('both'), Exception)
        elif kind == 'missing':
            group.read('no')
        elif kind == 'slow':
            for conn in group.connections:
                read = conn.read
                conn.read = lambda *args, read=read, **kwargs: (
                    time.sleep(.005), read(*args, **kwargs))[1]
            from datetime import timedelta
            try:
                group.read('key0', timeout=timedelta(milliseconds=1))
            except Exception as error:
                error.__traceback__ = None
            time.sleep(.01)
            for conn in group.connections:
                del conn.read
        else:
            group.read('key0')
        for conn in group.connections:
            conn.close()
        for db in dbs:
            ctx.equal(len(opened(db)), 1, f'{kind}: connections open')
    try:
        watch(ctx, f'reading of {count} databases: {kind}', step, 6)
    finally:
        for conn in lasting.connections:
            conn.close()
        for db in dbs:
            db.close()
    ctx.count('groups')
    ctx.saw('group', count, kind)


def module_case(ctx, rng):
    """modules with databases"""
    root = ctx.folder()
    kinds = ['destroyed', 'overwritten', 'again', 'module', 'broken']
    kind = kinds[rng.case_index % len(kinds)]
    ctx.step(kind)
    group = DbGroup(root)
    if kind in ('again', 'broken', 'module'):
        with group.create_dbmodule('kept').db as conn:
            conn.update('key', 1)
        group.modules['kept'].db.close()
    if kind == 'broken':
        made = group.create_dbmodule('zzz')
        made.db.close()
        for end in ('', '.index'):
            with open(os.path.join(root, 'zzz', 'zzz' + end), 'w') as writer:
                writer.write('no database')

    def use(module):
        with module.db as conn:
            conn.update('key', 1)
        conn = module.open()
        conn.close()
        module.size
        nothing_open(ctx, kind, module.db)

    def step():
        if kind == 'destroyed':
            use(group.create_dbmodule('one'))
            group.destroy_dbmodule('one')
        elif kind == 'overwritten':
            use(group.create_dbmodule('one', overwrite=True))
        elif kind == 'again':
            again = DbGroup(root)
            use(again.modules['kept'])
            again.modules['kept'].db.close()
        elif kind == 'module':
            module = DbModule(os.path.join(root, 'kept'))
            use(module)
            module.db.close()
        else:
            failing(lambda: DbGroup(root), Exception)
    try:
        watch(ctx, f'modules: {kind}', step, 5, kind == 'broken')
    finally:
        if kind in ('destroyed', 'overwritten'):
            for module in group.modules.values():
                module.db.close()
    ctx.count('modules')
    ctx.saw('module', kind)


def client_case(ctx, rng):
    """clients of a server"""
    root = ctx.folder()
    addr, stop = ZEO.server(path=os.path.join(root, 'served'), threaded=True)
    kind = rng.choice(['client', 'client', 'refused', 'own'])
    ctx.step(kind)

    def step():
        args = {'wait_timeout': 60, 'server_sync': True}
        if kind == 'refused':
            def attempt():
                ContainerClient.connect(addr, None, databases={'x': 1},
                                        database_name='x', **args)
            failing(attempt, ValueError)
            return
        client = ContainerClient.connect(addr, None, **args)
        # the server keeps a list of the last changes
        with client as conn:
            conn.read('key', None)
        if kind == 'own':
            conn = client.open(TransactionManager())
            conn.read('key')
            conn.transaction_manager.abort()
            conn.close()
        nothing_open(ctx, kind, client)
        client.close()
    try:
        step()
        watch(ctx, f'clients: {kind}', step, 4)
    finally:
        stop()
    ctx.count('clients')
    ctx.saw('client', kind)


# ---- what is stored ------------------------------------------------------
def pack_case(ctx, rng):
    """what was deleted or replaced is gone once it is packed"""
    stored = rng.choice(['file', 'memory'])
    path = os.path.join(ctx.folder(), 'db')
    db = ContainerDb(path if stored == 'file' else None)
    keys = gen.ids(rng, rng.choice([1, 5, 30]))
    resize = rng.random() < .3
    sizes = rng.sample([100, 1000, 2000, 3000], 2)
    condense = resize or rng.random() < .3
    ctx.step(stored, len(keys), resize, condense)
    marks = itertools.count()

    def value():
        found = f'MARKED {next(marks)} ' + 'x' * rng.choice([0, 9, 500])
        if rng.random() < .4:
            found = PersistentMapping({'value': found, 'more': rng.choice([
                PersistentMapping(), OOBTree({'a': PersistentMapping()}), 1])})
        return found

    def step():
        with db as conn:
            if resize:
                sizes.reverse()
                conn.container.resize(sizes[0])
                conn.transaction_manager.commit()
            for key in keys:
                conn.update(key, value())
            for key in rng.sample(keys, rng.randrange(len(keys) + 1)):
                conn.update(key, value())
            if condense:
                conn.container.condense()
                conn.transaction_manager.commit()
            for key in rng.sample(keys, len(keys)):
                conn.delete(key)
            if condense:
                conn.container.condense()
                conn.transaction_manager.commit()
            for key in keys:
                assert conn.read(key, None) is None
        db.pack(time.time() + 60)
        nothing_open(ctx, 'packing', db)
        for transaction_record in db.storage.iterator():
            for record in transaction_record:
                ctx.count('records')
                ctx.expect(b'MARKED' not in (record.data or b''),
                           'a deleted object is still in the storage')
        return db.objectCount()
    try:
        numbers = [step() for _ in range(8)]
        ctx.step(numbers)
        ctx.expect(min(numbers[4:]) <= max(numbers[:4]), lambda:
                   f'{len(keys)} objects deleted again and again: the '
                   f'numbers of objects stored are {numbers}')
    finally:
        db.close()
    ctx.count('packed', len(numbers))
    ctx.saw('pack', stored, len(keys), resize, condense)


# ---- packages, engines and documents -------------------------------------
def make_property(name):
    slot = f'_{name}'

    def getter(self):
        return getattr(self, slot, None)

    def setter(self, value):
        if value == 'bad':
            raise ValueError(value)
        setattr(self, slot, value)
    return type(name, (JsonProperty,), {
        '__module__': 'generated', name: property(getter, setter),
        '__get_namespace__': classmethod(
            lambda cls: f'https://x.example#{name}')})


def vocabulary():
    props = [make_property(f'p{number}') for number in range(3)]
    base = None
    objects = []
    for number in range(3):
        base = type(f'C{number}', (base or PropertyAwareObject,), {
            '__module__': 'generated',
            'clone': lambda self: objects[0](),
            '__get_namespace__': classmethod(
                lambda cls, number=number: f'https://x.example#C{number}')})
        objects.append(base)
    return objects, props


LOADER = RequestsJsonLoader()
CACHED = CachedRequestsJsonLoader()


def build_steps(rng):
    """what is repeated, everything it needs is made before"""
    objects, props = vocabulary()
    ns = 'https://x.example'
    mapping = {f'{ns}#C{number}': [f'{ns}#p{number}'] for number in range(3)}
    package = JsonLdPackage('https://x.example', objects, props, mapping)
    other = JsonLdPackage('https://y.example', objects[:1], props[:1], {})
    published = create_package()
    as2.prepare_context()
    engine = create_engine()
    note = engine.Note(id='https://a.example/1', name='x')
    document = {'@context': as2.NS, 'type': 'Create', 'actor': {
        'type': 'Person', 'name': 'x'}, 'object': {
            'type': 'Note', 'published': '2020-01-01T00:00:00Z',
            'duration': 'PT5S', 'tag': [
                {'type': 'Mention', 'href': 'https://a.example/2'}]}}
    own = {**document, '@context': [as2.NS, {'z': 'https://x.example/z'}]}

    def links():
        linked = package[f'{ns}#C0']
        package.link_property(props[2], linked)
        package.update_property_link(props[2], linked)
        package.remove_property_link('p2', linked)

    def bad_links():
        failing(lambda: package.link_properties(['no'], f'{ns}#C0'),
                ValueError)
        failing(lambda: package.link_properties([f'{ns}#p0'], 'no'),
                ValueError)
        failing(lambda: JsonLdPackage(ns, objects, props, {'no': []}),
                ValueError)
        failing(lambda: JsonLdPackage(5), TypeError)

    def instances():
        obj = package[f'{ns}#C2']()
        obj.p0 = [obj.clone()]
        failing(lambda: setattr(obj, 'p1', 'bad'), ValueError)
        dict(iter(obj))

    def registers():
        made = JsonLdEngine(package)
        failing(lambda: made.register_class(f'{ns}#C0', objects[0]),
                ValueError)

    def values():
        note.name = 'y'
        note.tag = [engine.Mention(href='https://a.example/3')]
        failing(lambda: setattr(note, 'id', 5), Exception)
        failing(lambda: setattr(note, 'published', 'x'), Exception)
        failing(lambda: note['no'], KeyError)
        note['name']

    def written():
        note.json()
        note.data()
        note.json(include=['name'], rename={'name': 'title'})
        note.data(exclude=['name'])
        with note.switch_context('json'):
            with note.switch_context('other'):
                note.name

        def fail():
            with note.switch_context('json'):
                raise Boom
        failing(fail, Boom)

    numbers = itertools.count()

    def bad_documents():
        del as2.REQUESTS[:]
        number = next(numbers)
        for bad in ({**document, 'type': f'Nonsense{number}'},
                    {'type': f'https://x.example#{number}'},
                    {'@context': as2.NS, 'id': f'urn:{number}'},
                    {**document, 'published': 'x'}, 'x', '[]',
                    {**document, 'object': {'type': 'Note', 'id': 5}},
                    {**document, '@context': 'https://no.example/context'}):
            failing(lambda: engine.from_json(bad), Exception)
        failing(lambda: engine[5], TypeError)

    def documents():
        for one in (document, own):
            # another one each time
            engine.from_json({**one, 'id': f'https://a.example/{next(numbers)}'
                              }).json()

    address = f'https://page.example/{rng.randrange(10 ** 9)}'

    def pages():
        del as2.REQUESTS[:]
        as2.WEB[address] = as2.Page({'@context': {}})
        as2.WEB[address + '/b'] = as2.Page('no json')
        as2.WEB[address + '/c'] = as2.Page('{}', 404)
        for loader in (LOADER, CACHED):
            loader(address)
            for end in ('/b', '/c', '/d'):
                failing(lambda: loader(address + end), Exception)
            failing(lambda: loader('ftp://x.example/'), Exception)
        for kind in (RequestsJsonLoader, CachedRequestsJsonLoader):
            kind(False)(address)
        as2.WEB.clear()

    return {
        'packages': lambda: JsonLdPackage(ns, objects, props, mapping),
        'sums': lambda: (package + other, other + package),
        'differences': lambda: (package - other, other - package),
        'published package': create_package,
        'copies of a package': lambda: JsonLdPackage(
            ns, published.objects[:5], published.properties[:5], {}),
        'engines': lambda: JsonLdEngine((package, other)),
        'sums of engines': lambda: JsonLdEngine(package)
        + JsonLdEngine(other) + other - package,
        'published engine': create_engine,
        'no packages': lambda: failing(lambda: JsonLdEngine(()), ValueError),
        'registers': registers, 'links': links, 'bad links': bad_links,
        'instances': instances, 'values': values, 'written': written,
        'documents': documents, 'bad documents': bad_documents,
        'pages': pages, 'vocabularies': vocabulary,
    }


def document_case(ctx, rng):
    steps = build_steps(rng)
    order = sorted(steps)
    name = order[rng.case_index % len(order)]
    ctx.step(name)
    slow = name.startswith('published')
    watch(ctx, name, steps[name], 3 if slow else 6)
    ctx.count('vocabularies')
    ctx.saw('jsonld', name)


def run(ctx):
    ctx.rule = ('the same thing again and again, alone and with others: '
                'blocks and connections of every kind that end well and '
                'fail, databases, groups, modules and clients that are '
                'opened and closed or cannot be, packages, engines, '
                'documents; after each that no connection is open, after '
                'every round the open files and sockets, threads, objects '
                'by class and sizes of containers; and objects stored, after '
                'packing; distinct: (thing, storage)')
    ctx.require(audits=500, repeated=600, rounds=50, 
                databases=8, groups=6, modules=5, clients=2, packed=40, records=500,
                vocabularies=19)
    # Python tells of what is lost without being closed
    warnings.simplefilter('always', ResourceWarning)
    warnings.showwarning = warned
    quick = ctx.quick
    ctx.case(lambda rng: block_case(ctx, rng), 'blocks',
             len(STEPS) if quick else len(STEPS) * 12)
    ctx.case(lambda rng: database_case(ctx, rng), 'databases',
             11 if quick else 200)
    ctx.case(lambda rng: group_case(ctx, rng), 'groups',
             12 if quick else 100)
    ctx.case(lambda rng: module_case(ctx, rng), 'modules',
             6 if quick else 80)
    ctx.case(lambda rng: client_case(ctx, rng), 'clients',
             2 if quick else 16)
    ctx.case(lambda rng: pack_case(ctx, rng), 'pack', 8 if quick else 150)
    ctx.case(lambda rng: document_case(ctx, rng), 'vocabularies',
             19 if quick else 19 * 6)
