"""C15: reading from a group of databases at once."""
import time
from datetime import timedelta

import transaction

import gen
from citrine.connection.group_connection import GroupReadConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import CitrineDuplicateIdError
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)


NAMES = ['unnamed', 'a-b', 'a_b', 'x y', 'é', 'a.b', 'A-b', '1', '/p/q',
         'id', 'timeout', 'None']


def value(rng, serial):
    while True:
        found = serial(rng, .35)
        if found is not None:       # cannot be told from a missing object
            return found


def check_read(ctx, rng, group, models, key, what):
    """models: content of the database of each connection, in order"""
    holders = [index for index, model in enumerate(models) if key in model]
    args = {}
    if rng.random() < .5:
        # long enough for any machine
        args['timeout'] = rng.choice([timedelta(hours=1), timedelta(days=2)])
    multiple = rng.choice([None, False, True])
    if multiple is not None:
        args['multiple'] = multiple
    ctx.step('read', key, args, holders)
    what = f'{what}: read({key!r}, {args}) held by {holders}'
    if multiple:
        got = group.read(key, **args)
        if not holders:
            ctx.expect(got is None or got == {},
                       lambda: f'{what}: {got!r} for a missing id')
            ctx.count('missing_multiple')
            return
        ctx.expect(isinstance(got, dict), lambda: f'{what}: {got!r}')
        ctx.expect(len(got) == len(holders)
                   and all(any(conn is group.connections[index]
                               for index in holders) for conn in got),
                   lambda: f'{what}: {got!r}')
        for index in holders:
            ctx.expect(gen.same(got[group.connections[index]],
                                models[index][key]),
                       lambda: f'{what}: {got!r}')
        ctx.count('multiple')
        if len(holders) > 1:
            ctx.count('several_results')
    elif len(holders) > 1:
        error = ctx.raises(CitrineDuplicateIdError,
                           lambda: group.read(key, **args), what)
        ctx.expect(key in str(error), f'{what}: the error names the id')
        ctx.count('duplicates')
    else:
        got = group.read(key, **args)
        wanted = models[holders[0]][key] if holders else None
        ctx.expect(gen.same(got, wanted),
                   lambda: f'{what}: {got!r}, expected {wanted!r}')
        ctx.count('single' if holders else 'missing')
        if holders and not wanted:
            ctx.count('falsy')


def too_slow(ctx, rng, group, pool):
    """one database takes longer than the time limit"""
    slow = rng.choice(group.connections)
    read, waited = slow.read, rng.choice([.02, .04])

    def late(*args, **kwargs):
        time.sleep(waited)
        return read(*args, **kwargs)
    slow.read = late
    try:
        limit = timedelta(milliseconds=rng.choice([1, 5]))
        multiple = rng.random() < .5
        ctx.step('too slow', limit, multiple)
        ctx.raises(TimeoutError, lambda: group.read(
            rng.choice(pool), timeout=limit, multiple=multiple),
            f'a read of {waited} s limited to {limit}')
        ctx.count('too_slow')
    finally:
        del slow.read


def one_case(ctx, rng):
    count = rng.choice([1, 2, 2, 3, 5])
    databases = {}
    linked = rng.random() < .3
    names = rng.sample(NAMES, count) if rng.random() < .5 else [
        f'db{n}' for n in range(count)]
    dbs = [ContainerDb(None, database_name=name,
                       **({'databases': databases} if linked else {}))
           for name in names]
    pool = gen.ids(rng, rng.choice([5, 15]))
    serial = gen.Serial()
    models = []
    share = rng.choice([.1, .3, .6])
    # equal objects are several results as well
    equal = {key: value(rng, serial) for key in pool if rng.random() < .3}
    for db in dbs:
        conn = db.open()
        model = {key: equal[key] if key in equal else value(rng, serial)
                 for key in pool if rng.random() < share}
        with conn:
            for key, held in model.items():
                conn.update(key, held)
            if rng.random() < .3:
                conn.container.resize(rng.choice([200, 6000]),
                                      transfer=rng.random() < .5)
        conn.close()
        models.append(model)
    given = {}
    tm = rng.choice([None, TransactionManager(), ThreadTransactionManager()])
    if tm is not None or rng.random() < .3:
        given['transaction_manager'] = tm
    shape = rng.choice([list, tuple])
    # some connections get arguments of their own
    views = [dict(model) for model in models]
    frozen = set()
    own_tm = {}
    for index, db in enumerate(dbs):
        kind = rng.random()
        if kind < .2:
            own_tm[index] = TransactionManager()
            given[names[index]] = {'transaction_manager': own_tm[index]}
        elif kind < .4:
            given[names[index]] = {'at': db.lastTransaction()}
            frozen.add(index)
        elif kind < .5:
            given[names[index]] = {}
    if rng.random() < .2:
        given['no such database'] = {'at': b'x'}
    for index, db in enumerate(dbs):
        if rng.random() < .5:
            key = rng.choice(pool)
            new = value(rng, serial)
            conn = db.open()
            conn.update(key, new)
            conn.close()
            models[index][key] = new
            if index not in frozen:
                views[index][key] = new
    ctx.step('group', count, sorted(given), [sorted(m) for m in views])
    group = GroupReadConnection(shape(dbs), **given)
    ctx.equal(len(group.connections), count, 'connections')
    for index, conn in enumerate(group.connections):
        ctx.expect(conn.db() is dbs[index], 'order of the connections')
        if index in own_tm:
            ctx.expect(conn.transaction_manager is own_tm[index],
                       'transaction manager given for one database')
            ctx.count('own_manager')
        elif tm is not None:
            ctx.expect(conn.transaction_manager is tm,
                       'shared transaction manager')
            ctx.count('shared_manager')
    for _ in range(rng.choice([5, 20])):
        key = rng.choice(pool) if rng.random() < .9 else 'missing id'
        check_read(ctx, rng, group, views, key, 'first')
        if rng.random() < .3:
            # changes made since are seen in the next transaction
            index = rng.randrange(count)
            key = rng.choice(pool)
            conn = dbs[index].open()
            if rng.random() < .5:
                new = value(rng, serial)
                conn.update(key, new)
                models[index][key] = new
            else:
                conn.delete(key)
                models[index].pop(key, None)
            conn.close()
            if index not in frozen:
                views[index] = dict(models[index])
            for conn in group.connections:
                conn.transaction_manager.begin()
            check_read(ctx, rng, group, views, key, 'changed')
            ctx.count('changed')
        ctx.saw(key, count, [key in view for view in views])
    if frozen:
        ctx.count('historical')
    if rng.random() < .15:
        too_slow(ctx, rng, group, pool)
    transaction.abort()
    for conn in group.connections:
        conn.transaction_manager.abort()
        conn.close()
    for db in dbs:
        db.close()
    if len(ctx.samples) < 3:
        ctx.sample([repr(op)[:200] for op in ctx.trace[:4]])


def run(ctx):
    ctx.rule = ('groups of 1-5 databases with overlapping ids and own '
                'connection arguments, read with every combination of '
                'timeout and multiple and compared with one dict per '
                'database; distinct: (id, which databases hold it)')
    ctx.require(single=200, missing=100, duplicates=100, multiple=100,
                several_results=40, falsy=30, own_manager=10,
                shared_manager=20, historical=10, changed=50, too_slow=10)
    ctx.case(lambda rng: one_case(ctx, rng), 'group',
             200 if ctx.quick else 5000, 15 if ctx.quick else 600)
