"""C09: create, read, update, delete and indexing of a database connection."""
import copy

from persistent import Persistent

import gen
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import ObjectOverwriteError
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

MISSING = object()


class Thing:
    """a plain object of an application"""

    def __init__(self, **attributes):
        self.__dict__.update(attributes)

    def __eq__(self, other):
        return type(other) is Thing and other.__dict__ == self.__dict__

    def __repr__(self):
        return f'Thing({self.__dict__})'


class Entity(Persistent):
    """an object of an application that is stored on its own"""

    def __init__(self, number):
        self.number = number
        self.parts = ()

    def __eq__(self, other):
        return type(other) is Entity and \
            (other.number, other.parts) == (self.number, self.parts)

    def __repr__(self):
        return f'Entity({self.number}, {self.parts})'


def a_value(rng, serial):
    if rng.random() < .08:
        serial.n += 1
        return Entity(serial.n)
    if rng.random() < .15:
        serial.n += 1
        return Thing(number=serial.n, parts=[1, {'a': None}])
    return serial(rng)


def check(ctx, conn, model, keys, what):
    for key in keys:
        got = conn.read(key)
        wanted = model.get(key)
        ctx.expect(gen.same(got, wanted),
                   lambda: f'{what}: read({key!r}) is {got!r}, expected '
                           f'{wanted!r}')
        got = conn.read(key, MISSING)
        ctx.expect(gen.same(got, model.get(key, MISSING)),
                   lambda: f'{what}: read({key!r}, default) is {got!r}, '
                           f'expected {model.get(key, "the default")!r}')


def index(ctx, rng, conn, model, pool):
    """conn[...] with one id, several ids, and selectors that are wrong"""
    kind = rng.choice(['one', 'one', 'many', 'many', 'many', 'wrong', 'none',
                       'generator'])
    ctx.count(f'index_{kind}')
    if kind == 'one':
        key = rng.choice(pool)
        ctx.step('index', key)
        if key in model:
            got = conn[key]
            ctx.expect(gen.same(got, model[key]),
                       lambda: f'connection[{key!r}] is {got!r}, expected '
                               f'{model[key]!r}')
        else:
            ctx.raises(KeyError, lambda: conn[key],
                       f'connection[{key!r}] of a missing id')
        return
    if kind == 'wrong':
        selector = rng.choice([None, 5, 1.5, True, slice(0, 3), slice(None)])
        ctx.raises(IndexError, lambda: conn[selector],
                   f'connection[{selector!r}]')
        return
    keys = [rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 6]))]
    if rng.random() < .1:
        keys = [f'missing {n}' for n in range(rng.choice([9, 40, 300]))] + \
            [key for key in keys if key in model][:1]
        ctx.count('index_mostly_missing')
    if kind == 'none':
        keys = [key for key in pool if key not in model][:3]
    container = iter if kind == 'generator' else \
        rng.choice([list, tuple, dict.fromkeys])
    ctx.step('index', keys)
    if not any(key in model for key in keys):
        ctx.raises(KeyError, lambda: conn[container(keys)],
                   f'connection[{keys!r}], none of which exists')
        ctx.count('index_none_of_many')
        return
    if container == dict.fromkeys:
        keys = list(dict.fromkeys(keys))
    got = list(conn[container(keys)])
    wanted = [model.get(key) for key in keys]
    ctx.expect(len(got) == len(wanted) and all(map(gen.same, got, wanted)),
               lambda: f'connection[{keys!r}] is {got!r}, expected '
                       f'{wanted!r}')


def change(ctx, rng, conn, model, pool):
    """an object that was read is changed and stored (also elsewhere)"""
    found = [key for key, value in model.items()
             if type(value) in (list, dict, Thing, Entity)]
    if not found:
        return
    key = rng.choice(found)
    target = key if rng.random() < .7 else rng.choice(pool)
    ctx.step('change', key, target)
    if type(model[key]) is Entity:
        # stored on its own: all ids that hold it show the change. Changes
        # made outside of a block are dropped when the next operation begins
        with conn:
            value = conn.read(key)
            value.parts += ('more',)
            if rng.random() < .5 or target != key:
                conn.update(target, value)
                model[target] = copy.deepcopy(model[key])
        for other in list(model):
            if type(model[other]) is Entity and \
                    model[other].number == value.number:
                model[other] = copy.deepcopy(value)
        ctx.count('change_entity')
    else:
        value = conn.read(key)
        if target != key:
            value = copy.deepcopy(value)
        model[target] = copy.deepcopy(model[key])
        for part in (value, model[target]):
            if type(part) is list:
                part.append('more')
            elif type(part) is dict:
                part['more'] = len(part)
            else:
                part.parts.append('more')
        conn.update(target, value)
    ctx.count('change')
    other = conn.db().open(TransactionManager())
    check(ctx, other, model, {key, target}, 'a changed object elsewhere')
    other.close()
    if rng.random() < .3:
        conn.cacheMinimize()
        check(ctx, conn, model, {key, target}, 'a changed object')


def operate(ctx, rng, conn, model, pool, serial):
    key = rng.choice(pool)
    present = key in model
    op = rng.choice(['create', 'create', 'update', 'update', 'delete', 'read',
                     'index', 'change'])
    ctx.count(f'{op}_{"present" if present else "absent"}')
    value = a_value(rng, serial)
    by_name = rng.random() < .3
    if op == 'create':
        ctx.step(op, key, value)
        if present:
            error = ctx.raises(ObjectOverwriteError,
                               lambda: conn.create(key, value),
                               f'create({key!r}) of an existing id')
            check(ctx, conn, model, [key], 'after refused create')
        else:
            if by_name:
                conn.create(key, obj=value)
            else:
                conn.create(key, value)
            model[key] = copy.deepcopy(value)
    elif op == 'update':
        ctx.step(op, key, value)
        got = conn.update(key, obj=value) if by_name else \
            conn.update(key, value)
        ctx.expect(gen.same(got, model.get(key)),
                   lambda: f'update({key!r}) returned {got!r}, expected '
                           f'the previous {model.get(key)!r}')
        model[key] = copy.deepcopy(value)
    elif op == 'delete':
        ctx.step(op, key)
        got = conn.delete(key)
        wanted = (model.pop(key),) if present else ()
        ctx.expect(isinstance(got, tuple) and len(got) == len(wanted)
                   and all(map(gen.same, got, wanted)),
                   lambda: f'delete({key!r}) returned {got!r}, expected '
                           f'{wanted!r}')
    elif op == 'read':
        ctx.step(op, key)
        check(ctx, conn, model, [key], 'read')
        default = serial(rng)
        got = conn.read(key, default=default)
        ctx.expect(gen.same(got, model.get(key, default)),
                   lambda: f'read({key!r}, default=..) is {got!r}')
    elif op == 'change':
        change(ctx, rng, conn, model, pool)
    else:
        index(ctx, rng, conn, model, pool)
    check(ctx, conn, model, [key], f'after {op}')
    ctx.count('operations')


def open_one(rng, db):
    kind = rng.randrange(3)
    if kind == 0:
        return db.open()
    return db.open([TransactionManager, ThreadTransactionManager][kind - 1]())


def one_case(ctx, rng):
    persistent = rng.random() < .4
    path = ctx.folder() + '/db' if persistent else None
    capacity = rng.choice([None, 1, 30, 5000, 60000])
    if path and capacity:
        db = ContainerDb.new(path, capacity=capacity)
    else:
        db = ContainerDb(path)
    conn = open_one(rng, db)
    # one transaction manager may only be used by one open connection here
    pool = gen.ids(rng, rng.choice([2, 6, 20, 60]))
    serial = gen.Serial()
    model = {}
    for number in range(rng.choice([20, 60])):
        operate(ctx, rng, conn, model, pool, serial)
        if rng.random() < .1:
            conn.cacheMinimize()
        if number % 10 == 9:
            ctx.equal(conn.container.size, len(model), 'size')
            ctx.equal(conn.used, len(model), 'used')
            # every operation was committed: visible elsewhere
            other = db.open(TransactionManager())
            check(ctx, other, model, rng.sample(pool, min(10, len(pool))),
                  'in another connection')
            ctx.equal(other.container.size, len(model),
                      'size in another connection')
            other.close()
            ctx.saw(sorted(model), [repr(value) for value in model.values()])
    check(ctx, conn, model, pool, 'at the end')
    conn.close()
    if persistent:
        db.close()
        db = ContainerDb(path)
        ctx.count('reopened')
    with db as fresh:
        check(ctx, fresh, model, pool, 'at the end, new connection')
        ctx.equal(sorted(fresh.container.primary.keys()), sorted(model),
                  'ids at the end')
    if len(ctx.samples) < 3:
        ctx.sample([repr(op)[:90] for op in ctx.trace[:6]])
    db.close()


def large_case(ctx, rng):
    """indexing with many ids, and ids given more than once"""
    db = ContainerDb(None)
    conn = open_one(rng, db)
    total = rng.choice([150, 600, 2500])
    model = {f'https://example.org/{index}': index for index in range(total)}
    with conn:
        for key, value in model.items():
            conn.create(key, value)
    conn = conn if rng.random() < .5 else db.open(TransactionManager())
    keys = list(model)
    rng.shuffle(keys)
    if rng.random() < .5:
        keys += ['missing', keys[0], keys[-1], 'missing']
    for make in (list, tuple, iter):
        got = list(conn[make(keys)])
        ctx.expect(got == [model.get(key) for key in keys],
                   lambda: f'indexing with {len(keys)} ids: {len(got)} '
                           f'objects, {got[:3]}..{got[-3:]}')
    ctx.equal(conn.used, total, 'used')
    ctx.equal(sorted(conn.container.primary.values()), list(range(total)),
              'stored objects')
    ctx.count('large')
    ctx.saw('large', total)
    conn.close()
    db.close()


def run(ctx):
    ctx.rule = ('random create/read/update/delete/index histories (existing '
                'and missing ids, falsy objects, application objects, every '
                'kind of selector) on connections in memory and on file, each '
                'result and the content seen by other connections and after '
                'reopening compared with a dict; distinct: contents')
    ctx.require(operations=3000, create_present=100, create_absent=200,
                update_present=100, update_absent=100, delete_present=100,
                delete_absent=100, index_many=50, index_wrong=20,
                index_none_of_many=10, index_mostly_missing=10, reopened=10, change=50,
                change_entity=10, large=2)
    quick = ctx.quick
    ctx.case(lambda rng: large_case(ctx, rng), 'large',
             8 if quick else 80, 15 if quick else 200)
    ctx.case(lambda rng: one_case(ctx, rng), 'crud',
             800 if quick else 8000, 15 if quick else 900)
