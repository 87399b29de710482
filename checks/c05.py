"""C05: reading, writing and deleting in containers of several groups."""
import ZODB

import boxes
import gen
from citrine.database.containerdb import ContainerDb
from citrine.storage.group import Group
from citrine.storage.container import Container
from citrine.storage.transaction import TransactionManager

MISSING = boxes.MISSING


def operate(ctx, rng, container, model, pool, serial):
    key = rng.choice(pool)
    held = model.has(key)
    where = 'absent' if not held else 'many' if held > 1 else \
        'primary' if key in model.groups[0] else 'secondary'
    op = rng.choice(['read', 'read', 'has', 'write', 'write', 'delete'])
    ctx.count(f'{op}_{where}')
    if op == 'read':
        ctx.step(op, key)
        got = container.read(key)
        ctx.expect(gen.same(got, model.read(key)),
                   lambda: f'read({key!r}) held by {where}: {got!r}, expected '
                           f'{model.read(key)!r}')
        got = container.read(key, MISSING)
        ctx.expect(gen.same(got, model.read(key, MISSING)),
                   lambda: f'read({key!r}, default) held by {where}: '
                           f'{boxes.show(got)}')
    elif op == 'has':
        ctx.step(op, key)
        ctx.equal(container.has(key), held, f'has({key!r}): number of groups')
    elif op == 'write':
        value = serial(rng)
        ctx.step(op, key, value)
        container.write(key, value)
        model.write(key, value)
        got = container.read(key, MISSING)
        ctx.expect(gen.same(got, value),
                   lambda: f'read after write({key!r}) held by {where}: '
                           f'{boxes.show(got)}, expected {value!r}')
        ctx.expect(container.primary.has_key(key),
                   'a write did not go to the primary group')
    else:
        ctx.step(op, key)
        got = container.delete(key)
        wanted = model.delete(key)
        ctx.expect(isinstance(got, tuple) and len(got) == len(wanted)
                   and all(map(gen.same, got, wanted)),
                   lambda: f'delete({key!r}) held by {where}: {got!r}, '
                           f'expected {wanted!r}')
        ctx.equal(bool(container.has(key)), False, f'has deleted {key!r}')
        ctx.expect(container.read(key, MISSING) is MISSING,
                   f'read deleted {key!r}')
    ctx.count('operations')


def one_case(ctx, rng):
    count = rng.choice([1, 2, 2, 3, 4])
    strict = rng.random() < .2
    container, groups = boxes.some_container(rng, count, strict)
    ctx.expect(container.primary is groups[0], 'primary group')
    ctx.equal(len(container.groups), len(groups), 'groups of the container')
    for group in groups:
        ctx.expect(any(group is other for other in container.groups),
                   'a group is not part of the container')
    # the model follows the order in which the container lists its groups
    groups = list(container.groups)
    pool = gen.ids(rng, rng.choice([2, 6, 20, 60]))
    serial = gen.Serial()
    model = boxes.Model(len(groups))
    boxes.fill(rng, groups, model, pool, serial,
               rng.choice([0, .15, .4, .8]))
    ctx.step('container', count, [len(g.collections) for g in groups],
             model.groups)
    persisted = rng.random() < .4
    if persisted:
        db = ZODB.DB(None)
        tm = TransactionManager()
        conn = db.open(tm)
        conn.root()['c'] = container
        tm.commit()
        saved = model.copy()
    for _ in range(rng.choice([15, 60])):
        operate(ctx, rng, container, model, pool, serial)
        if persisted and rng.random() < .2:
            if rng.random() < .6:
                tm.commit()
                saved = model.copy()
            else:
                tm.abort()
                model = saved.copy()
            ctx.count('transactions')
            if rng.random() < .3:
                conn.cacheMinimize()
    boxes.check_groups(ctx, container, model, 'at the end')
    boxes.check_visible(ctx, container, model.visible(), pool, 'at the end')
    ctx.saw(count, [sorted(group) for group in model.groups])
    if len(ctx.samples) < 3:
        ctx.sample({'groups': [len(g.collections) for g in groups],
                    'trace': [repr(op)[:90] for op in ctx.trace[:6]]})
    if persisted:
        tm.abort()
        other = db.open(TransactionManager())
        boxes.check_groups(ctx, other.root()['c'], saved, 'other connection')
        boxes.check_visible(ctx, other.root()['c'], saved.visible(), pool,
                            'other connection')
        other.close()
        conn.close()
        db.close()


def many_groups_case(ctx, rng):
    """containers of many groups, many of which hold the same ids"""
    count = rng.choice([8, 12, 20, 40])
    container, _ = boxes.some_container(rng, count)
    ctx.equal(len(container.groups), count, 'groups of the container')
    pool = gen.ids(rng, rng.choice([3, 8]))
    serial = gen.Serial()
    model = boxes.Model(count)
    boxes.fill(rng, container.groups, model, pool, serial,
               rng.choice([.03, .2, .9]))
    # something that only the last group holds
    last = pool[0] + '-last'
    container.groups[-1].insert(last, 5)
    model.groups[-1][last] = 5
    pool.append(last)
    boxes.check_visible(ctx, container, model.visible(), pool, 'many groups')
    for _ in range(25):
        operate(ctx, rng, container, model, pool, serial)
    if rng.random() < .5:
        got = container.delete(last)
        wanted = model.delete(last)
        ctx.expect(len(got) == len(wanted)
                   and all(map(gen.same, got, wanted)),
                   lambda: f'delete in {count} groups: {got!r}')
    boxes.check_groups(ctx, container, model, 'many groups')
    boxes.check_visible(ctx, container, model.visible(), pool, 'many groups')
    ctx.count('many_groups')
    ctx.saw('many', [sorted(group) for group in model.groups])


def connection_case(ctx, rng):
    """the same through the connection of a database with several groups"""
    db = ContainerDb(None)
    conn = db.open(TransactionManager())
    container, groups = boxes.some_container(rng, rng.choice([2, 3]))
    pool = gen.ids(rng, rng.choice([4, 15]))
    serial = gen.Serial()
    model = boxes.Model(len(groups))
    boxes.fill(rng, list(container.groups), model, pool, serial)
    conn.root.container = container
    conn.transaction_manager.commit()
    for _ in range(30):
        key = rng.choice(pool)
        value = serial(rng)
        op = rng.choice(['read', 'update', 'create', 'delete', 'item'])
        ctx.step(op, key, value)
        ctx.count('connection_operations')
        if op == 'read':
            got = conn.read(key, MISSING)
            ctx.expect(gen.same(got, model.read(key, MISSING)),
                       lambda: f'connection read({key!r}): {boxes.show(got)}')
        elif op == 'update':
            got = conn.update(key, value)
            ctx.expect(gen.same(got, model.read(key)),
                       lambda: f'update({key!r}) returned {got!r}, expected '
                               f'{model.read(key)!r}')
            model.write(key, value)
        elif op == 'create':
            if model.has(key):
                error = None
                try:
                    conn.create(key, value)
                except Exception as caught:
                    error = caught
                ctx.expect(type(error).__name__ == 'ObjectOverwriteError',
                           f'create of existing {key!r}: {error!r}')
            else:
                conn.create(key, value)
                model.write(key, value)
        elif op == 'delete':
            got = conn.delete(key)
            wanted = model.delete(key)
            ctx.expect(len(got) == len(wanted)
                       and all(map(gen.same, got, wanted)),
                       lambda: f'connection delete({key!r}): {got!r}, '
                               f'expected {wanted!r}')
        elif model.has(key):
            got = conn[key]
            ctx.expect(gen.same(got, model.read(key)),
                       lambda: f'connection[{key!r}]: {got!r}')
        boxes.check_visible(ctx, conn.container, model.visible(), [key], op)
    other = db.open(TransactionManager())
    boxes.check_groups(ctx, other.container, model, 'other connection')
    ctx.saw('conn', [sorted(group) for group in model.groups])
    other.close()
    conn.close()
    db.close()


def run(ctx):
    ctx.rule = ('random reads, writes and deletes on containers of 1 to 40 '
                'groups (all ways to pass the groups; objects held by the '
                'primary, by a secondary, by several), in memory, persisted '
                'and through connections, compared with a list of dicts; '
                'distinct: ids per group')
    ctx.require(operations=3000, read_secondary=100, read_many=100,
                delete_secondary=50, delete_many=50, write_secondary=50,
                delete_absent=50, many_groups=20, transactions=100,
                connection_operations=300)
    quick = ctx.quick
    ctx.case(lambda rng: one_case(ctx, rng), 'groups',
             1200 if quick else 20000, 10 if quick else 500)
    ctx.case(lambda rng: many_groups_case(ctx, rng), 'many_groups',
             40 if quick else 800, 8 if quick else 100)
    ctx.case(lambda rng: connection_case(ctx, rng), 'connection',
             80 if quick else 3000, 8 if quick else 300)
