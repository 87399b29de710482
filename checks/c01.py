"""C01: groups and collections are faithful maps."""
import copy
from collections import ChainMap
from types import MappingProxyType

import ZODB
import transaction
from BTrees.OOBTree import OOBTree
from persistent.mapping import PersistentMapping

import gen
from citrine.storage.collection import Collection
from citrine.storage.group import Group

SIZES = [1, 2, 3, 4, 5, 7, 11, 23]
MISSING = object()


def content(store):
    items = list(store.items())
    return items


HELD = {}


def held_views(ctx, store, model, what):
    """views of a group that were taken before the last changes"""
    if len(HELD) > 50:
        HELD.clear()
    if HELD.get(id(store), (None,))[0] is not store:
        HELD[id(store)] = (store, store.keys(), store.values(), store.items())
    _, keys, values, items = HELD[id(store)]
    for name, view in ('keys', keys), ('values', values), ('items', items):
        ctx.equal(len(view), len(model), f'{what}: length of earlier {name}()')
    ctx.equal(sorted(keys), sorted(model), f'{what}: earlier keys()')
    ctx.equal(sorted(key for key, _ in items), sorted(model),
              f'{what}: earlier items()')
    ctx.count('held_views')


def audit(ctx, store, model, probes, what):
    """the whole observable content against the model"""
    if isinstance(store, Group):
        held_views(ctx, store, model, what)
    items = list(store.items())
    keys = list(store.keys())
    values = list(store.values())
    ctx.equal(len(items), len(model), f'{what}: number of items')
    ctx.equal(len(store.keys()), len(model), f'{what}: len(keys())')
    ctx.equal(len(store.values()), len(model), f'{what}: len(values())')
    ctx.equal(len(store.items()), len(model), f'{what}: len(items())')
    ctx.equal(sorted(keys), sorted(model), f'{what}: keys()')
    ctx.equal(sorted(key for key, _ in items), sorted(model),
              f'{what}: keys of items()')
    for key, value in items:
        ctx.expect(gen.same(value, model[key]),
                   lambda: f'{what}: items() gives {value!r} for {key!r}, '
                           f'expected {model[key]!r}')
    ctx.equal(sorted(map(repr, values)), sorted(map(repr, model.values())),
              f'{what}: values()')
    ctx.equal(store.size, len(model), f'{what}: size')
    for key in probes:
        ctx.equal(bool(store.has_key(key)), key in model,
                  f'{what}: has_key({key!r})')
        got = store.get(key, MISSING)
        ctx.expect(gen.same(got, model.get(key, MISSING)),
                   lambda: f'{what}: get({key!r}) is {got!r}, expected '
                           f'{model.get(key, "default")!r}')


def operate(ctx, rng, store, model, pool, serial):
    """one random operation on the store and on the model"""
    key = rng.choice(pool)
    present = key in model
    op = rng.choice(['insert'] * 5 + ['get'] * 2 + ['has'] * 2 + ['update'] * 2
                    + ['pop'] * 3 + ['popdefault'] + ['setdefault'] * 2
                    + ['popitem'] + ['clear'] * (rng.random() < 0.08))
    ctx.count(f'op_{op}_{"present" if present else "absent"}')
    if op == 'insert':
        value = serial(rng)
        ctx.step(op, key, value)
        result = store.insert(key=key, value=value) if rng.random() < .2 \
            else store.insert(key, value)
        ctx.equal(bool(result), not present, f'insert({key!r}) reports')
        if not present:
            model[key] = value
    elif op == 'get':
        ctx.step(op, key)
        got = store.get(key)
        ctx.expect(gen.same(got, model.get(key)),
                   lambda: f'get({key!r}) is {got!r}, expected '
                           f'{model.get(key)!r}')
        default = rng.choice([MISSING, MISSING, 0, '', 5])
        got = store.get(key=key, default=default) if rng.random() < .2 else \
            store.get(key, default)
        ctx.expect(gen.same(got, model.get(key, default)),
                   lambda: f'get({key!r}, {default!r}) is {got!r}')
    elif op == 'has':
        ctx.step(op, key)
        ctx.equal(bool(store.has_key(key)), present, f'has_key({key!r})')
    elif op == 'update':
        new = {rng.choice(pool): serial(rng)
               for _ in range(rng.choice([0, 1, 1, 2, 5, 20]))}
        source = new
        if rng.random() < .25:
            # any mapping, also another collection or group
            make = rng.choice([OOBTree, PersistentMapping, MappingProxyType,
                               ChainMap, Collection, Group])
            if make in (Collection, Group):
                source = Collection() if make is Collection else Group.new(3)
                for each, value in new.items():
                    source.insert(each, value)
            else:
                source = make(new)
            ctx.count('updates_' + make.__name__)
        ctx.step(op, type(source).__name__, new)
        store.update(source)
        if source is not new:
            ctx.equal(len(source.keys()), len(new), 'items updated from')
        model.update(new)
    elif op == 'pop':
        ctx.step(op, key)
        if present:
            got = store.pop(key)
            wanted = model.pop(key)
            ctx.expect(gen.same(got, wanted),
                       lambda: f'pop({key!r}) is {got!r}, expected '
                               f'{wanted!r}')
        else:
            ctx.raises(KeyError, lambda: store.pop(key),
                       f'pop({key!r}) of a missing key')
    elif op == 'popdefault':
        ctx.step(op, key)
        # (a default of None is taken for no default at all)
        default = rng.choice([MISSING, MISSING, 0, '', False, 5, [], 'x'])
        got = store.pop(key=key, default=default) if rng.random() < .2 else \
            store.pop(key, default)
        wanted = model.pop(key, default)
        ctx.expect(gen.same(got, wanted),
                   lambda: f'pop({key!r}, default) is {got!r}, expected '
                           f'{wanted!r}')
    elif op == 'setdefault':
        value = serial(rng)
        ctx.step(op, key, value)
        got = store.setdefault(key, value)
        wanted = model.setdefault(key, value)
        ctx.expect(gen.same(got, wanted),
                   lambda: f'setdefault({key!r}) is {got!r}, expected '
                           f'{wanted!r}')
    elif op == 'popitem':
        ctx.step(op)
        if model:
            found, got = store.popitem()
            ctx.expect(found in model,
                       lambda: f'popitem gave unknown key {found!r}')
            wanted = model.pop(found)
            ctx.expect(gen.same(got, wanted),
                       lambda: f'popitem of {found!r} is {got!r}, expected '
                               f'{wanted!r}')
        else:
            ctx.raises(KeyError, store.popitem, 'popitem on empty')
    elif op == 'clear':
        ctx.step(op)
        store.clear()
        model.clear()


def in_place(ctx, rng, store, model):
    """a stored list or dict is changed and stored again"""
    found = [key for key, value in model.items() if type(value) in (list, dict)]
    if not found:
        return
    key = rng.choice(found)
    value = store.get(key)
    ctx.step('changed in place', key)
    model[key] = copy.deepcopy(model[key])
    for target in (value, model[key]):
        if isinstance(target, list):
            target.append('more')
        else:
            target['more'] = 'more'
    store.update({key: value})
    ctx.count('changed_in_place')


def build(rng):
    kind = rng.choice(['collection', 'group', 'group', 'group', 'custom'])
    strict = rng.random() < 0.3     # far from any limit, must not matter here
    if kind == 'collection':
        return kind, Collection(max_size=5000, strict=strict)
    if kind == 'group':
        return kind, Group.new(rng.choice(SIZES), strict=strict)
    custom = {rng.randrange(6): rng.choice([3000, 5000, 9000])
              for _ in range(rng.randint(1, 4))}
    return kind, Group.new(custom=custom, strict=strict)


def memory_case(ctx, rng):
    kind, store = build(rng)
    pool = gen.ids(rng, rng.choice([1, 3, 8, 30, 120, 600]))
    large = rng.random() < .01
    if large:
        # more collections than anything counts on
        kind, store = 'large', Group.new(rng.choice([101, 199, 401]))
        pool += [f'{rng.randrange(10**6)}' for _ in range(900)]
        ctx.count('large_groups')
    serial = gen.Serial()
    model = {}
    for number in range(rng.choice([20, 60, 150])):
        if large and rng.random() < .1:
            new = {key: serial(rng) for key in
                   rng.sample(pool, rng.choice([500, 880]))}
            store.update(new)
            model.update(new)
            ctx.step('bulk', len(new))
        operate(ctx, rng, store, model, pool, serial)
        ctx.count('operations')
        if number % 25 == 24:
            audit(ctx, store, model, rng.sample(pool, min(8, len(pool))),
                  f'{kind} after operation {number}')
            ctx.saw(kind, sorted(model), [repr(v) for v in model.values()])
    audit(ctx, store, model, pool, f'{kind} at the end')
    ctx.peak('most_items', len(model))
    if len(ctx.samples) < 3:
        ctx.sample({'store': kind, 'ids': pool[:5],
                    'operations': [repr(op)[:80] for op in ctx.trace[:6]]})


def persisted_case(ctx, rng):
    """the same through commits, aborts and caches of several connections"""
    db = ZODB.DB(None)
    tm = transaction.TransactionManager()
    conn = db.open(tm)
    kind, store = build(rng)
    conn.root()['store'] = store
    tm.commit()
    pool = gen.ids(rng, rng.choice([3, 30, 150]))
    serial = gen.Serial()
    model = {}
    committed = {}
    if rng.random() < .15:
        # many parts of the trees
        pool += [f'{rng.randrange(10**6)}' for _ in range(1500)]
        new = {key: serial(rng) for key in pool
               if rng.random() < .8}
        store.update(new)
        model.update(new)
        ctx.step('fill', len(new))
        ctx.count('large_persisted')
    for number in range(rng.choice([30, 80])):
        if rng.random() < .1:
            in_place(ctx, rng, store, model)
        else:
            operate(ctx, rng, store, model, pool, serial)
        ctx.count('operations')
        chance = rng.random()
        if chance < 0.2:
            tm.commit()
            committed = copy.deepcopy(model)
            ctx.step('commit')
            ctx.count('commits')
        elif chance < 0.27:
            tm.abort()
            model = copy.deepcopy(committed)
            ctx.step('abort')
            ctx.count('aborts')
        if chance < 0.1:
            conn.cacheMinimize()
            ctx.step('minimize')
        if number % 20 == 19:
            audit(ctx, store, model, rng.sample(pool, min(8, len(pool))),
                  f'persisted {kind}')
            other_tm = transaction.TransactionManager()
            other = db.open(other_tm)
            audit(ctx, other.root()['store'], committed,
                  rng.sample(pool, min(8, len(pool))),
                  f'{kind} in another connection')
            other_tm.abort()
            other.close()
            ctx.saw('db', kind, sorted(model))
    tm.abort()
    audit(ctx, store, committed, pool, f'persisted {kind} after abort')
    conn.close()
    db.close()


def run(ctx):
    ctx.rule = ('random operation histories on collections and groups of 1 to '
                '23 collections (default and custom), in memory and through '
                'commits, aborts and other connections, every result and '
                'periodically the whole content compared with a dict; '
                'distinct: contents (ids and values) audited')
    ctx.require(operations=2000, oracle_checks=20000, commits=50,
                op_pop_present=50, op_popitem_present=10,
                op_setdefault_absent=20, large_persisted=5,
                changed_in_place=20, large_groups=3,
                updates_Collection=5, updates_Group=5,
                updates_mappingproxy=5)
    quick = ctx.quick
    ctx.case(lambda rng: memory_case(ctx, rng), 'memory',
             2000 if quick else 20000, 8 if quick else 600)
    ctx.case(lambda rng: persisted_case(ctx, rng), 'persisted',
             600 if quick else 6000, 6 if quick else 600)
