"""C19: stored databases stay readable by other processes and versions."""
import json
import os
import shutil
import subprocess
import sys

import ZODB
import transaction
from ZODB.FileStorage import FileStorage

import gen
import vf
from citrine.connection.connection import CitrineConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import ObjectOverwriteError
from citrine.persistence import CitrineTransactionManager
from citrine.storage.collection import CollectionCapacityError
from citrine.storage.container import Container
from citrine.storage.group import GroupCapacityError
from citrine.storage.transaction import TransactionManager

FULL = (CollectionCapacityError, GroupCapacityError)
FIXTURES = os.path.join(vf.VERIF, 'fixtures')


def values_of(groups):
    found = {}
    for group in reversed(groups):
        found.update(group)
    return found


def look(conn, probes):
    """everything that can be seen of a database, as plain data"""
    container = conn.container
    return {
        'strict': bool(conn.strict), 'capacity': conn.capacity,
        'size': container.size, 'used': container.used,
        'status': container.status,
        'groups': [sorted(map(list, group.items()), key=lambda pair: pair[0])
                   for group in container.groups],
        'reads': [[key, conn.read(key), bool(container.has(key)),
                   [bool(group.has_key(key)) for group in container.groups]]
                  for key in probes],
    }


def child(path, probes_path, out):
    """the other process"""
    with open(probes_path) as reader:
        probes = json.load(reader)
    db = ContainerDb(path)
    conn = db.open()
    try:
        seen = look(conn, probes)
        if out.endswith('.w'):
            for key, value in json.loads(os.environ['VF_WRITE']):
                conn.update(key, value)
    finally:
        conn.close()
        db.close()
    with open(out, 'w') as writer:
        json.dump(seen, writer)


def other_process(ctx, path, probes, hash_seed, write=None):
    folder = ctx.folder()
    probes_path = os.path.join(folder, 'probes.json')
    with open(probes_path, 'w') as writer:
        json.dump(probes, writer)
    out = os.path.join(folder, 'out' + ('.w' if write is not None else ''))
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
    if write is not None:
        env['VF_WRITE'] = json.dumps(write)
    code = (f'import sys; sys.path[:0] = {sys.path!r}; import c19; '
            f'c19.child({path!r}, {probes_path!r}, {out!r})')
    done = subprocess.run([sys.executable, '-W', 'ignore', '-c', code],
                          env=env, stdin=subprocess.DEVNULL,
                          capture_output=True, text=True, timeout=200)
    ctx.expect(done.returncode == 0, lambda: 'another process cannot open '
               f'the database: {done.stderr[-1500:]}')
    ctx.count('processes')
    with open(out) as reader:
        return json.load(reader)


def audit(ctx, conn, model, probes, what):
    for key in probes:
        ctx.expect(gen.same(conn.read(key), model.get(key)),
                   lambda: f'{what}: {key!r} reads {conn.read(key)!r}, '
                           f'expected {model.get(key)!r}')
        ctx.equal(bool(conn.container.has(key)), key in model,
                  f'{what}: has({key!r})')
    for group in conn.container.groups:
        for key, value in group.items():
            ctx.expect(group.has_key(key) and gen.same(group.get(key), value),
                       f'{what}: {key!r} is listed but not reachable')


def stored_case(ctx, rng):
    """files written by the pinned version of the code"""
    with open(os.path.join(FIXTURES, 'stored.json')) as reader:
        stored = json.load(reader)
    name = sorted(stored)[rng.case_index % len(stored)]
    spec = stored[name]
    path = os.path.join(ctx.folder(), 'file')
    shutil.copy(os.path.join(FIXTURES, f'{name}.fs'), path)
    probes = sorted({key for group in spec['groups'] for key in group})
    probes += [key for key in gen.ids(rng, 10) if key not in probes]
    model = values_of(spec['groups'])
    serial = gen.Serial()
    ctx.step('open', name)
    db = ContainerDb(path)
    tm = TransactionManager()
    conn = db.open(tm)
    ctx.equal(conn.capacity, spec['capacity'], 'capacity of an old file')
    ctx.equal(bool(conn.strict), spec['strict'], 'strict of an old file')
    ctx.equal([sorted(group.keys()) for group in conn.container.groups],
              [sorted(group) for group in spec['groups']],
              'ids in the groups of an old file')
    ctx.equal(conn.container.size, sum(map(len, spec['groups'])), 'size')
    ctx.equal(conn.container.used, len(spec['groups'][0]), 'used')
    audit(ctx, conn, model, probes, f'old file {name}')
    ctx.count('old_files')
    for number in range(rng.choice([6, 15])):
        key, value = rng.choice(probes), serial(rng)
        op = rng.choice(['update'] * 4 + ['create'] * 2 + ['delete'] * 2
                        + ['resize', 'steps', 'reopen'])
        ctx.step(op, key, value)
        if op == 'update':
            try:
                conn.update(key, value)
            except FULL:
                ctx.expect(spec['strict'] and key not in model,
                           'update refused')
                ctx.count('refused')
            else:
                model[key] = value
        elif op == 'create':
            if key in model:
                ctx.raises(ObjectOverwriteError,
                           lambda: conn.create(key, value), 'create again')
            else:
                try:
                    conn.create(key, value)
                    model[key] = value
                except FULL:
                    ctx.expect(spec['strict'], 'create refused')
        elif op == 'delete':
            got = conn.delete(key)
            if key in model:
                ctx.expect(got and gen.same(got[0], model.pop(key)),
                           'deleted object')
            else:
                ctx.equal(tuple(got), (), 'delete of nothing')
        elif op == 'resize':
            capacity = rng.choice([300, 1000, 20000])
            with conn:
                conn.container.resize(capacity, condense=True)
            ctx.expect(conn.capacity >= capacity, 'capacity')
            ctx.equal(len(conn.container.groups), 1, 'groups')
            ctx.equal(bool(conn.strict), spec['strict'], 'strict')
            ctx.equal(conn.container.size, len(model), 'size after resize')
            ctx.count('resized')
        elif op == 'steps':
            # objects are moved one by one
            conn.container.resize(rng.choice([400, 2000]),
                                  condense=rng.random() < .5,
                                  transfer=rng.random() < .7,
                                  transaction_manager=tm)
            ctx.count('resized')
        elif op == 'reopen':
            conn.close()
            db.close()
            db = ContainerDb(path)
            tm = TransactionManager()
            conn = db.open(tm)
            ctx.count('reopened')
        tm.begin()
        audit(ctx, conn, model, probes, op)
        ctx.saw('old', name, op, sorted(model))
    conn.close()
    db.close()
    db = ContainerDb(path)
    conn = db.open()
    audit(ctx, conn, model, probes, 'in the end')
    conn.close()
    db.close()


class LegacyDb(ZODB.DB):
    klass = CitrineConnection


def legacy_case(ctx, rng):
    """legacy databases written by the pinned version"""
    with open(os.path.join(FIXTURES, 'legacy.json')) as reader:
        spec = json.load(reader)
    path = os.path.join(ctx.folder(), 'file')
    shutil.copy(os.path.join(FIXTURES, 'legacy.fs'), path)
    model = dict(spec['objects'])
    probes = sorted(model) + spec['missing']
    serial = gen.Serial()
    db = LegacyDb(FileStorage(path))
    conn = db.open(CitrineTransactionManager())

    def look(what):
        for key in probes:
            got = conn.read(key)
            ctx.expect(gen.same(got, model.get(key)),
                       lambda: f'legacy {what}: {key!r} reads {got!r}, '
                               f'expected {model.get(key)!r}')
            ctx.equal(bool(conn.container.has(key)), key in model,
                      f'legacy {what}: has({key!r})')
        ctx.equal(conn.size, len(model), f'legacy {what}: size')
    look('file')
    ctx.equal(conn.num_containers(), spec['containers'], 'containers')
    ctx.equal((conn.meta.size, conn.meta.cache), (5, 9), 'metadata')
    conn.setup()
    look('file after setup')
    ctx.equal(conn.num_containers(), spec['containers'], 'containers')
    for _ in range(rng.choice([5, 15])):
        key = rng.choice(probes)
        op = rng.choice(['write', 'write', 'delete', 'expand', 'reopen'])
        ctx.step(op, key)
        if op == 'write':
            model[key] = serial(rng)
            conn.update(key, model[key])
        elif op == 'delete' and key in model:
            conn.delete(key)
            del model[key]
        elif op == 'expand':
            conn.expand_containers(rng.choice([1, 4]))
        elif op == 'reopen':
            conn.close()
            db.close()
            db = LegacyDb(FileStorage(path))
            conn = db.open(CitrineTransactionManager())
    look('file in the end')
    conn.close()
    db.close()
    ctx.count('legacy_files')
    ctx.saw('legacy', sorted(model))


def process_case(ctx, rng):
    """files written here and read by a process with other hashes"""
    path = os.path.join(ctx.folder(), 'file')
    pool = [key for key in gen.ids(rng, 40)]
    model = {}
    strict = rng.random() < .5
    capacity = rng.choice([100, 1000, 60000])
    db = ContainerDb.new(path, capacity=capacity, strict=strict)
    conn = db.open()
    for key in rng.sample(pool, 25):
        # plain data that survives the way back through JSON
        model[key] = rng.choice([None, 0, False, '', [], 'é', 7, [1, None],
                                 {'@id': key, 'n': [{'a': 1}]}])
        conn.update(key, model[key])
    if rng.random() < .5:
        with conn:
            conn.container.resize(rng.choice([capacity + 500, 3000]),
                                  condense=False)
        ctx.count('several_groups')
        for key in rng.sample(pool, 5):
            model[key] = f'new {key}'
            conn.update(key, model[key])
    here = json.loads(json.dumps(look(conn, pool)))
    conn.close()
    db.close()
    write = [[key, ['written by the other', key]]
             for key in rng.sample(pool, 6)]
    ctx.step('other process', capacity, strict, sorted(model))
    for hash_seed in rng.sample(range(1, 10 ** 6), 2):
        there = other_process(ctx, path, pool, hash_seed)
        for part in here:
            ctx.equal(there[part], here[part],
                      f'{part} seen by another process')
        ctx.equal({key: value for key, value, has, _ in there['reads']
                   if has}, model, 'objects seen by another process')
    other_process(ctx, path, pool, rng.randrange(1, 10 ** 6), write)
    model.update(write)
    db = ContainerDb(path)
    conn = db.open()
    audit(ctx, conn, model, pool, 'written by another process')
    ctx.equal(conn.container.size - sum(
        1 for key in model for group in conn.container.groups[1:]
        if group.has_key(key) and any(
            first.has_key(key) for first in conn.container.groups
            if first is not group)), len(model), 'objects', None)
    conn.close()
    db.close()
    ctx.saw('process', len(here['groups']), strict, sorted(model))


def plain_case(ctx, rng):
    """
    The classes themselves survive copies through another database: what was
    stored as part of any ZODB is found again, at the same places.
    """
    path = os.path.join(ctx.folder(), 'file')
    container = Container.new(rng.choice([100, 5000]),
                              strict=rng.random() < .5)
    model = {}
    serial = gen.Serial()
    db = ZODB.DB(FileStorage(path))
    conn = db.open(transaction.TransactionManager())
    for key in gen.ids(rng, rng.choice([0, 5, 60])):
        model[key] = serial(rng)
        container.write(key, model[key])
    before = [sorted(collection.keys()) for collection in
              container.primary.collections]
    conn.root()['mine'] = container
    conn.transaction_manager.commit()
    meta = (container.size, container.capacity, container.strict,
            container.status, container.used)
    conn.close()
    db.close()
    db = ZODB.DB(FileStorage(path))
    conn = db.open(transaction.TransactionManager())
    found = conn.root()['mine']
    ctx.equal([sorted(collection.keys()) for collection in
               found.primary.collections], before, 'ids in the collections')
    ctx.equal((found.size, found.capacity, found.strict, found.status,
               found.used), meta, 'reported figures')
    for key, value in model.items():
        ctx.expect(gen.same(found.read(key), value), 'stored value')
    conn.close()
    db.close()
    ctx.saw('plain', before)
    ctx.count('plain')


def run(ctx):
    ctx.rule = ('files written by the pinned version, worked on by the '
                'current code; files written here and read and changed by '
                'processes with other hash seeds; distinct: (file, '
                'operation, ids)')
    ctx.assumptions = ['the committed files written by the pinned version '
                       'stand for all that it wrote']
    ctx.require(old_files=6, resized=6, reopened=4, processes=6, plain=5,
                legacy_files=4)
    quick = ctx.quick
    ctx.case(lambda rng: stored_case(ctx, rng), 'stored',
             24 if quick else 1000, 20 if quick else 600)
    ctx.case(lambda rng: process_case(ctx, rng), 'process',
             4 if quick else 60, 40 if quick else 900, stuck=400)
    ctx.case(lambda rng: plain_case(ctx, rng), 'plain',
             20 if quick else 500, 10 if quick else 200)
    ctx.case(lambda rng: legacy_case(ctx, rng), 'legacy',
             12 if quick else 300, 10 if quick else 200)
