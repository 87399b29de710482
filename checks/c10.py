"""C10: transaction blocks are atomic, autocommit resumes after them."""
from asyncio import CancelledError

from transaction.interfaces import (AlreadyInTransaction, NoTransaction,
                                    TransactionError)
from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError

import gen
from citrine.connection.container_connection import ContainerConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import ObjectOverwriteError
from citrine.persistence import CitrineTransactionManager
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

MISSING = object()


class DiskFull(Exception):
    pass


class Oops(Exception):
    pass


def failing(base):
    class Failing(base):
        """fails the next commit at the given phase"""
        phase = None

        def _maybe(self, phase):
            if self.phase == phase:
                self.phase = None
                raise DiskFull(phase)

        def sync(self, force=True):
            # what storages of a server may do when a transaction begins
            self._maybe('begin')

        def tpc_begin(self, *args, **kwargs):
            self._maybe('tpc_begin')
            return super().tpc_begin(*args, **kwargs)

        def store(self, *args, **kwargs):
            self._maybe('store')
            return super().store(*args, **kwargs)

        def tpc_vote(self, *args, **kwargs):
            self._maybe('tpc_vote')
            return super().tpc_vote(*args, **kwargs)
    return Failing


FailingFile = failing(FileStorage)
FailingMemory = failing(MappingStorage)


class Silent(BaseException):
    """none of the ordinary exceptions"""


class Empty(Exception):
    """an exception that is false"""

    def __len__(self):
        return 0


class Unpicklable:
    def __reduce__(self):
        raise Oops('not storable')


def look(ctx, conn, model, pool, what):
    for key in pool:
        got = conn.read(key, MISSING)
        wanted = model.get(key, MISSING)
        ctx.expect(gen.same(got, wanted),
                   lambda: f'{what}: {key!r} is {show(got)}, expected '
                           f'{show(wanted)}')
    ctx.equal(conn.container.size, len(model), f'{what}: size')


def show(value):
    return 'missing' if value is MISSING else repr(value)[:200]


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.path = ctx.folder() + '/db' if rng.random() < .4 else None
        self.storage = FailingFile(self.path) if self.path else \
            FailingMemory()
        self.db = ContainerDb(self.storage)
        self.kind = rng.choice(['single', 'thread', 'default'])
        tm = {'single': TransactionManager, 'thread':
              ThreadTransactionManager, 'default': lambda: None}[self.kind]()
        # opened by the database, or made with or without automatic commits
        self.made = rng.choice([None, None, None, True, False])
        if self.made is not None:
            self.conn = ContainerConnection(
                self.db, transaction_manager=tm, autocommit=self.made)
        else:
            self.conn = self.db.open(tm) if tm is not None else self.db.open()
        self.watcher = self.db.open(TransactionManager())
        self.rival_tm = TransactionManager()
        self.rival_tm.autocommit = True
        self.rival = self.db.open(self.rival_tm)
        self.pool = gen.ids(rng, rng.choice([3, 6, 15]))
        self.serial = gen.Serial()
        self.model = {}

    def committed(self, what):
        """what other connections see, now"""
        self.watcher.sync()
        look(self.ctx, self.watcher, self.model, self.pool,
             f'{what}, seen by another connection')

    def own(self, view, what):
        look(self.ctx, self.conn, view, self.pool, f'{what}, own view')

    def operate(self, view):
        """one operation of the connection; view is what it should show"""
        ctx, rng, conn = self.ctx, self.rng, self.conn
        key = rng.choice(self.pool)
        value = self.serial(rng)
        op = rng.choice(['create', 'update', 'update', 'delete'])
        ctx.step(op, key, value)
        if op == 'create':
            if key in view:
                ctx.raises(ObjectOverwriteError,
                           lambda: conn.create(key, value), 'create')
            else:
                conn.create(key, value)
                view[key] = value
        elif op == 'update':
            got = conn.update(key, value)
            ctx.expect(gen.same(got, view.get(key)),
                       lambda: f'update({key!r}) returned {got!r}, expected '
                               f'{view.get(key)!r}')
            view[key] = value
        else:
            got = conn.delete(key)
            ctx.equal(len(got), int(key in view), f'delete({key!r})')
            view.pop(key, None)
        return key

    def autocommits(self, what):
        """operations outside of blocks are committed one by one again"""
        ctx = self.ctx
        ctx.equal(self.conn.autocommit, True, f'{what}: autocommit')
        for _ in range(2):
            view = dict(self.model)
            self.operate(view)
            self.model = view
            self.own(self.model, what)
            self.committed(f'{what}, then an operation')
        ctx.count('autocommit_resumed')

    def close(self):
        for conn in (self.conn, self.watcher, self.rival):
            conn.transaction_manager.abort()
            if conn in self.db.pool.all:
                conn.close()
        self.db.close()
        if self.path:
            db = ContainerDb(self.path)
            with db as conn:
                look(self.ctx, conn, self.model, self.pool, 'reopened')
            db.close()
            self.ctx.count('reopened')


def block(world):
    """the ways to begin a block"""
    kind = world.rng.choice(['connection', 'connection', 'manager'])
    world.ctx.step('block', kind)
    return world.conn if kind == 'connection' else \
        world.conn.transaction_manager


def fill(world, view, most=6):
    """operations inside of a block, nothing is visible elsewhere"""
    for _ in range(world.rng.randint(1, most)):
        world.operate(view)
        world.own(view, 'inside a block')
        if world.rng.random() < .5:
            world.committed('inside a block')


def by_hand(world, view):
    """nothing is committed until asked to"""
    for _ in range(world.rng.randint(1, 3)):
        fill(world, view)
        world.committed('autocommit switched off')
        if world.rng.random() < .5:
            world.conn.transaction_manager.commit()
            world.model = dict(view)
        else:
            world.conn.transaction_manager.abort()
            view = dict(world.model)
        world.committed('after a commit or abort by hand')
        world.own(world.model, 'after a commit or abort by hand')


def one_case(ctx, rng):
    world = World(ctx, rng)
    conn = world.conn
    ctx.equal(conn.autocommit, world.made is not False,
              'autocommit of a new connection')
    if world.made is False:
        by_hand(world, dict(world.model))
        ctx.count('made_without_autocommit')
        conn.autocommit = True
    for _ in range(rng.choice([0, 2, 5])):
        world.operate(world.model)
        world.committed('operation')
    for _ in range(rng.choice([1, 2, 4])):
        outcome = rng.choice(['commit', 'commit', 'raise', 'raise', 'conflict',
                              'disk', 'disk', 'unstorable', 'overwrite',
                              'manual', 'middle', 'single_conflict',
                              'single_disk', 'single_unstorable',
                              'begin', 'single_begin',
                              'single_overwrite'])
        ctx.count(f'outcome_{outcome}')
        ctx.step('outcome', outcome)
        view = dict(world.model)
        before = dict(world.model)
        if outcome == 'commit':
            with block(world):
                ctx.equal(conn.autocommit, False, 'autocommit in a block')
                fill(world, view)
            world.model = view
        elif outcome == 'raise':
            error = rng.choice([Oops('x'), KeyError('x'), ValueError(),
                                KeyboardInterrupt(), SystemExit(3),
                                SystemExit(0), StopIteration(1),
                                GeneratorExit(), Silent(), CancelledError(),
                                TransactionError(), ConflictError(),
                                AssertionError(), Empty()])

            def fn():
                with block(world):
                    fill(world, view)
                    raise error
            caught = ctx.raises(type(error), fn, 'an exception in a block')
            ctx.expect(caught is error, 'another exception came out')
        elif outcome == 'overwrite':
            def fn():
                with block(world):
                    fill(world, view)
                    key = rng.choice(world.pool)
                    conn.update(key, 1)
                    conn.create(key, 2)
            ctx.raises(ObjectOverwriteError, fn, 'overwriting in a block')
        elif outcome == 'conflict':
            key = rng.choice(world.pool)

            def fn():
                with block(world):
                    conn.update(key, world.serial(rng, falsy=0))
                    view[key] = conn.read(key)
                    fill(world, view)
                    conn.update(key, world.serial(rng, falsy=0))
                    view[key] = conn.read(key)
                    value = world.serial(rng, falsy=0)
                    world.rival_tm.begin()
                    world.rival.update(key, value)
                    world.model[key] = value
            ctx.raises(ConflictError, fn, 'a block that conflicts')
        elif outcome == 'disk':
            def fn():
                with block(world):
                    fill(world, view)
                    conn.update(rng.choice(world.pool), world.serial(rng, 0))
                    world.storage.phase = rng.choice(
                        ['tpc_begin', 'store', 'tpc_vote'])
            ctx.raises(DiskFull, fn, 'a block whose commit fails')
        elif outcome == 'begin':
            world.storage.phase = 'begin'

            def fn():
                with block(world):
                    ctx.expect(False, 'a block began without a transaction')
            ctx.raises(DiskFull, fn, 'a block that cannot begin')
        elif outcome == 'unstorable':
            def fn():
                with block(world):
                    fill(world, view)
                    conn.update(rng.choice(world.pool), Unpicklable())
                    if rng.random() < .5:
                        for _ in range(2):
                            conn.update(rng.choice(world.pool), 1)
                        conn.update(rng.choice(world.pool), Unpicklable())
            ctx.raises(Oops, fn, 'a block with an object that has no pickle')
        elif outcome == 'manual':
            # switched off by hand: nothing is committed until asked to
            conn.autocommit = False
            ctx.equal(conn.autocommit, False, 'autocommit switched off')
            by_hand(world, view)
            for wrong in (None, 1, 'yes'):
                ctx.raises(TypeError, lambda: setattr(conn, 'autocommit',
                                                      wrong), 'autocommit')
            ctx.equal(conn.autocommit, False, 'autocommit is still off')
            conn.autocommit = True
        elif outcome == 'middle':
            # what was committed by hand within a block stays
            ending = rng.random() < .5

            def fn():
                with block(world):
                    fill(world, view, 3)
                    conn.transaction_manager.commit()
                    world.model = dict(view)
                    world.committed('commit within a block')
                    fill(world, view, 3)
                    if ending:
                        raise Oops()
            if ending:
                ctx.raises(Oops, fn, 'an exception in a block')
            else:
                fn()
                world.model = view
        else:
            # a single operation outside of blocks fails
            key = rng.choice(world.pool)
            if outcome == 'single_overwrite':
                conn.update(key, 5)
                world.model[key] = 5
                ctx.raises(ObjectOverwriteError,
                           lambda: conn.create(key, 6), 'overwriting')
            elif outcome in ('single_disk', 'single_begin'):
                world.storage.phase = rng.choice(
                    ['tpc_begin', 'store', 'tpc_vote']
                    if outcome == 'single_disk' else ['begin'])
                call = rng.choice(['update', 'create', 'delete'])
                if call == 'delete' and key not in world.model or \
                        call == 'create' and key in world.model:
                    call = 'update'
                ctx.raises(DiskFull,
                           lambda: conn.delete(key) if call == 'delete' else
                           getattr(conn, call)(key, world.serial(rng, 0)),
                           f'{call} whose commit fails')
            elif outcome == 'single_unstorable':
                ctx.raises(Oops, lambda: conn.update(key, Unpicklable()),
                           'update to an object that has no pickle')
            else:
                # the rival commits between the operation and its commit
                tm = conn.transaction_manager
                fired = []

                def hook(transaction_):
                    if not fired:
                        fired.append(1)
                        value = world.serial(rng, falsy=0)
                        world.rival_tm.begin()
                        world.rival.update(key, value)
                        world.model[key] = value

                class Sync:
                    def beforeCompletion(self, txn):
                        if armed and txn is not None:
                            hook(txn)

                    def afterCompletion(self, txn):
                        pass

                    def newTransaction(self, txn):
                        pass
                armed = []
                sync = Sync()
                tm.registerSynch(sync)
                armed.append(1)
                try:
                    ctx.raises(ConflictError,
                               lambda: conn.update(key, world.serial(rng, 0)),
                               'an update that conflicts')
                finally:
                    armed.clear()
                    tm.unregisterSynch(sync)
        world.storage.phase = None
        world.committed(f'after {outcome}')
        world.own(world.model, f'after {outcome}')
        if outcome not in ('conflict', 'single_conflict', 'manual', 'middle',
                           'commit', 'single_overwrite'):
            ctx.equal(sorted(world.model), sorted(before), 'model')
        world.autocommits(f'after {outcome}')
        ctx.saw(outcome, world.kind, sorted(world.model),
                [repr(op) for op in ctx.trace[-3:]])
    if len(ctx.samples) < 3:
        ctx.sample([repr(op)[:90] for op in ctx.trace[:10]])
    world.close()


def explicit_case(ctx, rng):
    """managers that refuse to begin a transaction twice, and others"""
    make = rng.choice([TransactionManager, CitrineTransactionManager])
    explicit = rng.random() < .7
    tm = rng.choice([lambda: make(explicit), lambda: make(explicit=explicit),
                     lambda: make() if not explicit else make(True)])()
    db = ContainerDb(None)
    ctx.equal(bool(tm.explicit), explicit, 'explicit')
    if explicit:
        for what in ('get', 'commit', 'doom', 'savepoint'):
            ctx.raises(NoTransaction, getattr(tm, what),
                       f'{what}() outside of a transaction')
    conn, other = db.open(tm), db.open(TransactionManager())
    pool = gen.ids(rng, 4)
    model = {}

    def seen(what):
        other.sync()
        look(ctx, other, model, pool, f'{what}, explicit: {explicit}')
    for number in range(rng.choice([3, 8])):
        key = rng.choice(pool)
        kind = rng.choice(['single', 'block', 'twice', 'twice in block'])
        ctx.step(kind, key, explicit)
        if kind == 'single':
            conn.update(key, number)
            model[key] = number
        elif kind == 'block':
            with conn:
                conn.update(key, number)
            model[key] = number
        elif kind == 'twice':
            tm.begin()
            tm.autocommit = False
            conn.update(key, number)
            if explicit:
                ctx.raises(AlreadyInTransaction, tm.begin,
                           'a transaction in another one')
                model[key] = number
            else:
                tm.begin()
            tm.commit()
            tm.autocommit = True
        else:
            with conn:
                conn.update(key, number)
                if explicit:
                    ctx.raises(AlreadyInTransaction, tm.begin,
                               'a transaction in a block')
                    model[key] = number
                else:
                    tm.begin()
        seen(kind)
        ctx.count('explicit_' + kind.replace(' ', '_'))
        ctx.saw('explicit', kind, explicit, sorted(model))


def run(ctx):
    ctx.rule = ('transaction blocks with random operations that end normally, '
                'by an exception, a conflict, a failing storage (each commit '
                'phase) or an object that cannot be stored, manual commits '
                'and aborts, single operations failing in the same ways; own '
                'view and the view of another connection compared with a '
                'model at each step; distinct: (outcome, content)')
    ctx.require(outcome_commit=20, outcome_raise=20, outcome_conflict=10,
                outcome_disk=20, outcome_unstorable=10, outcome_manual=10,
                outcome_middle=10, outcome_single_disk=10,
                outcome_begin=10, outcome_single_begin=10,
                outcome_single_conflict=10, outcome_single_unstorable=10,
                autocommit_resumed=200, reopened=20,
                made_without_autocommit=30, explicit_twice=15,
                explicit_block=15)
    quick = ctx.quick
    ctx.case(lambda rng: one_case(ctx, rng), 'blocks',
             800 if quick else 10000, 15 if quick else 900)
    ctx.case(lambda rng: explicit_case(ctx, rng), 'explicit',
             60 if quick else 2000)
