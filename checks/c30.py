"""C30: the log of the transactions tells what happened."""
import logging
import re
import sys
import threading
import time

import transaction as zodb_transaction
import ZODB
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError
from persistent.mapping import PersistentMapping
from transaction.interfaces import (AlreadyInTransaction, DoomedTransaction,
                                    NoTransaction)

import gen
from citrine.connection.connection import CitrineConnection
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import ObjectOverwriteError
from citrine.persistence import (CitrineThreadTransactionManager,
                                 CitrineTransactionManager, DbContainer)
from citrine.persistence import autocommit as persistence_autocommit
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)
from citrine.storage.transaction import autocommit as storage_autocommit

UUID = '([0-9a-f]{8}(?:-[0-9a-f]{4}){3}-[0-9a-f]{12})'
START = re.compile(f'START TRANSACTION {UUID}')
END = re.compile(f'TRANSACTION {UUID} (SUCCESSFUL|FAILED)')
ACTION = re.compile(f'{UUID}: (\\w+) (.*)', re.DOTALL)


class Boom(Exception):
    pass


class Kill(BaseException):
    """as KeyboardInterrupt, nothing that is handled on the way"""


class LegacyDb(ZODB.DB):
    klass = CitrineConnection


class Recorder(logging.Handler):
    """
    Keeps what is logged with the thread it is logged in, and has the state of
    the database observed at that moment
    """

    def __init__(self):
        super().__init__(0)
        self.records = {}
        self.watching = {}

    def emit(self, record):
        ident = threading.get_ident()
        entry = parse(record)
        self.records.setdefault(ident, []).append(entry)
        watch = self.watching.get(ident)
        if watch is not None:
            watch(entry)


def parse(record):
    try:
        text = record.getMessage()
    except Exception as error:
        return ('other', None, repr(error), record.levelno)
    for kind, pattern in (('start', START), ('end', END), ('act', ACTION)):
        found = pattern.fullmatch(text)
        if found:
            break
    else:
        return ('other', None, text, record.levelno)
    rest = found.groups()[1:]
    if kind == 'end':
        rest = (rest[0] == 'SUCCESSFUL',)
    return (kind, found.group(1), *rest, record.levelno)


class Trouble:
    """takes part in a transaction and fails at some point of it"""

    transaction_manager = None

    def __init__(self, where):
        self.where = where

    def _at(self, where):
        if where == self.where:
            raise Boom(where)

    def abort(self, txn):
        self._at('abort')

    def tpc_begin(self, txn):
        self._at('tpc_begin')

    def commit(self, txn):
        self._at('commit')

    def tpc_vote(self, txn):
        self._at('tpc_vote')

    def tpc_finish(self, txn):
        pass

    def tpc_abort(self, txn):
        pass

    def sortKey(self):
        return '~~~'


class Unstorable:
    def __reduce__(self):
        raise Boom('stored')


class Obstacle:
    """transactions cannot begin, or commit, while it is set"""

    def __init__(self):
        self.on = False
        self.committing = False

    def newTransaction(self, txn):
        if self.on:
            raise Boom('begin')

    def beforeCompletion(self, txn):
        if self.committing:
            self.committing = False
            raise Boom('completion')

    def afterCompletion(self, txn):
        pass


class Session:
    """one connection, what it does and what is expected to be logged"""

    def __init__(self, ctx, rng, recorder, conn, tm, reader, pool, legacy,
                 rival=None):
        self.ctx = ctx
        self.rng = rng
        self.recorder = recorder
        self.conn = conn
        self.tm = tm
        self.reader = reader
        self.pool = pool
        self.legacy = legacy
        self.rival = rival
        self.serial = gen.Serial()
        self.saved = {}
        self.model = {}
        self.expected = []
        self.observed = []
        self.obstacle = Obstacle()
        tm.registerSynch(self.obstacle)
        self.ident = threading.get_ident()
        self.first = len(recorder.records.setdefault(self.ident, []))
        recorder.watching[self.ident] = self.watch

    # ---- the moment something is logged -------------------------------
    def visible(self):
        self.reader.transaction_manager.begin()
        container = self.reader.container
        return {key: container.read(key) for key in self.pool
                if container.has(key)}

    def watch(self, entry):
        try:
            self.observed.append((entry, self.visible(), dict(self.saved),
                                  dict(self.model)))
        except BaseException as error:
            self.observed.append((entry, error, None, None))

    # ---- the oracle ---------------------------------------------------
    def audit(self):
        """what was logged since the last time"""
        ctx = self.ctx
        logged = self.recorder.records[self.ident][self.first:]
        self.first += len(logged)
        expected, self.expected = self.expected, []
        observed, self.observed = self.observed, []
        show = [entry[:1] + entry[2:-1] for entry in logged]
        ctx.equal(show, expected, 'log')
        current = None
        for entry in logged:
            if entry[0] == 'start':
                ctx.expect(current is None, 'a start within a transaction')
                current = entry[1]
                with ctx.lock:
                    fresh = current not in IDS
                    IDS.add(current)
                ctx.expect(fresh, f'{current} begins twice')
                ctx.count('started')
            else:
                ctx.expect(entry[1] == current,
                           lambda: f'{entry} during {current}')
            wanted = logging.INFO
            if entry[0] == 'end':
                current = None
                ctx.count('successful' if entry[2] else 'failed')
                if not entry[2]:
                    wanted = logging.ERROR
            elif entry[0] == 'act':
                ctx.count('acts')
            ctx.equal(entry[-1], wanted, f'level of {entry}')
        ctx.expect(current is None, f'{current} has no end')
        for entry, visible, saved, model in observed:
            if isinstance(visible, BaseException):
                raise visible
            # durable when it is told to be, and not before
            wanted = model if entry[:1] + entry[2:3] == ('end', True) \
                else saved
            ctx.expect(gen.same(visible, wanted),
                       lambda: f'{visible} can be seen at {entry}, '
                               f'expected {wanted}')
            ctx.count('moments')
        ctx.equal(getattr(self.tm, 'transaction_uuid', None), None,
                  'id after the end')
        ctx.equal(self.tm.autocommit, True, 'autocommit after the end')

    # ---- what is done -------------------------------------------------
    def one(self, alone):
        """an operation; tells whether it succeeds"""
        ctx, rng = self.ctx, self.rng
        op = rng.choice(['create', 'create', 'update', 'update', 'delete',
                         'read'])
        key = rng.choice(self.pool)
        ctx.step(op, key)
        if op == 'read':
            ctx.expect(gen.same(self.conn.read(key), self.model.get(key)),
                       f'reads {key!r}')
            return True
        if alone:
            self.expected.append(('start',))
        self.expected.append(('act', op, key))
        before = dict(self.model)
        value = self.serial(rng)
        error = None
        if op == 'delete':
            if key not in self.model and self.legacy:
                error = KeyError
            self.model.pop(key, None)
        elif op == 'create' and key in self.model and not self.legacy:
            error = ObjectOverwriteError
        else:
            self.model[key] = value
        call = getattr(self.conn, op)
        args = (key,) if op == 'delete' else (key, value)
        if error is None:
            call(*args)
            if alone:
                self.saved = dict(self.model)
        else:
            self.model = before
            ctx.raises(error, lambda: call(*args), f'{op} {key!r}')
            ctx.count('refused')
        if alone:
            self.expected.append(('end', error is None))
        ctx.saw(op, error, alone, len(self.model))
        return error is None

    def failing(self):
        """an operation whose own transaction fails"""
        ctx, rng = self.ctx, self.rng
        key = rng.choice(self.pool)
        value = self.serial(rng)
        ctx.step('failing', key)
        if rng.random() < .5:
            self.obstacle.on = True
            # does not begin, so there is nothing to tell
            ctx.raises(Boom, lambda: self.conn.update(key, value),
                       'without a transaction')
            self.obstacle.on = False
            self.settle()
            ctx.count('not_begun')
            return
        self.expected += [('start',), ('act', 'update', key), ('end', False)]
        if rng.random() < .5:
            value = Unstorable()
        else:
            # not the end of a former transaction
            self.clear()
            self.obstacle.committing = True
        ctx.raises(Boom, lambda: self.conn.update(key, value),
                   'what cannot be stored')
        self.obstacle.committing = False
        self.clear()
        ctx.count('not_stored')

    def settle(self):
        """
        A transaction that did not begin leaves nothing, or a start with the
        matching end
        """
        logged = self.recorder.records[self.ident][self.first
                                                   + len(self.expected):]
        kinds = [entry[:1] + entry[2:-1] for entry in logged]
        if kinds == [('start',), ('end', False)]:
            self.expected += kinds

    def block(self):
        ctx, rng = self.ctx, self.rng
        how = rng.choice(['end', 'end', 'end', 'error', 'kill', 'doom',
                          'tpc_vote', 'tpc_begin', 'commit', 'abort', 'hook',
                          'conflict', 'begin', 'again', 'savepoint'])
        if how == 'conflict' and self.rival is None or \
                how == 'again' and not self.tm.explicit:
            how = 'end'
        manager = rng.choice([self.tm, self.conn])
        ctx.step('block', how)
        ctx.count(f'block_{how}')
        if how == 'begin':
            self.obstacle.on = True
            ran = []
            try:
                with manager:
                    ran.append(1)
                ctx.fail('a transaction began that cannot')
            except Boom:
                pass
            self.obstacle.on = False
            ctx.expect(not ran, 'the block of a transaction that cannot begin')
            self.settle()
            self.clear()
            return
        raised = {'error': Boom, 'kill': Kill, 'doom': DoomedTransaction,
                  'end': None, 'conflict': ConflictError,
                  'again': None, 'savepoint': None}.get(how, Boom)
        try:
            self.expected.append(('start',))
            with manager as block:
                ctx.expect(block is self.tm.get(),
                           'the transaction of a block')
                self.within(how)
            ctx.expect(raised is None, f'the error of {how} is gone')
            self.saved = dict(self.model)
            self.expected.append(('end', True))
        except (Boom, Kill, DoomedTransaction, ConflictError) as error:
            if raised is None or not isinstance(error, raised):
                raise
            self.expected.append(('end', False))
            self.model = dict(self.saved)
            self.clear()

    def clear(self):
        """what is left of a transaction that failed"""
        try:
            self.tm.abort()
        except NoTransaction:
            pass

    def within(self, how):
        ctx, rng = self.ctx, self.rng
        number = getattr(self.tm, 'transaction_uuid', None)
        ctx.expect(number is not None, 'no id within a block')
        for _ in range(rng.choice([0, 1, 2, 5])):
            self.one(False)
            ctx.equal(getattr(self.tm, 'transaction_uuid', None), number,
                      'id within a block')
        ctx.equal(str(number),
                  self.recorder.records[self.ident][self.first
                                                    + self.offset()][1],
                  'id of a block')
        if how == 'error':
            raise Boom()
        if how == 'kill':
            raise Kill()
        if how == 'doom':
            self.tm.get().doom()
        elif how == 'hook':
            def hook():
                raise Boom('hook')
            self.tm.get().addBeforeCommitHook(hook)
        elif how == 'again':
            ctx.raises(AlreadyInTransaction, self.tm.__enter__,
                       'a transaction within one')
            self.settle()
            ctx.equal(getattr(self.tm, 'transaction_uuid', None), number,
                      'id after one that could not begin')
            self.one(False)
        elif how == 'savepoint':
            if self.legacy:
                return
            kept = dict(self.model)
            point = self.tm.savepoint()
            self.one(False)
            point.rollback()
            self.model = kept
        elif how == 'conflict':
            key = rng.choice(self.pool)
            self.expected.append(('act', 'update', key))
            self.model[key] = self.serial(rng)
            self.conn.update(key, self.model[key])
            value = self.serial(rng)
            self.rival.transaction_manager.begin()
            self.rival.root.container.write(key, value)
            self.rival.transaction_manager.commit()
            self.saved[key] = value
        elif how in ('tpc_vote', 'tpc_begin', 'commit', 'abort'):
            self.tm.get().join(Trouble(how))
            if how == 'abort':
                raise Boom()

    def offset(self):
        """where the current transaction starts in what was not seen yet"""
        return max(index for index, entry in enumerate(self.expected)
                   if entry[0] == 'start')

    def other(self):
        """what makes a transaction without an operation"""
        ctx, rng = self.ctx, self.rng
        self.expected += [('start',), ('end', True)]
        if self.legacy:
            count = self.conn.num_containers()
            self.conn.expand_containers(1)
            ctx.equal(self.conn.num_containers(), count + 1, 'containers')
        else:
            self.conn.strict = rng.random() < .5
        ctx.count('others')

    def manual(self):
        """no transactions of their own for the operations"""
        ctx, rng = self.ctx, self.rng
        if self.legacy:
            return
        self.conn.autocommit = False
        self.tm.begin()
        key, value = rng.choice(self.pool), self.serial(rng)
        self.conn.update(key, value)
        if rng.random() < .6:
            self.model[key] = value
            self.tm.commit()
            self.saved = dict(self.model)
        else:
            self.clear()
        self.conn.autocommit = True
        ctx.count('manual')

    def go(self, number):
        for _ in range(number):
            step = self.rng.choice(['one', 'one', 'block', 'block', 'failing',
                                    'other', 'manual'])
            if step == 'one':
                self.one(True)
            else:
                getattr(self, step)()
            self.audit()


IDS = set()
SILENT = logging.NullHandler()


def logger():
    return logging.getLogger('CTransManager')


class Listening:
    def __enter__(self):
        self.recorder = Recorder()
        logger().addHandler(self.recorder)
        self.propagate, logger().propagate = logger().propagate, False
        # not to the standard error
        logging.root.addHandler(SILENT)
        self.disabled = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        return self.recorder

    def __exit__(self, *args):
        logger().removeHandler(self.recorder)
        logger().propagate = self.propagate
        logging.disable(self.disabled)
        logging.root.removeHandler(SILENT)


def pool_of(rng):
    return [*gen.ids(rng, rng.choice([2, 4])),
            rng.choice(['START TRANSACTION', '%s %d', 'a\nb', '{}'])]


def container_case(ctx, rng):
    db = ContainerDb(MappingStorage())
    kind = rng.choice(['plain', 'explicit', 'threads', 'own'])
    ctx.step('kind', kind)
    ctx.count(kind)
    with Listening() as recorder:
        if kind == 'own':
            conn = db.open()
        else:
            conn = db.open({'plain': TransactionManager,
                            'explicit': lambda: TransactionManager(True),
                            'threads': ThreadTransactionManager}[kind]())
        tm = conn.transaction_manager
        reader = db.open(TransactionManager())
        rival = db.open(TransactionManager())
        session = Session(ctx, rng, recorder, conn, tm, reader, pool_of(rng),
                          False, rival if kind != 'explicit' else None)
        if kind == 'explicit':
            # nothing may be read outside of a transaction
            for _ in range(rng.randint(2, 10)):
                session.block()
                session.audit()
        else:
            session.go(rng.randint(2, 12))
        session.clear()
        conn.close()
    db.close()
    ctx.saw('container', kind, sorted(map(repr, session.saved)))


def legacy_case(ctx, rng):
    db = LegacyDb(None)
    setup = db.open(zodb_transaction.TransactionManager())
    setup.root.container = DbContainer(PersistentMapping(
        {number: PersistentMapping() for number in range(3)}))
    setup.transaction_manager.commit()
    setup.close()
    threads = rng.random() < .5
    with Listening() as recorder:
        tm = (CitrineThreadTransactionManager if threads
              else CitrineTransactionManager)()
        conn = db.open(tm)
        reader = db.open(CitrineTransactionManager())
        session = Session(ctx, rng, recorder, conn, tm, reader, pool_of(rng),
                          True, db.open(CitrineTransactionManager()))
        session.go(rng.randint(2, 12))
        tm.abort()
        ctx.count('legacy_threads' if threads else 'legacy')
    db.close()
    ctx.saw('legacy', threads, sorted(map(repr, session.saved)))


def threads_case(ctx, rng):
    """each thread has its own transactions, also those of one manager"""
    db = ContainerDb(MappingStorage())
    db.setPoolSize(100)
    shared = rng.choice([None, ThreadTransactionManager()])
    if shared is not None and rng.random() < .4:
        # used where it was made as well
        with shared:
            pass
    before = sys.getswitchinterval()
    errors = []
    finished = []

    def work(number):
        try:
            mine = ctx_rng(rng, number)
            conn = db.open(shared) if shared is not None else db.open()
            pool = [f'{number}-{key}' for key in range(3)]
            session = Session(ctx, mine, recorder, conn,
                              conn.transaction_manager,
                              db.open(TransactionManager()), pool, False)
            barrier.wait()
            for _ in range(rounds):
                alone = mine.random() < .4
                session.expected.append(('start',))
                session.expected.append(('act', 'update', pool[0]))
                value = session.serial(mine)
                end = mine.random() < .7
                session.model[pool[0]] = value
                try:
                    if alone:
                        end = True
                        conn.update(pool[0], value)
                    else:
                        with conn:
                            conn.update(pool[0], value)
                            if mine.random() < .5:
                                time.sleep(mine.random() * .002)
                            for key in pool[1:]:
                                session.expected.append(
                                    ('act', 'update', key))
                                session.model[key] = value
                                conn.update(key, value)
                            if not end:
                                raise Boom()
                except (Boom, ConflictError) as error:
                    end = False
                    if isinstance(error, ConflictError):
                        ctx.count('races_lost')
                if end:
                    session.saved = dict(session.model)
                else:
                    session.model = dict(session.saved)
                session.expected.append(('end', end))
                session.audit()
                finished.append(number)
            conn.transaction_manager.abort()
            conn.close()
        except BaseException as error:
            errors.append(error)

    rounds = 3 if ctx.quick else 8
    count = rng.choice([2, 3, 5])
    barrier = threading.Barrier(count)
    with Listening() as recorder:
        sys.setswitchinterval(1e-5)
        try:
            workers = [threading.Thread(target=work, args=(number,))
                       for number in range(count)]
            for worker in workers:
                worker.start()
            for worker in workers:
                worker.join()
        finally:
            sys.setswitchinterval(before)
    if errors:
        raise errors[0]
    db.close()
    ctx.count('threads_shared' if shared is not None else 'threads_own')
    switches = sum(a != b for a, b in zip(finished, finished[1:]))
    ctx.count('interleaved', switches)
    ctx.saw('interleaving', tuple(finished))


def ctx_rng(rng, number):
    import random
    return random.Random(f'{rng.case_index}:{number}')


def several_case(ctx, rng):
    """operations on several databases within one transaction"""
    databases = {}
    dbs = [ContainerDb(MappingStorage(), databases=databases,
                       database_name=name) for name in 'abc']
    with Listening() as recorder:
        tm = TransactionManager()
        conns = [db.open(tm) for db in dbs]
        ident = threading.get_ident()
        for number in range(rng.randint(1, 4)):
            first = len(recorder.records.get(ident, ()))
            expected = [('start',)]
            end = rng.random() < .6
            try:
                with rng.choice([tm, conns[0]]):
                    for step in range(rng.randint(0, 4)):
                        key = f'{number} {step}'
                        expected.append(('act', 'create', key))
                        rng.choice(conns).create(key, step)
                    if not end:
                        raise Boom()
            except Boom:
                pass
            expected.append(('end', end))
            logged = recorder.records[ident][first:]
            ctx.equal([entry[:1] + entry[2:-1] for entry in logged], expected,
                      'log of several databases')
            ctx.equal(len({entry[1] for entry in logged}), 1, 'ids')
            ctx.expect(logged[0][1] not in IDS, 'an id is used twice')
            IDS.add(logged[0][1])
            ctx.count('several')
        tm.abort()
    for db in dbs:
        db.close()
    ctx.saw('several', expected)


class Own:
    """not a connection, but with methods that commit"""

    def __init__(self, tm):
        self.transaction_manager = tm
        self.called = []

    def _act(self, name, id, *args, **kwargs):
        self.called.append((name, id, args, kwargs,
                            self.transaction_manager.autocommit))
        if kwargs.get('fail'):
            raise Boom()
        return [id, name]

    @storage_autocommit
    def put(self, id, *args, **kwargs):
        return self._act('put', id, *args, **kwargs)

    @persistence_autocommit
    def send(self, id, *args, **kwargs):
        return self._act('send', id, *args, **kwargs)


def own_case(ctx, rng):
    tm = rng.choice([TransactionManager, ThreadTransactionManager,
                     CitrineTransactionManager,
                     CitrineThreadTransactionManager])()
    own = Own(tm)
    committed = []
    with Listening() as recorder:
        ident = threading.get_ident()
        for _ in range(rng.choice([1, 3, 6])):
            first = len(recorder.records.get(ident, ()))
            del own.called[:]
            block = rng.random() < .4
            fails = rng.random() < .3
            acts = []

            class Watch(Trouble):
                def tpc_finish(self, txn):
                    committed.append(len(own.called))

            def act():
                name = rng.choice(['put', 'send'])
                id = rng.choice(['a', 'b c', 7, None])
                args = tuple(rng.sample([1, 'x', None], rng.randint(0, 2)))
                kwargs = {'fail': True} if fails and not block else \
                    rng.choice([{}, {'value': 3}])
                acts.append((name, id, args, kwargs, False))
                ctx.equal(getattr(own, name)(id, *args, **kwargs), [id, name],
                          'result')
            try:
                if block:
                    with tm:
                        tm.get().join(Watch(None))
                        for _ in range(rng.randint(0, 3)):
                            act()
                        ctx.equal(committed, [], 'commits during a block')
                        if fails:
                            raise Boom()
                else:
                    act()
                ctx.expect(not fails, 'the exception is gone')
            except Boom:
                ctx.expect(fails, 'an exception')
            ctx.equal(own.called, acts, 'calls')
            ctx.equal(committed, [len(acts)] if block and not fails else [],
                      'commits')
            del committed[:]
            logged = recorder.records[ident][first:]
            ctx.equal([entry[:1] + entry[2:-1] for entry in logged],
                      [('start',), *(('act', name, str(id))
                                     for name, id, *_ in acts),
                       ('end', not fails)], 'log of other methods')
            ctx.equal(len({entry[1] for entry in logged}), 1, 'ids')
            ctx.expect(logged[0][1] not in IDS, 'an id is used twice')
            IDS.add(logged[0][1])
            ctx.equal(tm.autocommit, True, 'autocommit afterwards')
            ctx.count('own_blocks' if block else 'own_acts')
    ctx.saw('own', type(tm).__name__, block, fails, acts)


def run(ctx):
    IDS.clear()
    ctx.rule = ('operations of their own and in blocks, by connections of '
                'every kind of transaction manager, that succeed, are '
                'refused or fail when they begin, at every step of the '
                'commit or by conflicts; what is logged is compared with what '
                'was done, and what another connection sees at the moment it '
                'is logged with what it says; distinct: (operation, outcome, '
                'ids), interleavings of threads')
    ctx.require(started=500, successful=250, failed=150, acts=500,
                moments=1500, refused=50, plain=10, explicit=10, threads=10,
                own=10, legacy=5, legacy_threads=5, block_error=10,
                block_kill=10, block_doom=10, block_tpc_vote=10,
                block_tpc_begin=10, block_commit=10, block_abort=10,
                block_hook=10, block_conflict=5, block_begin=10,
                block_again=3, block_savepoint=10, not_begun=10,
                not_stored=10, others=20, manual=20, several=20, own_blocks=20, own_acts=30,
                threads_shared=3, threads_own=3, interleaved=20)
    quick = ctx.quick
    ctx.case(lambda rng: container_case(ctx, rng), 'container',
             150 if quick else 4000, 30 if quick else 600)
    ctx.case(lambda rng: legacy_case(ctx, rng), 'legacy',
             60 if quick else 2000, 20 if quick else 400)
    ctx.case(lambda rng: threads_case(ctx, rng), 'threads',
             20 if quick else 600, 30 if quick else 600)
    ctx.case(lambda rng: own_case(ctx, rng), 'own',
             60 if quick else 1500, 10 if quick else 100)
    ctx.case(lambda rng: several_case(ctx, rng), 'several',
             20 if quick else 500, 10 if quick else 100)
