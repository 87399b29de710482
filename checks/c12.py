"""C12: several connections: snapshots, no lost updates, exactly one create."""
import queue
import random
import sys
import threading
import time

from ZODB.POSException import ConflictError

import gen
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import ObjectOverwriteError
from citrine.storage.container import Container
from citrine.storage.group import Group
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

MISSING = object()


def make_db(ctx, rng):
    kind = rng.choice(['memory', 'memory', 'file', 'small'])
    if kind == 'memory':
        return ContainerDb(None)
    path = ctx.folder() + '/db'
    return ContainerDb.new(path, capacity=100 if kind == 'small' else 60000)


def spread(ctx, rng, db):
    """sometimes leaves what is stored in secondary groups, not condensed"""
    if rng.random() < .5:
        return
    with db as conn:
        with conn:
            for _ in range(rng.choice([1, 1, 2])):
                conn.root.container = Container(
                    Group.new(rng.choice([1, 2, 5]), 5000),
                    conn.container.groups)
    ctx.count('several_groups')


class Peer:
    """a connection, its snapshot and what it has written since"""

    def __init__(self, db, rng, model):
        kind = rng.randrange(3)
        self.conn = db.open() if kind == 0 else db.open(
            [TransactionManager, ThreadTransactionManager][kind - 1]())
        self.block = False
        self.snapshot = {}
        self.base = {}
        self.writes = {}

    def begin(self, model, version):
        self.conn.__enter__()
        self.block = True
        self.snapshot = dict(model)
        self.base = dict(version)
        self.writes = {}

    def view(self):
        found = dict(self.snapshot)
        for key, value in self.writes.items():
            if value is None:
                found.pop(key, None)
            else:
                found[key] = value[0]
        return found


def reorganize(rng, container):
    """resizes or condenses within one transaction"""
    args = {} if rng.random() < .6 else {'transfer': False}
    if rng.random() < .4:
        container.condense(**args)
    else:
        container.resize(rng.choice([100, 5000, 12000]), 5000,
                         condense=rng.random() < .5, **args)


def interleaved_case(ctx, rng, resizing=False):
    """
    a random schedule of transactions of several connections, some of which
    may resize the container
    """
    db = make_db(ctx, rng)
    model = {}
    version = {}            # key -> number of the commit that changed it
    commits = 0
    pool = gen.ids(rng, rng.choice([2, 4, 10]))
    serial = gen.Serial()
    with db as conn:
        with conn:
            for key in pool:
                if rng.random() < .4:
                    model[key] = serial(rng, falsy=0)
                    conn.create(key, model[key])
    spread(ctx, rng, db)
    peers = [Peer(db, rng, model) for _ in range(rng.choice([2, 3, 4]))]
    for _ in range(rng.choice([30, 80])):
        number = rng.randrange(len(peers))
        peer = peers[number]
        conn = peer.conn
        if not peer.block and rng.random() < .6:
            ctx.step(number, 'begin')
            peer.begin(model, version)
            continue
        if peer.block and rng.random() < .25:
            abort = rng.random() < .2
            ctx.step(number, 'abort' if abort else 'commit')
            # writes without an effect in the end are none
            effects = {key: value for key, value in peer.writes.items()
                       if (value or (MISSING,))[0]
                       != peer.snapshot.get(key, MISSING)}
            overlap = {key for key in effects
                       if model.get(key, MISSING)
                       != peer.snapshot.get(key, MISSING)}
            peer.block = False
            if abort:
                error = LookupError()
                conn.__exit__(LookupError, error, None)
                ctx.count('aborts')
                continue
            try:
                conn.__exit__(None, None, None)
            except ConflictError:
                ctx.count('conflicts')
                ctx.count('conflicts_same_object', bool(overlap))
            else:
                ctx.expect(not overlap,
                           lambda: f'lost update: {sorted(overlap)!r} were '
                                   'changed by another transaction and '
                                   'overwritten')
                commits += 1
                for key, value in effects.items():
                    version[key] = commits
                    if value is None:
                        model.pop(key, None)
                    else:
                        model[key] = value[0]
                ctx.count('commits')
            look(ctx, db, model, pool)
            continue
        # an operation, in a block or committed on its own
        view = peer.view() if peer.block else model
        key = rng.choice(pool)
        op = rng.choice(['read', 'create', 'update', 'delete'])
        value = serial(rng, falsy=0)
        if resizing and rng.random() < .08:
            ctx.step(number, 'resize', peer.block)
            if peer.block:
                reorganize(rng, conn.container)
            else:
                with conn:
                    reorganize(rng, conn.container)
            ctx.count('resized')
            look(ctx, db, model, pool)
            continue
        ctx.step(number, op, key, value, peer.block)
        ctx.count('in_block' if peer.block else 'alone')
        if op == 'read':
            if not peer.block:
                conn.sync()
            got = conn.read(key, MISSING)
            ctx.expect(gen.same(got, view.get(key, MISSING)),
                       lambda: f'connection {number} reads {got!r} for '
                               f'{key!r}, its snapshot has '
                               f'{view.get(key, "nothing")!r}')
            continue
        changed = True
        if op == 'create':
            try:
                conn.create(key, value)
                ctx.expect(key not in view, f'create({key!r}) of an existing '
                                            'id succeeded')
            except ObjectOverwriteError:
                ctx.expect(key in view, f'create({key!r}) of a missing id '
                                        'was refused')
                changed = False
            new = (value,)
        elif op == 'update':
            got = conn.update(key, value)
            ctx.expect(gen.same(got, view.get(key)),
                       lambda: f'update({key!r}) returned {got!r}, expected '
                               f'{view.get(key)!r}')
            new = (value,)
        else:
            got = conn.delete(key)
            ctx.equal(bool(got), key in view, f'delete({key!r})')
            changed = key in view
            new = None
        if changed and peer.block:
            peer.writes[key] = new
        elif changed:
            commits += 1
            version[key] = commits
            if new is None:
                model.pop(key, None)
            else:
                model[key] = value
        if rng.random() < .5:
            look(ctx, db, model, pool)
    ctx.saw('interleaved', sorted(model), [op[:2] for op in ctx.trace[-12:]])
    if len(ctx.samples) < 3:
        ctx.sample([repr(op)[:70] for op in ctx.trace[:12]])
    for peer in peers:
        if peer.block:
            peer.conn.__exit__(LookupError, LookupError(), None)
        peer.conn.close()
    look(ctx, db, model, pool)
    db.close()


def look(ctx, db, model, pool):
    """only what was committed is visible to a new connection"""
    with db as conn:
        for key in pool:
            got = conn.read(key, MISSING)
            ctx.expect(gen.same(got, model.get(key, MISSING)),
                       lambda: f'committed {key!r} reads {got!r}, expected '
                               f'{model.get(key, "nothing")!r}')


class Team:
    """threads that report errors, switched as often as possible"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.errors = []
        self.threads = []

    def add(self, fn, *args):
        def run():
            try:
                fn(*args)
            except BaseException as error:
                import traceback
                self.errors.append(''.join(
                    traceback.format_exception(error))[-1500:])
        self.threads.append(threading.Thread(target=run, daemon=True))

    def run(self):
        old = sys.getswitchinterval()
        sys.setswitchinterval(2e-5)
        try:
            for thread in self.threads:
                thread.start()
            for thread in self.threads:
                thread.join(100)
                if thread.is_alive():
                    self.errors.append('a thread did not finish')
        finally:
            sys.setswitchinterval(old)
        self.ctx.expect(not self.errors, lambda: self.errors[0])


def managers(rng):
    """transaction managers for connections of several threads"""
    kind = rng.randrange(3)
    if kind == 0:
        return lambda: None
    if kind == 1:
        return TransactionManager
    # one manager for all of them, it is a different one in each thread
    shared = ThreadTransactionManager()
    return lambda: shared


def nap(rng):
    if rng.random() < .3:
        time.sleep(rng.random() * .0005)


def counter_case(ctx, rng):
    """increments in blocks, retried on conflict: none is lost"""
    db = make_db(ctx, rng)
    manager = managers(rng)
    keys = gen.ids(rng, rng.choice([1, 2, 4]))
    with db as conn:
        for key in keys:
            conn.create(key, 0)
    spread(ctx, rng, db)
    done = []
    team = Team(ctx)

    def worker(seed):
        mine = random.Random(seed)
        conn = db.open(manager())
        for _ in range(12):
            key = mine.choice(keys)
            while True:
                try:
                    with conn:
                        value = conn.read(key)
                        nap(mine)
                        previous = conn.update(key, value + 1)
                        if previous != value:
                            raise AssertionError(
                                f'update returned {previous}, read {value}')
                        nap(mine)
                    done.append(key)
                    break
                except ConflictError:
                    ctx.count('thread_conflicts')
        conn.close()
    for number in range(rng.choice([3, 5])):
        team.add(worker, rng.random())
    team.run()
    with db as conn:
        for key in keys:
            ctx.equal(conn.read(key), done.count(key),
                      f'increments of {key!r}')
    ctx.count('increments', len(done))
    ctx.saw('counter', len(keys), len(team.threads), rng.case_index)
    db.close()


def create_case(ctx, rng):
    """threads that create the same ids: one of them succeeds"""
    db = make_db(ctx, rng)
    keys = gen.ids(rng, rng.choice([5, 15]))
    winners = {key: [] for key in keys}
    team = Team(ctx)
    barrier = threading.Barrier(4)

    def worker(number, seed):
        mine = random.Random(seed)
        conn = db.open(TransactionManager())
        order = list(keys)
        if mine.random() < .5:
            mine.shuffle(order)
        barrier.wait(30)
        for key in order:
            while True:
                try:
                    conn.create(key, number)
                    winners[key].append(number)
                    break
                except ObjectOverwriteError:
                    ctx.count('create_refused')
                    break
                except ConflictError:
                    ctx.count('thread_conflicts')
                    if mine.random() < .5:
                        break
        conn.close()
    for number in range(4):
        team.add(worker, number, rng.random())
    team.run()
    with db as conn:
        for key in keys:
            ctx.expect(len(winners[key]) <= 1,
                       lambda: f'{key!r} was created by {winners[key]}')
            got = conn.read(key)
            ctx.equal(got, winners[key][0] if winners[key] else None,
                      f'creator of {key!r}')
            ctx.count('created', len(winners[key]))
    ctx.saw('create', sorted((key, tuple(who))
                             for key, who in winners.items()))
    db.close()


def transfer_case(ctx, rng):
    """amounts moved between objects: every snapshot has the same total"""
    db = make_db(ctx, rng)
    manager = managers(rng)
    keys = gen.ids(rng, rng.choice([3, 8]))
    with db as conn:
        with conn:
            for key in keys:
                conn.create(key, 100)
    spread(ctx, rng, db)
    stop = threading.Event()
    team = Team(ctx)
    running = []

    def mover(seed):
        mine = random.Random(seed)
        conn = db.open(manager())
        running.append(1)
        for _ in range(15):
            source, target = mine.sample(keys, 2)
            amount = mine.randint(1, 50)
            failing = mine.random() < .25
            try:
                with conn:
                    conn.update(source, conn.read(source) - amount)
                    nap(mine)
                    if failing:
                        raise LookupError
                    conn.update(target, conn.read(target) + amount)
                ctx.count('moves')
            except LookupError:
                ctx.count('moves_failed')
            except ConflictError:
                ctx.count('thread_conflicts')
        conn.close()
        running.pop()
        if not running:
            stop.set()

    def reader(style):
        conn = db.open(manager())
        while not stop.is_set():
            with conn:
                if style:
                    total = sum(conn[keys])
                else:
                    total = 0
                    for key in keys:
                        total += conn.read(key)
                        time.sleep(.0002)
            if total != 100 * len(keys):
                raise AssertionError(f'a snapshot has the total {total}')
            ctx.count('snapshots')
        conn.close()
    for _ in range(3):
        team.add(mover, rng.random())
    team.add(reader, 0)
    team.add(reader, 1)
    timer = threading.Timer(60, stop.set)
    timer.daemon = True
    timer.start()
    team.run()
    timer.cancel()
    with db as conn:
        ctx.equal(sum(conn[keys]), 100 * len(keys), 'final total')
        ctx.saw('transfer', conn[keys])
    db.close()


def register_case(ctx, rng):
    """
    Autocommit operations of threads on a few ids; each update reports the
    value it replaced, so the successful updates of an id must form one chain.
    """
    db = make_db(ctx, rng)
    manager = managers(rng)
    keys = gen.ids(rng, rng.choice([1, 2]))
    log = []
    team = Team(ctx)

    def worker(number, seed):
        mine = random.Random(seed)
        conn = db.open(manager())
        for count in range(25):
            key = mine.choice(keys)
            value = (number, count)
            try:
                previous = conn.update(key, value)
                log.append((key, previous, value))
            except ConflictError:
                ctx.count('thread_conflicts')
            nap(mine)
        conn.close()
    for number in range(4):
        team.add(worker, number, rng.random())
    team.run()
    with db as conn:
        for key in keys:
            replaced = {}
            for other, previous, value in log:
                if other == key:
                    ctx.expect(previous not in replaced,
                               lambda: f'{previous!r} was replaced twice, '
                                       f'by {replaced.get(previous)!r} and '
                                       f'{value!r}')
                    replaced[previous] = value
            current, length = None, 0
            while current in replaced:
                current = replaced[current]
                length += 1
            ctx.equal(length, len(replaced), 'length of the chain of updates')
            ctx.expect(gen.same(conn.read(key), current),
                       f'last value of {key!r}')
            ctx.count('chained', length)
    ctx.saw('register', [entry[2] for entry in log[:20]])
    db.close()


def turns_case(ctx, rng):
    """
    Threads that take turns in a random order, each with a connection and all
    with one thread transaction manager: a block, its end and an operation of
    one thread neither commit nor drop anything of another, and single
    operations are committed while others are in blocks.
    """
    db = make_db(ctx, rng)
    manager = ThreadTransactionManager()
    count = rng.choice([2, 3])
    asked = [queue.Queue() for _ in range(count)]
    answers = queue.Queue()
    watcher = db.open(TransactionManager())
    team = Team(ctx)

    def worker(number):
        conn = db.open(manager)
        try:
            while True:
                call = asked[number].get(timeout=60)
                if call is None:
                    break
                try:
                    answers.put(call(conn))
                except ConflictError as error:
                    answers.put(error)
        except BaseException as error:
            answers.put(error)
            raise
        finally:
            manager.abort()
            conn.close()

    def schedule():
        model, views = {}, [None] * count
        keys = [gen.ids(rng, 3) for _ in range(count)]
        keys = [[f'{number}{key}' for key in mine]
                for number, mine in enumerate(keys)]

        def ask(number, call):
            asked[number].put(call)
            answer = answers.get(timeout=60)
            if isinstance(answer, BaseException):
                if isinstance(answer, ConflictError):
                    # different ids may share a part of the tree
                    ctx.count('turns_conflicts')
                    return answer
                raise answer
            return answer
        try:
            for _ in range(rng.choice([15, 40])):
                number = rng.randrange(count)
                view = views[number]
                key = rng.choice(keys[number])
                value = rng.randrange(1000)
                others = sum(other is not None for other in views)
                if view is None and rng.random() < .4:
                    ctx.step(number, 'begin')
                    ask(number, lambda conn: conn.__enter__() and None)
                    views[number] = dict(model)
                elif view is not None and rng.random() < .3:
                    failing = rng.random() < .4
                    ctx.step(number, 'end', failing)
                    error = LookupError() if failing else None
                    result = ask(number, lambda conn: conn.__exit__(
                        error and LookupError, error, None) and None)
                    if not failing and not result:
                        for other in keys[number]:
                            model.pop(other, None)
                            if other in view:
                                model[other] = view[other]
                    views[number] = None
                else:
                    ctx.step(number, 'update', key, value, view is not None)
                    target = model if view is None else view
                    if rng.random() < .7:
                        if not ask(number, lambda conn: conn.update(key, value)
                                   and None):
                            target[key] = value
                    elif not ask(number, lambda conn: conn.delete(key)
                                 and None):
                        target.pop(key, None)
                    got = ask(number, lambda conn: conn.read(key))
                    ctx.equal(got, target.get(key), 'own view')
                    ctx.count('turns_alone_beside_blocks',
                              view is None and others > 0)
                ctx.count('turns')
                watcher.sync()
                for mine in keys:
                    for key in mine:
                        ctx.equal(watcher.read(key), model.get(key),
                                  f'committed {key!r}')
            ctx.saw('turns', [op[:2] for op in ctx.trace[-12:]])
        finally:
            for box in asked:
                box.put(None)
    for number in range(count):
        team.add(worker, number)
    team.add(schedule)
    team.run()
    watcher.close()
    db.close()


def run(ctx):
    ctx.rule = ('random schedules of transactions of 2-4 connections against '
                'a snapshot model with versions (reads, conflicts, visibility '
                'from a new connection after each step), and threads with '
                'conserved quantities: counters, creation races, transfers, '
                'chains of replaced values; distinct: schedules and outcomes')
    ctx.require(commits=300, conflicts_same_object=50, in_block=1000,
                alone=300, resized=100, increments=100, created=50, create_refused=20,
                moves=40, snapshots=40, chained=100, turns=200,
                turns_alone_beside_blocks=20)
    quick = ctx.quick
    ctx.case(lambda rng: interleaved_case(ctx, rng), 'interleaved',
             400 if quick else 10000, 12 if quick else 600)
    ctx.case(lambda rng: interleaved_case(ctx, rng, True), 'resizing',
             200 if quick else 5000, 12 if quick else 600)
    ctx.case(lambda rng: counter_case(ctx, rng), 'counter',
             12 if quick else 300, 10 if quick else 300)
    ctx.case(lambda rng: create_case(ctx, rng), 'create',
             15 if quick else 400, 10 if quick else 300)
    ctx.case(lambda rng: transfer_case(ctx, rng), 'transfer',
             10 if quick else 300, 10 if quick else 300)
    ctx.case(lambda rng: register_case(ctx, rng), 'register',
             10 if quick else 300, 10 if quick else 300)
    ctx.case(lambda rng: turns_case(ctx, rng), 'turns',
             40 if quick else 800, 8 if quick else 300)
