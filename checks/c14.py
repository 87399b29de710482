"""C14: a database as a context gives each block its own connection."""
import os
import queue
import threading

from ZODB.POSException import ConflictError

import gen
from citrine.database.containerdb import ContainerDb
from citrine.exceptions import ObjectOverwriteError

MISSING = object()


class Boom(Exception):
    pass


class Worker(threading.Thread):
    """runs one function after the other, while the caller waits"""

    def __init__(self):
        super().__init__(daemon=True)
        self.todo = queue.Queue()
        self.done = queue.Queue()
        self.start()

    def run(self):
        while True:
            fn = self.todo.get()
            if fn is None:
                return
            try:
                self.done.put((fn(), None))
            except BaseException as error:
                self.done.put((None, error))

    def __call__(self, fn):
        self.todo.put(fn)
        value, error = self.done.get(timeout=60)
        if error is not None:
            raise error
        return value


def seen(db):
    """the committed content, in a connection of its own"""
    conn = db.open()
    try:
        return dict(conn.container.primary.items())
    finally:
        conn.close()


def schedule_case(ctx, rng):
    """blocks of several threads entered and left in any order"""
    path = os.path.join(ctx.folder(), 'db')
    db = ContainerDb(path if rng.random() < .3 else None,
                     pool_size=rng.choice([1, 3, 7]))
    threads = [Worker() for _ in range(rng.choice([1, 2, 3]))]
    stacks = [[] for _ in threads]      # (connection, pending changes or None)
    model = {}
    serial = gen.Serial()
    pool = gen.ids(rng, 8)
    closed = []

    def opened():
        return [conn for stack in stacks for conn, _ in stack]

    def audit(what):
        for conn in opened():
            ctx.expect(conn.opened is not None,
                       f'{what}: a connection of another block was closed')
        for conn in closed:
            # connections are reused
            if all(conn is not other for other in opened()):
                ctx.expect(conn.opened is None,
                           f'{what}: a connection that was closed is open')
        got = seen(db)
        ctx.equal(sorted(got), sorted(model), f'{what}: committed ids')
        for key, value in model.items():
            ctx.expect(gen.same(got[key], value),
                       f'{what}: committed {key!r}')

    for _ in range(rng.choice([15, 40])):
        index = rng.randrange(len(threads))
        thread, stack = threads[index], stacks[index]
        op = rng.choice(['enter'] * 3 + ['leave'] * 2 + ['fail'] * 2
                        + ['write'] * 4 + ['pending'] * 2 + ['create'])
        ctx.step(op, index, [len(s) for s in stacks])
        if op == 'enter':
            if len(stack) >= 4:
                continue
            before = opened()
            conn = thread(db.__enter__)
            ctx.expect(all(conn is not other for other in before),
                       'a block got the connection of another one')
            ctx.expect(conn.opened is not None, 'connection of a new block')
            ctx.equal(conn.autocommit, True, 'autocommit in a new block')
            stack.append([conn, None])
            ctx.peak('deepest', len(stack))
            ctx.peak('together', len(before) + 1)
            ctx.count('entered')
        elif not stack:
            continue
        elif op == 'leave':
            conn, pending = stack[-1]
            if pending is not None:
                thread(conn.transaction_manager.commit)
                model.update(pending)
            result = thread(lambda: db.__exit__(None, None, None))
            ctx.expect(not result, 'a block must not swallow exceptions')
            stack.pop()
            closed.append(conn)
            ctx.expect(conn.opened is None, 'left block, connection is open')
            ctx.count('left')
        elif op == 'fail':
            conn, pending = stack.pop()
            error = rng.choice([Boom('x'), KeyboardInterrupt(), SystemExit(),
                                ConflictError(), KeyError('k')])
            result = thread(lambda: db.__exit__(type(error), error, None))
            ctx.expect(not result, lambda: f'{error!r} was swallowed')
            closed.append(conn)
            ctx.expect(conn.opened is None,
                       lambda: f'left by {error!r}, connection is open')
            ctx.count('failed')
            if pending is not None:
                ctx.count('dropped')
        elif op == 'write':
            conn, pending = rng.choice(stack)
            key, value = rng.choice(pool), serial(rng)
            if pending is not None:
                thread(lambda: conn.update(key, value))
                pending[key] = value
            elif any(p is not None for s in stacks for _, p in s):
                continue        # would conflict
            else:
                thread(lambda: conn.update(key, value))
                model[key] = value
                ctx.expect(gen.same(thread(lambda: conn.read(key)), value),
                           'own write')
            ctx.count('written')
        elif op == 'create':
            conn, pending = stack[-1]
            if pending is not None:
                continue
            key = rng.choice(pool)
            if key in model:
                ctx.raises(ObjectOverwriteError,
                           lambda: thread(lambda: conn.create(key, 0)),
                           'creating an existing id')
        elif op == 'pending':
            # only one at a time, so that nothing conflicts
            if any(p is not None for s in stacks for _, p in s):
                continue
            conn = stack[-1][0]
            key, value = rng.choice(pool), serial(rng)

            def begin():
                conn.autocommit = False
                conn.transaction_manager.begin()
                conn.update(key, value)
            thread(begin)
            stack[-1][1] = {key: value}
        audit(op)
        ctx.saw(op, index, [len(s) for s in stacks], sorted(model))
    for thread, stack in zip(threads, stacks):
        while stack:
            conn, _ = stack.pop()
            thread(lambda: db.__exit__(Boom, Boom(), None))
            ctx.expect(conn.opened is None, 'last blocks')
        thread.todo.put(None)
    audit('at the end')
    for info in db.connectionDebugInfo():
        ctx.expect(info['opened'] is None,
                   lambda: f'a connection was left open: {info}')
    db.close()
    if len(ctx.samples) < 2:
        ctx.sample([repr(op) for op in ctx.trace[:10]])


def nested_case(ctx, rng):
    """real nested with statements, exceptions caught at any level"""
    db = ContainerDb(None)
    model = {}
    serial = gen.Serial()
    pool = gen.ids(rng, 6)
    left = [rng.choice([3, 8, 20])]

    def block(depth):
        error = Boom(depth, left[0])
        fail = rng.random() < .4
        inner_block = rng.random() < .4
        expected = None
        conn = None
        try:
            with db as conn:
                ctx.peak('nested', depth)
                for _ in range(rng.choice([0, 1, 2])):
                    key, value = rng.choice(pool), serial(rng)
                    conn.update(key, value)
                    model[key] = value
                if left[0] > 0 and depth < 6 and rng.random() < .7:
                    left[0] -= 1
                    try:
                        block(depth + 1)
                    except Boom as inner:
                        if rng.random() < .5:
                            expected = inner
                            raise
                ctx.expect(conn.opened is not None,
                           'the connection closed before its block ended')
                key, value = rng.choice(pool), serial(rng)
                if inner_block:
                    with conn:
                        conn.update(key, value)
                        if fail:
                            expected = error
                            raise error
                    model[key] = value
                else:
                    conn.update(key, value)
                    model[key] = value
                    if fail:
                        expected = error
                        raise error
        except Boom as got:
            ctx.expect(got is expected, 'another exception arrived')
            ctx.count('raised')
            raise
        else:
            ctx.expect(expected is None, 'an exception was swallowed')
        finally:
            if conn is not None:
                ctx.expect(conn.opened is None,
                           'the connection is open after its block')
                ctx.count('blocks')
    while left[0] > 0:
        left[0] -= 1
        try:
            block(1)
        except Boom:
            pass
        got = seen(db)
        ctx.equal(sorted(got), sorted(model), 'committed ids')
        for key, value in model.items():
            ctx.expect(gen.same(got[key], value),
                       lambda: f'committed {key!r}: {got[key]!r}, expected '
                               f'{value!r}')
    ctx.saw('nested', sorted(model))
    for info in db.connectionDebugInfo():
        ctx.expect(info['opened'] is None, 'a connection was left open')
    db.close()


def stress_case(ctx, rng):
    """free running threads, each block adds one to a counter of its own"""
    db = ContainerDb(None)
    count = rng.choice([2, 4, 6])
    rounds = 12
    with db as conn:
        for n in range(count):
            conn.create(f'n{n}', 0)
    errors = []
    in_use = set()
    lock = threading.Lock()
    gate = threading.Barrier(count)

    def work(n, seed):
        import random
        mine = random.Random(seed)
        gate.wait()
        done = 0
        while done < rounds:
            try:
                with db as outer:
                    with lock:
                        if id(outer) in in_use:
                            errors.append('a connection was given twice')
                        in_use.add(id(outer))
                    try:
                        with db as inner:
                            if inner is outer:
                                errors.append('inner is outer')
                            inner.update(f'n{n}', done + 1)
                        done += 1
                        if inner.opened is not None and \
                                id(inner) not in in_use and count == 1:
                            errors.append('inner open')
                        if outer.opened is None:
                            errors.append('outer was closed')
                        if mine.random() < .3:
                            raise Boom()
                    finally:
                        with lock:
                            in_use.discard(id(outer))
            except (Boom, ConflictError):
                ctx.count('stress_retries')
            except BaseException as error:
                errors.append(repr(error))
                return
    threads = [threading.Thread(target=work, args=(n, rng.random()),
                                daemon=True) for n in range(count)]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join(100)
    ctx.expect(not errors, lambda: f'in threads: {errors[:3]}')
    ctx.expect(not any(thread.is_alive() for thread in threads),
               'a thread did not finish')
    got = seen(db)
    ctx.equal(got, {f'n{n}': rounds for n in range(count)}, 'counters')
    for info in db.connectionDebugInfo():
        ctx.expect(info['opened'] is None, 'a connection was left open')
    ctx.count('stress_blocks', count * rounds)
    db.close()


def run(ctx):
    ctx.rule = ('blocks on one database entered, used, left normally and by '
                'exceptions in every order by 1-3 threads under a scheduler; '
                'nested with statements with exceptions caught at every '
                'level; free running threads; after each step every '
                'connection is asked whether it is open and the committed '
                'content is compared; distinct: (step, depths, ids)')
    ctx.require(entered=300, left=80, failed=80, dropped=15, together=4,
                deepest=3, blocks=200, raised=60, stress_blocks=100)
    quick = ctx.quick
    ctx.case(lambda rng: schedule_case(ctx, rng), 'schedule',
             150 if quick else 4000, 12 if quick else 400)
    ctx.case(lambda rng: nested_case(ctx, rng), 'nested',
             150 if quick else 3000, 8 if quick else 200)
    ctx.case(lambda rng: stress_case(ctx, rng), 'stress',
             12 if quick else 300, 10 if quick else 200)
