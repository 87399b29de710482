"""C07: resize and condense in steps, with faults and other connections."""
import shutil
import sys
import threading
import time

import ZODB
import transaction
from ZODB.FileStorage import FileStorage
from ZODB.POSException import ConflictError

import boxes
import gen
from citrine.database.containerdb import ContainerDb
from citrine.storage.transaction import (ThreadTransactionManager,
                                         TransactionManager)

MISSING = boxes.MISSING


class Injected(Exception):
    pass


class HookedManager(TransactionManager):
    """
    Calls back before, inside (before anything is stored) and after every
    commit, whether it is asked of the manager or of one of its transactions
    """
    early = before = after = None

    def begin(self):
        return self.watch(super().begin())

    def get(self):
        return self.watch(super().get())

    def watch(self, txn):
        if 'commit' not in txn.__dict__:
            txn.addBeforeCommitHook(self.call, ('before',))
            commit = txn.commit

            def watched():
                self.call('early')
                commit()
                self.call('after')
            txn.commit = watched
        return txn

    def call(self, name):
        fn = getattr(self, name)
        if fn:
            fn()


def locations(container, pool):
    return {key: tuple(index for index, group in enumerate(container.groups)
                       if group.has_key(key)) for key in pool}


def prepare(ctx, rng, kind='file', pool_sizes=(1, 6, 20), counts=(1, 2, 2, 3),
            shares=(.2, .5, .9)):
    path = ctx.folder() + '/data.fs'
    count = rng.choice(counts)
    container, _ = boxes.some_container(rng, count)
    pool = gen.ids(rng, rng.choice(pool_sizes))
    serial = gen.Serial()
    model = boxes.Model(count)
    boxes.fill(rng, container.groups, model, pool, serial,
               rng.choice(shares))
    db = ContainerDb(path) if kind == 'file' else ContainerDb(None)
    tm = HookedManager()
    conn = db.open(tm)
    conn.root.container = container
    tm.commit()
    return path, db, conn, tm, container, pool, serial, model


def start(ctx, rng, container, tm, stored, moving=.8):
    """a resize or condense with a transaction manager, not yet called"""
    transfer = rng.random() < moving
    if rng.random() < .35:
        ctx.step('condense', transfer)
        return lambda: container.condense(transfer=transfer,
                                          transaction_manager=tm), transfer
    condense = rng.random() < .5
    capacity = rng.choice([max(1, stored), max(1000, stored), 12000])
    largest = rng.choice([5000, 2000])
    ctx.step('resize', capacity, largest, condense, transfer)
    return lambda: container.resize(
        capacity, largest, condense=condense, transfer=transfer,
        transaction_manager=tm), transfer


def steps_case(ctx, rng):
    """every committed state has every object, a step moves at most one"""
    path, db, conn, tm, container, pool, serial, model = prepare(ctx, rng)
    visible = model.visible()
    before_groups = list(container.groups)
    fn, transfer = start(ctx, rng, container, tm, len(visible))
    resized = ctx.trace[-1][0] == 'resize'
    tids = [record.tid for record in db.storage.iterator()]
    old_locations = locations(container, pool)
    tm.commit()
    copies = []

    def copy():
        # what a crash right after this commit leaves on disk
        if rng.random() < .3:
            copies.append(path + f'.{len(copies)}')
            shutil.copy(path, copies[-1])
    tm.after = copy
    removed = fn()
    tm.after = None
    ctx.equal(len(set(map(id, removed))), len(removed), 'groups returned')
    new = [record.tid for record in db.storage.iterator()
           if record.tid not in tids]
    ctx.count('committed_steps', len(new))
    boxes.check_visible(ctx, container, visible, pool, 'finished')
    previous = (id(container), dict(old_locations)) and None
    states = []
    for tid in new:
        historical = db.open(TransactionManager(), at=tid)
        inside = historical.root.container
        boxes.check_visible(ctx, inside, visible, pool,
                            f'state {len(states)} of {len(new)}')
        names = {tuple(c.uuid for c in group.collections): {
            key: (group.get(key),) for key in pool if group.has_key(key)}
            for group in inside.groups}
        states.append(names)
        ctx.count('states_checked')
        historical.close()
    # the moves are individual transactions
    for older, newer in zip(states, states[1:]):
        touched = set()
        for name in set(older) & set(newer):
            touched |= {key for key in set(older[name]) ^ set(newer[name])}
        for name in set(older) - set(newer):
            ctx.equal(list(older[name]), [] if transfer else
                      list(older[name]), 'objects in a group being removed')
        ctx.expect(len(touched) <= 1,
                   lambda: f'one transaction moved {len(touched)} objects')
    # each crash copy
    for name in copies:
        crashed = ContainerDb(name)
        with crashed as fresh:
            boxes.check_visible(ctx, fresh.container, visible, pool,
                                'after a crash')
        crashed.close()
        ctx.count('crash_copies')
    ctx.expect(tm.autocommit, 'autocommit after the operation')
    if transfer:
        for group in removed:
            ctx.equal(list(group.keys()), [], 'removed group')
    if transfer and resized:
        ctx.expect(all(group is not before_groups[0]
                       for group in container.groups),
                   'the old primary group is still there')
    ctx.saw('steps', len(new), old_locations)
    if len(ctx.samples) < 3:
        ctx.sample({'operation': repr(ctx.trace[-1]), 'ids': len(pool),
                    'transactions': len(new)})
    conn.close()
    # what is on disk after a restart, and in use again
    db.close()
    db = ContainerDb(path)
    with db as fresh:
        boxes.check_visible(ctx, fresh.container, visible, pool, 'reopened')
        for key in rng.sample(pool, min(2, len(pool))):
            value = serial(rng)
            fresh.update(key, value)
            visible[key] = value
        boxes.check_visible(ctx, fresh.container, visible, pool, 'written')
    db.close()


def large_case(ctx, rng):
    """the same with many objects or groups, some of which are watched"""
    count = rng.choice([2, 3, 12, 25])
    total = rng.choice([60, 300, 1200])
    db = ContainerDb(None)
    tm = HookedManager()
    conn = db.open(tm)
    container, _ = boxes.some_container(rng, count)
    model = boxes.Model(count)
    for index in range(total):
        key = f'https://example.org/{index}'
        number = rng.randrange(count) if rng.random() < .5 else count - 1
        container.groups[number].insert(key, index)
        model.groups[number][key] = index
    visible = model.visible()
    conn.root.container = container
    tm.commit()
    peer = db.open(TransactionManager())
    steps = 0

    def watch():
        nonlocal steps
        steps += 1
        if steps % 10 == 1:
            peer.sync()
            probes = rng.sample(list(visible), min(10, len(visible)))
            boxes.check_visible(ctx, peer.container, visible, probes,
                                f'step {steps}')
            ctx.count('large_states')
    tm.after = watch
    fn, transfer = start(ctx, rng, container, tm, len(visible))
    removed = fn()
    tm.after = None
    boxes.check_visible(ctx, container, visible, visible, 'finished')
    for group in removed:
        ctx.equal(list(group.keys()), [], 'removed group')
    ctx.expect(steps >= len(removed), f'{steps} transactions')
    fresh = db.open(TransactionManager())
    boxes.check_visible(ctx, fresh.container, visible, visible, 'elsewhere')
    if ctx.trace[-1][0] == 'condense':
        ctx.equal(sorted(fresh.container.primary.keys()), sorted(visible),
                  'ids in the group')
    fresh.close()
    ctx.count('large')
    ctx.count('large_steps', steps)
    ctx.saw('large', count, total, steps)
    peer.close()
    conn.close()
    db.close()


def fault_case(ctx, rng):
    """the commit number n fails, the operation is resumed later"""
    path, db, conn, tm, container, pool, serial, model = prepare(ctx, rng)
    visible = model.visible()
    fn, transfer = start(ctx, rng, container, tm, len(visible))
    count = 0
    failing = rng.randint(1, rng.choice([3, 10, 2 * len(pool) + 3]))
    late = rng.choice(['early', 'before', 'after', 'after'])

    def hook():
        nonlocal count
        count += 1
        if count == failing:
            raise Injected()
    setattr(tm, late, hook)
    try:
        fn()
        ctx.count('not_reached')
    except Injected:
        ctx.count('faults')
    tm.early = tm.before = tm.after = None
    tm.abort()
    ctx.step('fault', failing, late)
    ctx.expect(tm.autocommit, 'autocommit after a failed commit')
    boxes.check_visible(ctx, container, visible, pool, 'after the fault')
    name = path + '.crash'
    shutil.copy(path, name)
    crashed = ContainerDb(name)
    with crashed as fresh:
        boxes.check_visible(ctx, fresh.container, visible, pool,
                            'on disk after the fault')
    crashed.close()
    for key in rng.sample(pool, min(2, len(pool))):
        if rng.random() < .5:
            value = serial(rng)
            conn.update(key, value)
            visible[key] = value
        else:
            conn.delete(key)
            visible.pop(key, None)
    container.condense(transaction_manager=tm)
    ctx.equal(len(container.groups), 1, 'groups after condensing again')
    boxes.check_visible(ctx, container, visible, pool, 'after resuming')
    ctx.equal(sorted(container.primary.keys()), sorted(visible),
              'ids after resuming')
    other = db.open(TransactionManager())
    boxes.check_visible(ctx, other.container, visible, pool, 'other')
    other.close()
    ctx.saw('fault', failing, late, sorted(visible))
    conn.close()
    db.close()


def concurrent_case(ctx, rng, close=False):
    """
    other connections read, write and delete between and inside the steps;
    close: mostly the very object the step is about, in one of many groups
    """
    more = dict(pool_sizes=(4, 8), counts=(3, 4, 5), shares=(.15, .25)) \
        if close else {}
    _, db, conn, tm, container, pool, serial, model = prepare(
        ctx, rng, 'memory', **more)
    visible = model.visible()
    share = .7 if close else rng.choice([.1, .3, .8])
    inside = close or rng.random() < .5
    known = {(id(container.primary), key) for key in container.primary.keys()}
    peers = []
    for _ in range(2):
        peer_tm = TransactionManager()
        peer_tm.autocommit = False
        peers.append([peer_tm, db.open(peer_tm), {}])

    def act():
        """one action of another connection, each may keep its snapshot"""
        if rng.random() > share:
            return
        peer = rng.choice(peers)
        peer_tm, peer_conn, pending = peer
        if not pending and rng.random() < .6:
            peer_tm.begin()
        # what the running step is about to move or copy
        current = [key for key in container.primary.keys()
                   if (id(container.primary), key) not in known]
        for _ in range(rng.choice([1, 1, 2])):
            key = rng.choice(pool)
            if current and rng.random() < (.9 if close else .5):
                key = rng.choice(current)
                ctx.count('current')
            kind = rng.random()
            if kind < (.3 if close else .5):
                value = serial(rng)
                ctx.step('peer writes', peers.index(peer), key, value)
                peer_conn.update(key, value)
                pending[key] = (value,)
            elif kind < .75:
                ctx.step('peer deletes', peers.index(peer), key)
                # an object its snapshot does not show it does not delete
                if peer_conn.delete(key):
                    pending[key] = None
            elif kind > .92:
                # resized by somebody else as well
                condense = rng.random() < .5
                ctx.step('peer resizes', peers.index(peer), condense)
                if rng.random() < .5:
                    peer_conn.container.resize(12000, 5000, condense=condense)
                else:
                    peer_conn.container.condense()
                ctx.count('peer_resizes')
        if close or rng.random() < .7:
            ctx.step('peer commits', peers.index(peer))
            try:
                peer_tm.commit()
            except ConflictError:
                ctx.count('peer_conflicts')
                peer_tm.abort()
            else:
                if pending:
                    ctx.count('peer_commits')
                for key, value in pending.items():
                    if value is None:
                        visible.pop(key, None)
                    else:
                        visible[key] = value[0]
            pending.clear()
            peer_tm.begin()
        fresh = db.open(TransactionManager())
        boxes.check_visible(ctx, fresh.container, visible, pool,
                            'state seen during the operation')
        fresh.close()
        ctx.count('concurrent_audits')

    def step():
        act()
        if inside:
            known.update((id(container.primary), key)
                         for key in container.primary.keys())

    fn, transfer = start(ctx, rng, container, tm, len(visible),
                         .2 if close else .6)
    setattr(tm, 'before' if inside else 'after', step)
    if rng.random() < .5:
        act()
    tm.begin()
    try:
        fn()
    except ConflictError:
        ctx.count('operation_conflicts')
        tm.abort()
    except ValueError as error:
        # more objects than fit by now
        if 'resize' not in str(error):
            raise
    tm.before = tm.after = None
    for peer_tm, peer_conn, _ in peers:
        peer_tm.abort()
    tm.begin()
    boxes.check_visible(ctx, container, visible, pool, 'after the operation')
    container.condense(transaction_manager=tm)
    boxes.check_visible(ctx, container, visible, pool, 'condensed')
    ctx.equal(sorted(container.primary.keys()), sorted(visible), 'all ids')
    ctx.saw('concurrent', sorted(visible), len(ctx.trace))
    for _, peer_conn, _ in peers:
        peer_conn.close()
    conn.close()
    db.close()


def threads_case(ctx, rng):
    """real threads use the database while it is resized"""
    path, db, conn, tm, container, pool, serial, model = prepare(
        ctx, rng, rng.choice(['file', 'memory']), (30, 60))
    tm.after = lambda: time.sleep(.0003)
    fixed = {key: value for key, value in model.visible().items()}
    own = [[f'w{number}-{n}' for n in range(12)] for number in range(3)]
    acked = [{} for _ in own]
    errors = []
    done = threading.Event()

    def reader():
        peer = db.open(TransactionManager())
        probes = list(fixed)
        while not done.is_set():
            peer.sync()
            for key in probes:
                got = peer.read(key, MISSING)
                if not gen.same(got, fixed[key]):
                    errors.append(f'read({key!r}) is {boxes.show(got)}, '
                                  f'expected {fixed[key]!r}')
                    return
            ctx.count('thread_reads', len(probes))
        peer.close()

    def writer(number):
        import random
        mine = random.Random(f'{rng.case_index}:{number}')
        peer = db.open(TransactionManager())
        counter = 0
        while not done.is_set():
            key = mine.choice(own[number])
            counter += 1
            try:
                if mine.random() < .75:
                    peer.update(key, counter)
                    acked[number][key] = counter
                else:
                    peer.delete(key)
                    acked[number].pop(key, None)
                ctx.count('thread_writes')
            except ConflictError:
                ctx.count('thread_conflicts')
                peer.transaction_manager.abort()
                continue
            peer.sync()
            got = peer.read(key)
            if got != acked[number].get(key):
                errors.append(f'{key!r} reads {got!r} after writing '
                              f'{acked[number].get(key)!r}')
                return
        peer.close()

    def wrapped(fn, *args):
        try:
            fn(*args)
        except BaseException as error:
            errors.append(repr(error))
    threads = [threading.Thread(target=wrapped, args=(reader,), daemon=True)]
    threads += [threading.Thread(target=wrapped, args=(writer, number),
                                 daemon=True) for number in range(3)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-5)
    try:
        for thread in threads:
            thread.start()
        for _ in range(3):
            try:
                container.resize(rng.choice([2000, 12000]), 2000,
                                 condense=rng.random() < .5,
                                 transaction_manager=tm)
                ctx.count('thread_resizes')
            except ConflictError:
                ctx.count('thread_resize_conflicts')
                tm.abort()
                for _ in range(20):
                    try:
                        container.condense(transaction_manager=tm)
                        ctx.count('thread_condenses')
                        break
                    except ConflictError:
                        tm.abort()
        done.set()
        for thread in threads:
            thread.join(60)
    finally:
        done.set()
        sys.setswitchinterval(old)
    ctx.expect(not errors, lambda: '; '.join(errors[:3]))
    tm.after = None
    tm.begin()
    wanted = dict(fixed)
    for values in acked:
        wanted.update(values)
    probes = list(wanted) + [key for keys in own for key in keys]
    boxes.check_visible(ctx, container, wanted, probes, 'after the threads')
    ctx.saw('threads', sorted(wanted.items(), key=lambda pair: pair[0]))
    conn.close()
    db.close()


def managers_case(ctx, rng):
    """every transaction manager a connection can have"""
    db = ContainerDb(None)
    kind = rng.choice(['thread', 'default', 'plain', 'own'])
    tm = {'thread': ThreadTransactionManager, 'default': lambda: None,
          'plain': transaction.TransactionManager,
          'own': TransactionManager}[kind]()
    conn = db.open(tm) if kind != 'plain' else ZODB.DB.open(db, tm)
    container, groups = boxes.some_container(rng, 2)
    pool = gen.ids(rng, 8)
    model = boxes.Model(2)
    boxes.fill(rng, container.groups, model, pool, gen.Serial())
    conn.root.container = container
    conn.transaction_manager.commit()
    visible = model.visible()
    ctx.step(kind)
    container.resize(500, transaction_manager=conn.transaction_manager)
    container.condense(transaction_manager=conn.transaction_manager)
    fresh = db.open(TransactionManager())
    boxes.check_visible(ctx, fresh.container, visible, pool, kind)
    ctx.equal(len(fresh.container.groups), 1, f'groups with {kind}')
    fresh.close()
    conn.close()
    db.close()
    ctx.count('managers')
    ctx.saw(kind, sorted(visible))


def run(ctx):
    ctx.rule = ('resize and condense with a transaction manager: every state '
                'committed on the way (historical connections, copies of the '
                'file), a failing commit at each position and resuming, other '
                'connections acting between and inside the steps, and threads;'
                ' distinct: (transactions, ids)')
    ctx.require(committed_steps=400, states_checked=400, crash_copies=50,
                faults=40, peer_commits=100, concurrent_audits=300,
                thread_reads=500, thread_writes=50, large=4, managers=10)
    quick = ctx.quick
    ctx.case(lambda rng: steps_case(ctx, rng), 'steps',
             150 if quick else 2000, 15 if quick else 500)
    ctx.case(lambda rng: large_case(ctx, rng), 'large',
             14 if quick else 200, 30 if quick else 500)
    ctx.case(lambda rng: fault_case(ctx, rng), 'fault',
             300 if quick else 4000, 15 if quick else 500)
    ctx.case(lambda rng: concurrent_case(ctx, rng), 'concurrent',
             500 if quick else 6000, 15 if quick else 500)
    ctx.case(lambda rng: concurrent_case(ctx, rng, True), 'close',
             250 if quick else 4000, 15 if quick else 400)
    ctx.case(lambda rng: threads_case(ctx, rng), 'threads',
             6 if quick else 150, 20 if quick else 500)
    ctx.case(lambda rng: managers_case(ctx, rng), 'managers',
             20 if quick else 200)
