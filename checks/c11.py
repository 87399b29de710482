"""C11: acknowledged operations survive crashes, recovery is a prefix."""
import json
import os
import shutil
import signal
import subprocess
import sys
import time

import gen
from citrine.database.containerdb import ContainerDb
from citrine.storage.transaction import TransactionManager

MISSING = object()
HERE = os.path.dirname(os.path.abspath(__file__))


def content(conn):
    found = {}
    for group in reversed(conn.container.groups):
        found.update(group.items())
    return found


def same_content(got, wanted):
    return len(got) == len(wanted) and all(
        key in got and gen.same(got[key], value)
        for key, value in wanted.items())


def check_usable(ctx, db, conn, wanted, what):
    """reads agree and the database accepts work"""
    for key, value in wanted.items():
        got = conn.read(key, MISSING)
        ctx.expect(gen.same(got, value), lambda: f'{what}: {key!r} is '
                                                 f'{got!r}, expected '
                                                 f'{value!r}')
    conn.update('after recovery', 'x')
    with db as other:
        ctx.equal(other.read('after recovery'), 'x', f'{what}: new write')
    conn.delete('after recovery')
    if len(conn.container.groups) == 1:
        ctx.equal(conn.container.size, len(wanted), f'{what}: size')


def reopened(ctx, rng, path):
    """the file opened in one of the ways there are"""
    way = rng.randrange(6)
    ctx.count(f'opened_{way}')
    if way == 0:
        return ContainerDb.new(path)
    if way == 1:
        return ContainerDb(ContainerDb.create(path))
    if way == 2:
        return ContainerDb.load(ContainerDb.create(path, capacity=7000))
    if way == 3:
        return ContainerDb.load(path)
    return ContainerDb(path)


def truncate_case(ctx, rng):
    """the file ends at an arbitrary byte"""
    folder = ctx.folder()
    path = folder + '/db'
    capacity = rng.choice([1, 100, 30000])
    db = ContainerDb.new(path, capacity=capacity) if rng.random() < .6 else \
        ContainerDb(path)
    conn = db.open(TransactionManager())
    pool = gen.ids(rng, rng.choice([3, 10, 30]))
    serial = gen.Serial()
    model = {}
    # (file size when it was acknowledged, content)
    states = [(os.path.getsize(path), {})]
    for _ in range(rng.choice([5, 15, 30])):
        kind = rng.random()
        if kind < .6:
            key, value = rng.choice(pool), serial(rng)
            ctx.step('update', key, value)
            conn.update(key, value)
            model[key] = value
        elif kind < .75:
            key = rng.choice(pool)
            ctx.step('delete', key)
            conn.delete(key)
            model.pop(key, None)
        elif kind < .9:
            new = {rng.choice(pool): serial(rng)
                   for _ in range(rng.randint(1, 5))}
            ctx.step('block', new)
            with conn:
                for key, value in new.items():
                    conn.update(key, value)
            model.update(new)
        elif kind < .95:
            ctx.step('failed block')
            try:
                with conn:
                    conn.update(rng.choice(pool), 'never')
                    raise LookupError
            except LookupError:
                pass
        else:
            ctx.step('resize')
            conn.container.resize(
                max(rng.choice([10, 9000]), len(model)),
                transaction_manager=conn.transaction_manager)
        states.append((os.path.getsize(path), dict(model)))
    conn.close()
    db.close()
    size = os.path.getsize(path)
    cuts = {size}
    for position, _ in states:
        for offset in (-1, 0, 1):
            cuts.add(position + offset)
    for _ in range(12):
        cuts.add(rng.randint(states[0][0], size))
    cuts = [cut for cut in cuts if states[0][0] <= cut <= size]
    if ctx.quick:
        cuts = rng.sample(cuts, min(len(cuts), 14))
    # a database of which only a part was created is none yet (the storage
    # itself needs the four bytes that tell its format)
    creation = {0, 4, states[0][0] - 1}
    creation.update(rng.randrange(4, states[0][0]) for _ in range(2))
    cuts = [*creation, *cuts]
    for cut in cuts:
        copy = folder + f'/cut{cut}'
        with open(path, 'rb') as reader, open(copy, 'wb') as writer:
            writer.write(reader.read(cut))
        wanted = [{}, *(state for position, state in states
                        if position <= cut)][-1]
        if cut < states[0][0]:
            ctx.count('cuts_in_creation')
        db = reopened(ctx, rng, copy)
        conn = db.open(TransactionManager())
        got = content(conn)
        ok = same_content(got, wanted)
        ctx.expect(ok, lambda: f'cut at {cut} of {size}: recovered '
                               f'{got!r}, acknowledged {wanted!r}')
        check_usable(ctx, db, conn, wanted, f'cut at {cut} of {size}')
        conn.close()
        db.close()
        for name in os.listdir(folder):
            if name.startswith(f'cut{cut}'):
                os.remove(os.path.join(folder, name))
        ctx.count('cuts')
        ctx.count('cuts_between' if cut not in [p for p, _ in states]
                  else 'cuts_at_end')
        ctx.saw('cut', cut, sorted(wanted))
    if len(ctx.samples) < 2:
        ctx.sample({'file': size, 'acknowledged': [p for p, _ in states][:8],
                    'cuts': sorted(cuts)[:8]})


WORKER = r'''
import json, logging, os, random, sys
logging.disable(logging.CRITICAL)
repo, path, seed = sys.argv[1:4]
sys.path.insert(0, repo)
from citrine.database.containerdb import ContainerDb
from citrine.storage.transaction import TransactionManager
rng = random.Random(seed)
db = ContainerDb(path)
conn = db.open(TransactionManager())
out = sys.stdout
def say(*what):
    out.write(json.dumps(what) + '\n')
    out.flush()
say('start')
n = 0
while True:
    n += 1
    kind = rng.random()
    if kind < .7:
        key, value = f'k{rng.randrange(15)}', n
        say('try', {key: value})
        conn.update(key, value)
    elif kind < .8:
        key = f'k{rng.randrange(15)}'
        say('try', {key: None})
        conn.delete(key)
    elif kind < .97:
        new = {f'k{rng.randrange(15)}': n for _ in range(4)}
        say('try', new)
        with conn:
            for key, value in new.items():
                conn.update(key, value)
    else:
        say('try', {})
        conn.container.resize(rng.choice([100, 8000]),
                              transaction_manager=conn.transaction_manager)
    say('done')
'''


def kill_case(ctx, rng):
    """a process is killed at an arbitrary moment, several times in a row"""
    folder = ctx.folder()
    path = folder + '/db'
    model = {}
    for round_ in range(rng.choice([1, 2, 3])):
        log = f'{folder}/log{round_}'
        with open(log, 'w') as out, open(log + '.err', 'w') as err:
            process = subprocess.Popen(
                [sys.executable, '-B', '-c', WORKER,
                 os.path.dirname(os.path.dirname(os.path.abspath(
                     sys.modules['citrine'].__file__))), path,
                 f'{ctx.seed}:{rng.case_index}:{round_}'],
                stdout=out, stderr=err)
        begin = time.monotonic()
        while not os.path.getsize(log) and process.poll() is None \
                and time.monotonic() - begin < 60:
            time.sleep(.005)
        time.sleep(rng.choice([.01, .05, .15, .3]))
        process.send_signal(signal.SIGKILL)
        process.wait()
        with open(log) as reader:
            output = reader.read()
        with open(log + '.err') as reader:
            error = reader.read()
        ctx.expect(process.returncode == -signal.SIGKILL and output,
                   lambda: f'the process failed: {error[-1500:]}')
        last = None
        for line in output.split('\n'):
            try:
                entry = json.loads(line)
            except ValueError:
                continue
            if entry[0] == 'try':
                last = entry[1]
            elif entry[0] == 'done':
                apply(model, last)
                last = None
                ctx.count('killed_acknowledged')
        also = dict(model)
        if last is not None:
            apply(also, last)
            ctx.count('killed_in_operation')
        for name in (path + '.lock', path + '.tmp'):
            if os.path.exists(name):
                os.remove(name)
        db = reopened(ctx, rng, path)
        conn = db.open(TransactionManager())
        got = content(conn)
        ctx.expect(got == model or got == also,
                   lambda: f'recovered {got!r}, acknowledged {model!r}, '
                           f'in progress {last!r}')
        if got != model:
            ctx.count('unacknowledged_kept')
        model = got
        check_usable(ctx, db, conn, model, 'after kill -9')
        conn.close()
        db.close()
        ctx.count('kills')
        ctx.saw('kill', sorted(model.items()))


def apply(model, change):
    for key, value in (change or {}).items():
        if value is None:
            model.pop(key, None)
        else:
            model[key] = value


def abandon_case(ctx, rng):
    """copies of the file taken while it is in use, without closing"""
    folder = ctx.folder()
    path = folder + '/db'
    db = ContainerDb(path)
    conn = db.open(TransactionManager())
    model = {}
    pool = gen.ids(rng, 6)
    serial = gen.Serial()
    for number in range(8):
        key, value = rng.choice(pool), serial(rng)
        conn.update(key, value)
        model[key] = value
        pending = rng.random() < .5
        if pending:
            conn.autocommit = False
            conn.update(rng.choice(pool), 'uncommitted')
        copy = f'{folder}/copy{number}'
        shutil.copy(path, copy)
        if pending:
            conn.transaction_manager.abort()
            conn.autocommit = True
        twin = reopened(ctx, rng, copy)
        with twin as other:
            got = content(other)
            ctx.expect(same_content(got, model),
                       lambda: f'copy holds {got!r}, expected {model!r}')
        twin.close()
        ctx.count('copies')
        ctx.saw('copy', sorted(model))
    conn.close()
    db.close()


def run(ctx):
    ctx.rule = ('a database file cut at arbitrary bytes and at every end of '
                'an acknowledged operation and next to it, processes killed '
                'with SIGKILL while working, copies of files in use; the '
                'recovered content is the acknowledged one and the database '
                'works on; distinct: (cut, ids) and recovered contents')
    ctx.assumptions = ['a crash loses a suffix of the data file '
                       '(append-only storage); reordering of writes within '
                       'the disk is outside of this code']
    ctx.require(cuts=150, cuts_between=50, cuts_at_end=20, cuts_in_creation=50, kills=5,
                killed_acknowledged=20, copies=40)
    quick = ctx.quick
    ctx.case(lambda rng: truncate_case(ctx, rng), 'truncate',
             30 if quick else 500, 20 if quick else 900)
    ctx.case(lambda rng: kill_case(ctx, rng), 'kill',
             8 if quick else 150, 25 if quick else 900)
    ctx.case(lambda rng: abandon_case(ctx, rng), 'abandon',
             15 if quick else 300, 10 if quick else 200)
