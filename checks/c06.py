"""C06: resize and condense keep every object."""
import ZODB

import boxes
import gen
from citrine.storage.collection import CollectionCapacityError
from citrine.storage.container import Container
from citrine.storage.group import Group, GroupCapacityError
from citrine.storage.transaction import TransactionManager

FULL = (CollectionCapacityError, GroupCapacityError)


def prime(number):
    return number > 0 and all(number % other for other in
                              range(2, int(number ** .5) + 1))


def check_new_primary(ctx, container, old, capacity, largest, what):
    primary = container.primary
    ctx.expect(all(primary is not group for group in old),
               f'{what}: the primary group was not replaced')
    ctx.expect(primary.max_size >= capacity,
               lambda: f'{what}: new capacity {primary.max_size} < {capacity}')
    ctx.equal(container.capacity, primary.max_size, f'{what}: capacity')
    ctx.expect(prime(len(primary.collections)),
               lambda: f'{what}: {len(primary.collections)} collections')
    if largest is not None:
        ctx.expect(all(collection.max_size <= largest
                       for collection in primary.collections),
                   lambda: f'{what}: collections larger than {largest}: '
                           f'{[c.max_size for c in primary.collections]}')


def same_groups(ctx, got, wanted, what):
    got = list(got)
    ctx.expect(len(got) == len(wanted)
               and all(a is b for a, b in zip(got, wanted)),
               lambda: f'{what}: {len(got)} groups, expected the '
                       f'{len(wanted)} given ones in their order')


def one_case(ctx, rng, persisted=False):
    count = rng.choice([1, 2, 2, 3, 4])
    container, _ = boxes.some_container(rng, count)
    groups = list(container.groups)
    pool = gen.ids(rng, rng.choice([1, 5, 20, 70]))
    serial = gen.Serial()
    model = boxes.Model(len(groups))
    boxes.fill(rng, groups, model, pool, serial, rng.choice([0, .1, .4, .8]))
    if persisted:
        db = ZODB.DB(None)
        tm = TransactionManager()
        conn = db.open(tm)
        conn.root()['c'] = container
        tm.commit()
        ctx.count('persisted')
    for _ in range(rng.choice([1, 1, 2, 3])):
        before = list(container.groups)
        visible = model.visible()
        transfer = rng.random() < .7
        stepwise = {}
        if rng.random() < .4:
            stepwise['transaction_manager'] = \
                tm if persisted else TransactionManager()
            ctx.count('stepwise')
        if rng.random() < .4:
            ctx.step('condense', transfer, model.copy().groups)
            args = {} if transfer and rng.random() < .5 else \
                {'transfer': transfer}
            args.update(stepwise)
            removed = container.condense(**args)
            sources = before[1:]
            what = f'condense(transfer={transfer})'
            ctx.expect(container.primary is before[0], f'{what}: primary')
            target = model.groups[0]
            first_source = 1
            condensed = len(before)
        else:
            stored = len(visible)
            capacity = rng.choice([stored, stored + 1, stored + 30, 3 * stored,
                                   max(stored, 1000), 12000])
            if capacity < 1:
                capacity = 1
            largest = rng.choice([None, 5000, 1000, 50])
            condense = rng.random() < .4
            kwargs = {'capacity': capacity}
            if largest is not None:
                kwargs['max_collection_size'] = largest
            if condense or rng.random() < .3:
                kwargs['condense'] = condense
            if not transfer or rng.random() < .3:
                kwargs['transfer'] = transfer
            ctx.step('resize', kwargs, model.copy().groups)
            what = f'resize({kwargs})'
            removed = container.resize(**kwargs, **stepwise)
            check_new_primary(ctx, container, before, capacity,
                              largest or 5000, what)
            model.groups.insert(0, {})
            sources = before if condense else before[:1]
            target = model.groups[0]
            first_source = 1
            condensed = 1 + len(sources)
        ctx.count('condense' if what.startswith('c') else 'resize')
        # the model: the first group that has an object is the one that counts
        for held in model.groups[first_source:condensed]:
            for key, value in held.items():
                target.setdefault(key, value)
        if transfer:
            same_groups(ctx, removed, sources, f'{what}: groups returned')
            for group in removed:
                ctx.equal(list(group.keys()), [], f'{what}: removed group')
            del model.groups[first_source:condensed]
            rest = [group for group in before
                    if all(group is not other for other in sources)
                    and group is not container.primary]
            same_groups(ctx, container.groups, [container.primary] + rest,
                        f'{what}: groups left')
            if sources:
                ctx.count('groups_removed', len(sources))
        else:
            same_groups(ctx, removed, [], f'{what}: groups returned')
            ctx.count('kept_in_place')
        ctx.equal(model.visible(), visible, 'model')
        boxes.check_groups(ctx, container, model, what)
        boxes.check_visible(ctx, container, visible, pool, what)
        # the container stays usable
        for key in rng.sample(pool, min(3, len(pool))):
            if rng.random() < .6:
                value = serial(rng)
                container.write(key, value)
                model.write(key, value)
            else:
                container.delete(key)
                model.delete(key)
        boxes.check_visible(ctx, container, model.visible(), pool,
                            f'changes after {what}')
        if persisted:
            tm.commit()
            other = db.open(TransactionManager())
            boxes.check_groups(ctx, other.root()['c'], model,
                               f'{what} in another connection')
            boxes.check_visible(ctx, other.root()['c'], model.visible(), pool,
                                f'{what} in another connection')
            other.close()
        ctx.saw(what, [sorted(group) for group in model.groups])
    if len(ctx.samples) < 3:
        ctx.sample([repr(op)[:120] for op in ctx.trace[:4]])
    if persisted:
        conn.close()
        db.close()


def large_case(ctx, rng):
    """many groups, or groups of many objects"""
    count = rng.choice([2, 3, 12, 30])
    total = rng.choice([200, 1500, 6000, 12000])
    largest = rng.choice([5000, 20000])
    container, _ = boxes.some_container(rng, count, largest=largest)
    groups = list(container.groups)
    model = boxes.Model(count)
    serial = 0
    share = rng.choice([1, 1, 3])
    for index in range(total):
        key = f'https://example.org/{rng.randrange(10 ** 6)}/{index}'
        for number in {rng.randrange(count) if rng.random() < .5 else
                       count - 1 for _ in range(share)}:
            serial += 1
            groups[number].insert(key, serial)
            model.groups[number][key] = serial
    visible = model.visible()
    if len(visible) > 1:
        capacity = rng.choice([len(visible) - 1, len(visible) // 2, 1])
        ctx.raises(ValueError,
                   lambda: container.resize(capacity,
                                            condense=rng.random() < .5,
                                            transfer=rng.random() < .5),
                   f'resize to {capacity} with {len(visible)} objects')
        same_groups(ctx, container.groups, groups, 'after refused resize')
        boxes.check_groups(ctx, container, model, 'after refused resize')
        ctx.count('too_small_large')
    tm = TransactionManager() if rng.random() < .3 else None
    transfer = rng.random() < .7
    resize = rng.random() < .5
    what = f'{"resize" if resize else "condense"} of {count} groups with ' \
           f'{len(visible)} objects (transfer={transfer}, {bool(tm)})'
    ctx.step(what)
    if resize:
        capacity = rng.choice([len(visible), 3 * len(visible)])
        small = rng.choice([5000, 1000, 300])
        condense = rng.random() < .8
        removed = container.resize(capacity, small, condense=condense,
                                   transfer=transfer, transaction_manager=tm)
        check_new_primary(ctx, container, groups, capacity, small, what)
        moved = count if condense else 1
        model.groups.insert(0, {})
        target = model.groups[0]
        sources = model.groups[1:1 + moved]
    else:
        removed = container.condense(transfer=transfer,
                                     transaction_manager=tm)
        target = model.groups[0]
        sources = model.groups[1:]
        moved = count - 1
    for held in sources:
        for key, value in held.items():
            target.setdefault(key, value)
    ctx.equal(len(removed), moved if transfer else 0, f'{what}: removed')
    for group in removed:
        ctx.equal(list(group.keys()), [], f'{what}: removed group')
    if transfer:
        del model.groups[1:1 + moved]
    boxes.check_groups(ctx, container, model, what)
    boxes.check_visible(ctx, container, visible,
                        rng.sample(list(visible), min(300, len(visible))),
                        what)
    ctx.count('large')
    ctx.count('large_objects', len(visible))
    ctx.saw('large', count, total, transfer, resize)


def small_case(ctx, rng):
    """a capacity below the number of objects is refused without effect"""
    container, _ = boxes.some_container(rng, rng.choice([1, 2, 3]))
    groups = list(container.groups)
    pool = gen.ids(rng, rng.choice([2, 8, 30]))
    model = boxes.Model(len(groups))
    boxes.fill(rng, groups, model, pool, gen.Serial(), .6)
    visible = model.visible()
    if not visible:
        return
    capacity = rng.choice([len(visible) - 1, rng.randrange(len(visible)), 0])
    ctx.step('resize', capacity, len(visible))
    ctx.raises(ValueError,
               lambda: container.resize(capacity,
                                        condense=rng.random() < .5,
                                        transfer=rng.random() < .5,
                                        transaction_manager=rng.choice(
                                            [None, TransactionManager()])),
               f'resize to {capacity} with {len(visible)} objects')
    ctx.count('too_small')
    same_groups(ctx, container.groups, groups, 'groups after refused resize')
    boxes.check_groups(ctx, container, model, 'after refused resize')


def strict_case(ctx, rng):
    """a strict primary that runs full stops the operation, nothing is lost"""
    count = rng.choice([2, 3])
    sizes = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2, 3]))]
    made = [Group.new(custom=dict(enumerate(sizes)), strict=True)]
    made += [Group.new(rng.choice([1, 2, 3]), 100, strict=True)
             for _ in range(count - 1)]
    container = Container(made[0], tuple(made[1:]), strict=True)
    pool = gen.ids(rng, rng.choice([3, 8, 15]))
    serial = gen.Serial()
    visible = {}
    for index, group in reversed(list(enumerate(made))):
        for key in pool:
            if rng.random() < .5:
                value = serial(rng)
                try:
                    group.insert(key, value)
                except FULL:
                    continue
                visible[key] = value
    transfer = rng.random() < .6
    resize = rng.random() < .4
    tm = TransactionManager() if rng.random() < .3 else None
    ctx.step(resize, transfer, sizes, visible)
    try:
        if resize:
            # enough in total, not necessarily for every collection
            removed = container.resize(max(1, len(visible)),
                                       rng.choice([1, 2, 3]),
                                       condense=rng.random() < .7,
                                       transfer=transfer,
                                       transaction_manager=tm)
        else:
            removed = container.condense(transfer=transfer,
                                         transaction_manager=tm)
    except FULL:
        ctx.count('refused')
        removed = ()
        for group in made:
            ctx.expect(any(group is other for other in container.groups),
                       'a group was removed by a refused operation')
    else:
        ctx.count('accepted')
    boxes.check_visible(ctx, container, visible, pool, 'strict operation')
    for group in removed:
        ctx.equal(list(group.keys()), [], 'removed group')
    for group in container.groups:
        for collection in group.collections:
            ctx.expect(collection.size <= collection.max_size,
                       'a strict collection exceeds its capacity')
    ctx.equal(bool(container.strict), True, 'strict afterwards')
    ctx.saw('strict', sizes, sorted(visible), len(removed))


def run(ctx):
    ctx.rule = ('sequences of resize and condense with every option on '
                'containers of 1 to 4 groups that share some ids, in memory '
                'and persisted; contents of each group, groups returned and '
                'kept, and the figures of the new group checked after each; '
                'distinct: (call, ids per group)')
    ctx.require(resize=300, condense=200, groups_removed=200,
                kept_in_place=100, too_small=40, refused=30, accepted=30,
                persisted=30, large=4, too_small_large=4, stepwise=200)
    quick = ctx.quick
    ctx.case(lambda rng: one_case(ctx, rng), 'memory',
             700 if quick else 10000, 10 if quick else 400)
    ctx.case(lambda rng: one_case(ctx, rng, True), 'persisted',
             120 if quick else 2000, 10 if quick else 400)
    ctx.case(lambda rng: large_case(ctx, rng), 'large',
             24 if quick else 300, 30 if quick else 400)
    ctx.case(lambda rng: small_case(ctx, rng), 'small',
             150 if quick else 3000, 6 if quick else 100)
    ctx.case(lambda rng: strict_case(ctx, rng), 'strict',
             300 if quick else 5000, 6 if quick else 100)
