"""Random multi-group containers and the reference model of one."""
import gen
from citrine.storage.collection import Collection
from citrine.storage.container import Container
from citrine.storage.group import Group

MISSING = object()


def some_group(rng, strict=False, largest=5000):
    kind = rng.random()
    if kind < .5:
        return Group.new(rng.choice([1, 2, 3, 5, 7, 11]), largest,
                         strict=strict)
    if kind < .75:
        return Group.new(custom={rng.randrange(4): largest},
                         max_collection_size=largest, strict=strict)
    return Group(tuple(Collection(max_size=largest)
                       for _ in range(rng.choice([1, 3, 4]))), strict=strict)


def some_container(rng, groups, strict=False, largest=5000):
    """
    A container built through the different argument orders.  Returns it with
    its groups in the order in which they must be consulted.
    """
    made = [some_group(rng, strict, largest) for _ in range(groups)]
    main, rest = made[0], made[1:]
    if groups == 1 and rng.random() < .5:
        if rng.random() < .5:
            return Container(main, strict=strict), made
        container = Container.new(rng.choice([1000, 6000, 50000]),
                                  strict=strict)
        return container, [container.primary]
    listed = list(rest)
    if rng.random() < .5:
        listed.insert(rng.randrange(len(listed) + 1), main)
    if rng.random() < .5:
        return Container(main, tuple(listed), strict=strict), made
    return Container(primary_group=main, groups=tuple(listed),
                     strict=strict), made


class Model:
    """a dict per group, the primary first"""

    def __init__(self, groups):
        self.groups = [{} for _ in range(groups)]

    def has(self, key):
        return sum(1 for group in self.groups if key in group)

    def read(self, key, default=None):
        for group in self.groups:
            if key in group:
                return group[key]
        return default

    def write(self, key, value):
        self.groups[0][key] = value

    def delete(self, key):
        return tuple(group.pop(key) for group in self.groups if key in group)

    def visible(self):
        found = {}
        for group in reversed(self.groups):
            found.update(group)
        return found

    def copy(self):
        other = Model(0)
        other.groups = [dict(group) for group in self.groups]
        return other


def fill(rng, groups, model, pool, serial, share=.4):
    """puts objects into the groups themselves, as a resize leaves them"""
    for group, held in zip(groups, model.groups):
        for key in pool:
            if rng.random() < share:
                value = serial(rng)
                group.insert(key, value)
                held[key] = value


def check_visible(ctx, container, visible, probes, what):
    for key in probes:
        got = container.read(key, MISSING)
        wanted = visible.get(key, MISSING)
        ctx.expect(gen.same(got, wanted),
                   lambda: f'{what}: read({key!r}) is {show(got)}, expected '
                           f'{show(wanted)}')
        ctx.equal(bool(container.has(key)), key in visible,
                  f'{what}: has({key!r})')


def show(value):
    return 'missing' if value is MISSING else repr(value)[:200]


def check_groups(ctx, container, model, what):
    """what every single group holds"""
    ctx.equal(len(container.groups), len(model.groups), f'{what}: groups')
    ctx.expect(container.groups[0] is container.primary,
               f'{what}: the primary group is not the first')
    for index, (group, held) in enumerate(zip(container.groups,
                                              model.groups)):
        got = dict(group.items())
        ctx.equal(sorted(got), sorted(held), f'{what}: ids in group {index}')
        for key, value in got.items():
            ctx.expect(gen.same(value, held[key]),
                       lambda: f'{what}: group {index} holds {value!r} for '
                               f'{key!r}, expected {held[key]!r}')
            ctx.expect(group.has_key(key) and gen.same(group.get(key), value),
                       f'{what}: {key!r} of group {index} is not reachable')
    ctx.equal(container.size, sum(map(len, model.groups)), f'{what}: size')
