"""C29: properties that depend on the context of their object."""
import random

from jsonld import JsonProperty, contextualproperty
from jsonld.base import (ContextualProperty, JsonContextAwareManager,
                         PropertyAwareObject)

NAMES = ['A', 'B', 'C', 'D', 'OTHER', '', 0, 1, ('t', 1), False]


class Boom(Exception):
    pass


FAILURES = [Boom, KeyboardInterrupt, GeneratorExit, SystemExit,
            StopIteration, AttributeError]


class Model:
    """what a property does: context -> tag of the function, per accessor"""

    def __init__(self, get=None, set=None, delete=None):
        self.maps = {'get': {}, 'set': {}, 'del': {}}
        for kind, tag in (('get', get), ('set', set), ('del', delete)):
            if tag is not None:
                self.maps[kind][None] = tag

    def copy(self):
        other = Model()
        other.maps = {kind: dict(found) for kind, found in self.maps.items()}
        return other

    def tag(self, kind, context):
        found = self.maps[kind]
        return found[context] if context in found else found.get(None)


class Functions:
    def __init__(self, rng=None):
        self.number = 0
        self.rng = rng or random.Random(0)
        # what functions give instead of their tag
        self.results = {}
        # what functions raise
        self.errors = {}

    def make(self, kind):
        self.number += 1
        tag = f'{kind}{self.number}'
        if self.rng.random() < .1:
            error = self.errors[tag] = self.rng.choice(
                [Boom, AttributeError, KeyError, TypeError])(tag)

            def fn(obj, *args):
                obj.log.append((tag, *args))
                raise error
        elif kind == 'get':
            if self.rng.random() < .4:
                self.results[tag] = self.rng.choice(
                    [None, None, 0, '', False, ()])

            def fn(obj):
                obj.log.append((tag,))
                return self.results.get(tag, (tag, obj.value))
        elif kind == 'set':
            def fn(obj, value):
                obj.log.append((tag, value))
                obj.value = value
        else:
            def fn(obj):
                obj.log.append((tag,))
                obj.value = None
        fn.__doc__ = f'does {tag}'
        return tag, fn


class Plain:
    def __init__(self):
        self.log = []
        self.value = 0


class Aware(PropertyAwareObject):
    def __init__(self):
        super().__init__()
        self.log = []
        self.value = 0


def build(ctx, rng, made):
    """a chain of decorators; gives all properties on the way with models"""
    functions = made
    tags = {}
    fns = {}
    for kind in ('get', 'set', 'del'):
        if rng.random() < .6:
            tags[kind], fns[kind] = functions.make(kind)
    if set(fns) == {'get'} and rng.random() < .7:
        prop = contextualproperty(fns['get'])
        ctx.expect(prop.__doc__ == fns['get'].__doc__, 'the documentation')
    else:
        prop = ContextualProperty(
            fns.get('get'), fns.get('set'), fns.get('del'),
            **({'name': 'p'} if rng.random() < .5 else {}))
    model = Model(tags.get('get'), tags.get('set'), tags.get('del'))
    found = [(prop, model)]
    for _ in range(rng.randrange(0, 8)):
        prop, model = rng.choice(found)
        kind = rng.choice(['get', 'set', 'del'])
        word = {'get': 'getter', 'set': 'setter', 'del': 'deleter'}[kind]
        tag, fn = functions.make(kind)
        if rng.random() < .4:
            # a new property, the old one stays as it is
            after = getattr(prop, word)(fn)
            ctx.step('derive', word, tag)
            ctx.expect(after is not prop, f'{word} gave the same property')
            model = model.copy()
            model.maps[kind][None] = tag
            found.append((after, model))
            ctx.count('derived')
        else:
            context = rng.choice(NAMES)
            ctx.step('context', word, context, tag)
            after = getattr(prop, word + '_context')(context)(fn)
            model = model.copy() if after is not prop else model
            model.maps[kind][context] = tag
            if after is not prop:
                found.append((after, model))
            ctx.count('contexts')
    return found


def use(ctx, rng, functions, obj, name, model, context):
    kind = rng.choice(['get', 'set', 'del'])
    tag = model.tag(kind, context)
    del obj.log[:]
    value = rng.randrange(10 ** 6)
    before = obj.value

    def act():
        if kind == 'get':
            return getattr(obj, name)
        if kind == 'set':
            return setattr(obj, name, value)
        return delattr(obj, name)
    what = f'{kind} of {name} in context {context!r}'
    ctx.step(what)
    if tag is None:
        ctx.raises(AttributeError, act, what)
        ctx.expect(obj.value == before and not obj.log,
                   f'{what}: something was called: {obj.log}')
        ctx.count('missing')
    elif tag in functions.errors:
        error = ctx.raises(Exception, act, what)
        ctx.expect(error is functions.errors[tag],
                   lambda: f'{what}: raised {error!r}')
        ctx.equal(obj.log, [(tag, value) if kind == 'set' else (tag,)],
                  f'{what}: calls')
        ctx.count('raised')
    else:
        got = act()
        ctx.equal(obj.log, [(tag, value) if kind == 'set' else (tag,)],
                  f'{what}: calls')
        if kind == 'get':
            wanted = functions.results.get(tag, (tag, before))
            ctx.expect(got is wanted or got == wanted,
                       lambda: f'{what}: got {got!r}, expected {wanted!r}')
        ctx.count('used')
        if context is not None:
            ctx.count('used_in_context' if context in model.maps[kind]
                      else 'used_default')
    ctx.saw(kind, context, tag is None, len(model.maps[kind]))


def walk(ctx, rng, functions, objects, properties, depth, contexts):
    """nested contexts, left normally and by exceptions"""
    for _ in range(rng.randrange(1, 5)):
        index = rng.randrange(len(objects))
        obj = objects[index]
        if rng.random() < .6 or depth == 0 or isinstance(obj, Plain):
            use(ctx, rng, functions, obj, *rng.choice(properties), contexts[index][-1])
            continue
        context = rng.choice(NAMES + [None])
        contexts[index].append(context)
        ctx.step('enter', index, context)
        fails = rng.choice([None] * 7 + FAILURES)
        try:
            with obj.switch_context(context) as manager:
                ctx.expect(manager.context == context, 'the context')
                walk(ctx, rng, functions, objects, properties, depth - 1,
                     contexts)
                if fails:
                    raise fails
        except tuple(FAILURES) as error:
            ctx.expect(fails and type(error) is fails,
                       lambda: f'an exception from nowhere: {error!r}')
            ctx.count('left_by_exception')
        else:
            ctx.expect(not fails, 'an exception was swallowed')
        contexts[index].pop()
        ctx.step('leave', index)
        ctx.count('blocks')


def behaviour(ctx, rng):
    functions = Functions(rng)
    found = build(ctx, rng, functions)
    names = [(f'p{n}', model) for n, (_, model) in enumerate(found)]
    space = {f'p{n}': prop for n, (prop, _) in enumerate(found)}
    thing = type('Thing', (Aware,), dict(space))
    plain = type('PlainThing', (Plain,), dict(space))
    objects = [rng.choice([thing, thing, plain])() for _ in range(3)]
    contexts = [[None] for _ in objects]
    for _ in range(6):
        walk(ctx, rng, functions, objects, names, 3, contexts)
    ctx.count('properties', len(found))


def classes(ctx, rng):
    """the properties of a class are its own and all inherited ones"""
    made = [(PropertyAwareObject, {'__namespace__'})]
    for number in range(rng.randrange(2, 8)):
        parents = []
        for cls, _ in rng.sample(made, min(len(made), rng.choice([1, 1, 2]))):
            if not any(issubclass(cls, other) or issubclass(other, cls)
                       for other in parents):
                parents.append(cls)
        own = {f'p{rng.randrange(12)}' for _ in range(rng.randrange(3))}
        space = {}
        for name in own:
            space[name] = rng.choice([property, contextualproperty])(
                lambda self, name=name, number=number: (name, number))
        space['other'] = 5
        try:
            cls = type(f'C{number}', tuple(parents), space)
        except TypeError:
            continue
        every = set(own).union(*(props for other, props in made
                                 if other in parents))
        made.append((cls, every))
        # in any order, before and after there are children
        for _ in range(rng.randrange(3)):
            check_class(ctx, rng, *rng.choice(made))
    for cls, every in made:
        check_class(ctx, rng, cls, every)
    cls, every = made[-1]
    if len(made) > 1 and rng.random() < .5:
        # a property that came later
        cls.later = contextualproperty(lambda self: 'later')
        for _ in range(2):
            ctx.equal(sorted(cls.__get_properties__(refresh=True)),
                      sorted(every | {'later'}), 'properties after a change')
        check_class(ctx, rng, cls, every | {'later'})
        for other, props in made[:-1]:
            check_class(ctx, rng, other, props)
        ctx.count('later')
    ctx.saw('classes', tuple(sorted(len(props) for _, props in made)))


def check_class(ctx, rng, cls, every):
    ctx.step('class', cls.__name__, sorted(every))
    if rng.random() < .5:
        ctx.equal(sorted(cls.__get_properties__()), sorted(every),
                  f'properties of {cls.__mro__}')
    obj = cls()
    ctx.equal(sorted(obj.__properties__), sorted(every),
              f'properties of an object of {cls.__mro__}')
    got = dict(obj)
    ctx.expect(got.keys() == every, lambda: f'dict(): {got.keys()}')
    for name in every - {'__namespace__'}:
        ctx.expect(got[name] == getattr(obj, name)
                   and obj[name] == {name: got[name]}, name)
    ctx.raises(KeyError, lambda: obj['other'], 'no property')
    ctx.count('classes')


def single(ctx, rng):
    """a property class has one property"""
    count = rng.randrange(4)
    functions = Functions()
    space = {'helper': lambda self: 1, 'other': 'x'}
    prop = None
    for n in range(count):
        prop = contextualproperty(functions.make('get')[1])
        if rng.random() < .5:
            prop = prop.setter(functions.make('set')[1])
        space[f'p{n}'] = prop
    cls = type('P', (JsonProperty,), space)
    if count != 1:
        ctx.raises(ValueError, cls.__get_property_name__,
                   f'{count} properties')
        ctx.raises(ValueError, cls, f'{count} properties')
        ctx.count('not_single')
        return
    def name():
        ctx.equal(cls.__get_property_name__(
            **({'refresh': True} if rng.random() < .3 else {})),
            'p0', 'the name')

    def registration():
        ctx.equal(cls.__get_registration__(
            **({'refresh': True} if rng.random() < .3 else {})),
            (prop.fget, prop.fset, prop.fdel, prop.__doc__),
            'the registration')

    def instance():
        obj = cls()
        ctx.equal(obj.__property_name__, 'p0', 'the name')
        ctx.equal(obj.__registration__,
                  (prop.fget, prop.fset, prop.fdel, prop.__doc__),
                  'the registration of an object')
        ctx.expect(obj.other == 'x' and obj.helper() == 1, 'the rest')
        obj.more = 5
        ctx.expect(obj.more == 5, 'an attribute of the object')
    acts = [name, registration, instance] * 2
    rng.shuffle(acts)
    for act in acts:
        act()
    if rng.random() < .5:
        # another property takes its place
        del cls.p0
        prop = contextualproperty(functions.make('get')[1])
        cls.q0 = prop
        ctx.equal(cls.__get_registration__(refresh=True),
                  (prop.fget, prop.fset, prop.fdel, prop.__doc__),
                  'the registration after a change')
        ctx.equal(cls.__get_property_name__(), 'q0', 'the changed name')
        ctx.count('refreshed')
    ctx.count('single')
    ctx.saw('single', prop.fset is None)


def derived(ctx, rng):
    """property classes derived from others have a property of their own"""
    functions = Functions()
    made = []
    for number in range(rng.randrange(2, 6)):
        name = f'p{rng.randrange(3)}'
        prop = contextualproperty(functions.make('get')[1])
        if rng.random() < .5:
            prop = prop.setter(functions.make('set')[1])
        parent = rng.choice(made)[0] if made and rng.random() < .8 \
            else JsonProperty
        space = {name: prop}
        if rng.random() < .3:
            space['__get_namespace__'] = classmethod(
                lambda cls: 'urn:x#' + cls.__get_property_name__())
        made.append((type(f'P{number}', (parent,), space), name, prop))
        if rng.random() < .3:
            rng.choice(made)[0]()       # used before others are derived
    order = made * 2
    rng.shuffle(order)
    for cls, name, prop in order:
        wanted = (prop.fget, prop.fset, prop.fdel, prop.__doc__)
        refresh = {'refresh': True} if rng.random() < .2 else {}
        kind = rng.randrange(3)
        if kind == 0:
            ctx.equal(cls.__get_property_name__(**refresh), name,
                      f'the name of a {cls.__mro__}')
        elif kind == 1:
            ctx.equal(cls.__get_registration__(**refresh), wanted,
                      f'the registration of a {cls.__mro__}')
        else:
            obj = cls()
            ctx.equal(obj.__property_name__, name,
                      f'the name of an object of {cls.__mro__}')
            ctx.equal(obj.__registration__, wanted,
                      f'the registration of an object of {cls.__mro__}')
        ctx.count('derived_classes')


def interleaved(ctx, rng):
    """contexts of several objects, entered and left in any order"""
    functions = Functions(rng)
    found = build(ctx, rng, functions)
    thing = type('Thing', (Aware,), {
        f'p{n}': prop for n, (prop, _) in enumerate(found)})
    properties = [(f'p{n}', model) for n, (_, model) in enumerate(found)]
    objects = [thing() for _ in range(3)]
    contexts = [[None] for _ in objects]
    blocks = [[] for _ in objects]
    entering = rng.choice([.35, .6, .75])

    def look():
        for number, other in enumerate(objects):
            ctx.equal(other.__context__.context, contexts[number][-1],
                      f'context of {number}')
            use(ctx, rng, functions, other, *rng.choice(properties),
                contexts[number][-1])

    for _ in range(rng.choice([20, 60, 150, 150, 600])):
        index = rng.randrange(3)
        obj = objects[index]
        kind = rng.random()
        if kind < entering:
            context = rng.choice(NAMES + [None])
            ctx.step('enter', index, context)
            manager = obj.switch_context(context)
            manager.__enter__()
            blocks[index].append(manager)
            contexts[index].append(context)
        elif kind < .8 and blocks[index]:
            ctx.step('leave', index)
            error = rng.choice([None] * 5 + FAILURES)
            ctx.expect(not blocks[index].pop().__exit__(
                error, error and error(), None), 'an exception was swallowed')
            contexts[index].pop()
            ctx.count('interleaved')
        look()
    while any(blocks):
        index = rng.choice([n for n in range(3) if blocks[n]])
        ctx.step('leave', index)
        blocks[index].pop().__exit__(None, None, None)
        contexts[index].pop()
        look()


def manager(ctx, rng):
    """contexts are a stack"""
    found = JsonContextAwareManager()
    ctx.expect(found.context is None, 'the first context')
    stack = [None]

    def inside(depth):
        for _ in range(rng.randrange(3)):
            context = rng.choice(NAMES + [None])
            stack.append(context)
            try:
                with found(context):
                    ctx.equal(found.context, context, 'in the block')
                    if depth:
                        inside(depth - 1)
                    ctx.equal(found.context, context, 'in the block')
                    if rng.random() < .3:
                        raise rng.choice(FAILURES)
            except tuple(FAILURES):
                ctx.count('left_by_exception')
            stack.pop()
            ctx.equal(found.context, stack[-1], 'after the block')
            ctx.count('blocks')
    inside(4)


def run(ctx):
    ctx.rule = ('distinct = different (accessor, context, whether there is a '
                'function, number of contexts) used, class hierarchies')
    ctx.assumptions = ['one thread per object']
    n = 6 if ctx.quick else 200
    ctx.case(lambda rng: behaviour(ctx, rng), 'behaviour', 400 * n, 40 * n)
    ctx.case(lambda rng: interleaved(ctx, rng), 'interleaved', 20 * n, 20 * n)
    ctx.case(lambda rng: classes(ctx, rng), 'classes', 200 * n, 40 * n)
    ctx.case(lambda rng: single(ctx, rng), 'single', 100 * n, 20 * n)
    ctx.case(lambda rng: derived(ctx, rng), 'derived', 60 * n, 10 * n)
    ctx.case(lambda rng: manager(ctx, rng), 'manager', 200 * n, 20 * n)
    ctx.require(used=2000, missing=300, used_in_context=400,
                used_default=200, raised=100, derived=100, contexts=200, blocks=500,
                left_by_exception=100, classes=500, single=10, not_single=20, refreshed=5,
                later=20, interleaved=1000, derived_classes=50)
