"""C26: packages and engines are built from classes without sharing them."""
import functools
import json

import as2
import as2spec as spec
import c21
from activitystreams import create_package, models, properties
from activitystreams.package import pkg_classes, pkg_properties
from jsonld import (ApplicationActivityJson, JsonLdEngine, JsonLdPackage,
                    JsonProperty, contextualproperty)

# remembered names of property classes, kept on the class on first use
CACHES = {'__property_name__', '__registration__', '__properties__'}


# ---- generated vocabularies ---------------------------------------------
def namespaces(items):
    return {cls.__get_namespace__() for cls in items}


def make_class(base, number, parents, methods):
    def __get_namespace__(cls):
        return f'{base}#C{number}'

    def __init__(self, acontext=None, **kwargs):
        ApplicationActivityJson.__init__(self, acontext)
        for name, value in kwargs.items():
            if name != '__namespace__' and not name.startswith('fixed'):
                setattr(self, name, value)

    space = {'__get_namespace__': classmethod(__get_namespace__),
             '__init__': __init__, '__module__': 'generated', **methods}
    return type(f'C{number}', tuple(parents) or (ApplicationActivityJson,),
                space)


def make_property(base, number, tag, parent=JsonProperty):
    name = f'p{number}'
    slot = f'___{name}___'

    def getter(self):
        return getattr(self, slot, None)

    def setter(self, value):
        setattr(self, slot, value if not isinstance(value, int)
                else value * 1000 + tag)

    def __get_namespace__(cls):
        return f'{base}#dfn-{name}'
    return type(f'P{number}', (parent,), {
        '__get_namespace__': classmethod(__get_namespace__),
        '__module__': 'generated',
        name: contextualproperty(getter).setter(setter)})


class Vocabulary:
    """classes, properties and mapping, and what they mean"""

    def __init__(self, rng, base, tag=0, numbers=None, partial=True):
        self.base = base
        self.tag = tag
        self.rng = rng
        numbers = numbers or list(range(rng.randrange(1, 7)))
        self.classes = {}
        self.parents = {}
        for number in numbers:
            candidates = list(self.classes)
            if rng.random() < .3:
                candidates = candidates[-2:]
            chosen = []
            for one in rng.sample(candidates, min(len(candidates),
                                                  rng.choice([0, 1, 1, 1, 2]))):
                if not any(issubclass(self.classes[one], self.classes[two])
                           or issubclass(self.classes[two],
                                         self.classes[one])
                           for two in chosen):
                    chosen.append(one)
            try:
                self.classes[number] = make_class(
                    base, number, [self.classes[one] for one in chosen],
                    self.methods(number))
            except TypeError:       # no order of bases
                chosen = []
                self.classes[number] = make_class(base, number, [],
                                                  self.methods(number))
            self.parents[number] = chosen
        self.fixed = {name for cls in self.classes.values()
                      for name in vars(cls) if name.startswith('fixed')}
        # which parent a class takes a method from
        self.takes = {n: cls().who() for n, cls in self.classes.items()
                      if hasattr(cls, 'who')}
        self.props = {}
        for n in range(rng.randrange(1, 6)):
            # some are derived from others, and have a name of their own
            self.props[n] = make_property(
                base, n, tag, rng.choice(list(self.props.values()))
                if self.props and rng.random() < .2 else JsonProperty)
        self.links = {n: [] for n in self.classes}
        for n in self.classes:
            self.links[n] = rng.sample(list(self.props),
                                       rng.randrange(len(self.props) + 1))
        # others are not part of the package, only parents
        if partial and len(self.classes) > 1 and rng.random() < .5:
            for number in rng.sample(list(self.classes), rng.randrange(
                    1, len(self.classes))):
                del self.classes[number]
                del self.links[number]
        objects = list(self.classes.values())
        rng.shuffle(objects)
        self.package = JsonLdPackage(
            base, rng.choice([list, tuple])(objects),
            tuple(self.props.values()),
            {f'{base}#C{n}': [f'{base}#dfn-p{p}' for p in found]
             for n, found in self.links.items() if found or rng.random() < .5})

    def methods(self, number):
        def other(self, which):
            """an object of an original class"""
            return classes[which](p0=5)

        def same(self, value):
            return value
        classes = self.classes
        class Inner:
            mark = number
        found = {f'other{number}': other, f'same{number}': same,
                 f'Inner{number}': Inner, f'kind{number}': int,
                 f'static{number}': staticmethod(lambda *args: (
                     number, *args)),
                 f'static_other{number}': staticmethod(
                     lambda which: classes[which]()),
                 f'part{number}': functools.partial(int, base=2),
                 f'named{number}': classmethod(
                     lambda cls, *args: (cls, *args)),
                 f'numbers{number}': lambda self, *args, **kwargs: (
                     yield from (number, *args, *kwargs))}
        if self.rng.random() < .3:
            # cannot be set, not even when an object is taken over
            found[f'fixed{number}'] = property(lambda self: number)
        if self.rng.random() < .5:
            found['who'] = lambda self: number
        return found

    def has(self, number):
        found = set(self.links.get(number, ()))
        for parent in self.parents[number]:
            found |= self.has(parent)
        return found

    def lineage(self, number):
        found = {number}
        for parent in self.parents[number]:
            found |= self.lineage(parent)
        return found


def snapshot(classes):
    return {cls: {key: value for key, value in cls.__dict__.items()
                  if key not in CACHES} for cls in classes}


def check_snapshot(ctx, before, what):
    for cls, wanted in before.items():
        got = {key: value for key, value in cls.__dict__.items()
               if key not in CACHES}
        ctx.expect(got.keys() == wanted.keys()
                   and all(got[key] is wanted[key] for key in got),
                   lambda: f'{what} changed {cls}: '
                           f'{sorted(got.keys() ^ wanted.keys())}')
    ctx.count('snapshots')


def check_object(ctx, rng, engine, vocabulary, number, also=()):
    """the properties of the class work, and no others"""
    cls = getattr(engine, f'C{number}')
    mine = vocabulary.has(number)
    obj = cls()
    values = {}
    for p in sorted(mine):
        value = rng.choice([rng.randrange(1000), 'x', [1, 2], None])
        setattr(obj, f'p{p}', value)
        values[f'p{p}'] = value * 1000 + vocabulary.tag \
            if isinstance(value, int) else value
    for name, value in values.items():
        ctx.equal(getattr(obj, name), value, f'{name} of C{number}')
    for p in vocabulary.props:
        if p not in mine:
            ctx.expect(not hasattr(type(obj), f'p{p}'),
                       f'C{number} has p{p} of another class')
    wanted = {key: value for key, value in values.items()
              if value is not None}
    ctx.equal(json.loads(obj.json()), {**wanted, **{
        f'fixed{m}': m for m in vocabulary.lineage(number)
        if f'fixed{m}' in vocabulary.fixed}}, f'JSON of a C{number}')
    ctx.equal(obj.__namespace__, f'{vocabulary.base}#C{number}',
              'the namespace of an object')
    ctx.equal(set(name for name in obj.__properties__
                  if name not in ('__namespace__', 'acontext')
                  and name not in vocabulary.fixed),
              {f'p{p}' for p in mine}, f'properties of a C{number}')
    for m in vocabulary.lineage(number):
        here = [getattr(obj, f'static{m}')(1), getattr(cls, f'static{m}')(),
                getattr(obj, f'Inner{m}').mark, getattr(obj, f'kind{m}')('7'),
                getattr(obj, f'part{m}')('11'),
                isinstance(getattr(cls, f'Inner{m}'), type),
                getattr(obj, f'named{m}')(2), getattr(cls, f'named{m}')(),
                list(getattr(obj, f'numbers{m}')(8, x=9))]
        ctx.equal(here, [(m, 1), (m,), m, 7, 3, True, (cls, 2), (cls,),
                         [m, 8, 'x']], f'what C{number} has of C{m}')
        if f'fixed{m}' in vocabulary.fixed:
            ctx.equal(getattr(obj, f'fixed{m}'), m, 'a fixed property')
            ctx.raises(AttributeError,
                       lambda: setattr(obj, f'fixed{m}', 1),
                       'setting a fixed property')
            ctx.count('fixed')
    ctx.count('attributes')
    made = engine.from_json(rng.choice([dict, json.dumps])(
        {'@context': {'x': 'urn:x#'},
         '@type': f'{vocabulary.base}#C{number}', 'zz': 1, **wanted}))
    ctx.expect(type(made) is cls, lambda: f'a C{number} is loaded as '
                                          f'{type(made)}')
    for name in values:
        value = wanted.get(name)
        ctx.equal(getattr(made, name), value * 1000 + vocabulary.tag
                  if isinstance(value, int) else value,
                  f'{name} of a loaded C{number}')
    ctx.expect(not hasattr(made, 'zz'), 'an unknown property')
    if number in vocabulary.takes:
        ctx.equal(obj.who(), vocabulary.takes[number],
                  f'a method of C{number}')
        ctx.count('methods')
    ctx.count('objects')
    return obj


def relinked(ctx, rng, engine, vocabulary):
    """classes get and lose properties when they are already in use"""
    package, base, links = (vocabulary.package, vocabulary.base,
                            vocabulary.links)
    for _ in range(rng.choice([0, 1, 2, 4])):
        number = rng.choice(list(links))
        cls = package[f'{base}#C{number}']
        how = rng.choice(['one', 'several', 'again', 'remove', 'remove',
                          'missing'])
        prop = rng.choice(list(vocabulary.props))
        ctx.step(how, number, prop)
        if how == 'one':
            package.link_property(package[f'{base}#dfn-p{prop}'], cls)
            links[number].append(prop)
        elif how == 'several':
            chosen = rng.sample(list(vocabulary.props),
                                rng.randint(0, len(vocabulary.props)))
            package.link_properties([f'{base}#dfn-p{p}' for p in chosen],
                                    f'{base}#C{number}')
            links[number] += chosen
        elif how == 'again':
            package.update_property_link(package[f'{base}#dfn-p{prop}'], cls)
            links[number].append(prop)
        elif how == 'remove':
            if prop in links[number]:
                package.remove_property_link(f'p{prop}', cls)
                links[number] = [p for p in links[number] if p != prop]
            else:
                ctx.raises(AttributeError, lambda:
                           package.remove_property_link(f'p{prop}', cls),
                           'removing a property a class does not have itself')
                how = 'refused'
        else:
            ctx.raises(ValueError, lambda: package.link_properties(
                [f'{base}#dfn-p99'], f'{base}#C{number}'), 'no such property')
            ctx.raises(ValueError, lambda: package.link_properties(
                [f'{base}#dfn-p{prop}'], f'{base}#C99'), 'no such class')
        ctx.count(f'links_{how}')
        for n in links:
            check_object(ctx, rng, engine, vocabulary, n)


def generated(ctx, rng):
    base = f'urn:v{rng.randrange(10 ** 6)}'
    vocabulary = Vocabulary(rng, base, rng.randrange(5))
    ctx.step('vocabulary', vocabulary.parents, vocabulary.links)
    originals = list(vocabulary.classes.values()) \
        + list(vocabulary.props.values())
    before = snapshot(originals)
    package = vocabulary.package
    ctx.equal(package.namespace, base, 'the namespace')
    ctx.equal(len(package.objects), len(vocabulary.classes), 'classes')
    ctx.equal(len(package.properties), len(vocabulary.props), 'properties')
    ctx.equal({cls.__get_namespace__() for cls in package.objects},
              {f'{base}#C{n}' for n in vocabulary.classes}, 'namespaces')
    ctx.raises(AttributeError, lambda: setattr(package, 'namespace', 'x'),
               'changing the namespace')
    for n, cls in vocabulary.classes.items():
        mine = package[f'{base}#C{n}']
        ctx.expect(mine is not cls and issubclass(mine, cls)
                   and mine.__name__ == cls.__name__,
                   f'C{n} in the package is {mine}')
        for m in vocabulary.classes:
            ctx.expect(issubclass(mine, package[f'{base}#C{m}'])
                       == (m in vocabulary.lineage(n)),
                       f'C{n} and C{m} in the package')
    ctx.equal(package['nothing'], None, 'an unknown namespace')
    ctx.equal(package[[f'{base}#C{n}' for n in vocabulary.classes] + ['x']],
              [package[f'{base}#C{n}'] for n in vocabulary.classes] + [None],
              'several namespaces')
    ctx.raises(ValueError, lambda: package[[1]], 'a number as namespace')
    engine = JsonLdEngine(package)
    others = [JsonLdEngine(JsonLdPackage(
        base, tuple(vocabulary.classes.values())))]
    objects = {}
    classes_of = vocabulary.classes
    for n in vocabulary.classes:
        ctx.expect(getattr(engine, f'C{n}') is package[f'{base}#C{n}'],
                   f'engine.C{n}')
        objects[n] = check_object(ctx, rng, engine, vocabulary, n)
    # what comes out of methods is of the package
    for n in list(objects):
        which = rng.choice(list(vocabulary.classes))
        for m in vocabulary.lineage(n) & set(vocabulary.classes):
            if m == which and rng.random() < .7:
                continue
            got = getattr(objects[n], f'other{m}')(which)
            ctx.expect(type(got) is getattr(engine, f'C{which}'),
                       lambda: f'an object of C{which} came out as '
                               f'{type(got)}')
            if 0 in vocabulary.has(which):
                ctx.equal(got.p0, 5000 + vocabulary.tag,
                          'a value given before')
                ctx.count('values_kept')
            ctx.equal(got.__namespace__, f'{base}#C{which}', 'its namespace')
            got = getattr(rng.choice([objects[n], type(objects[n])]),
                          f'static_other{m}')(which)
            ctx.expect(type(got) is getattr(engine, f'C{which}'),
                       lambda: f'an object of C{which} came out of a static '
                               f'method as {type(got)}')
            # another class of that name has nothing to do with it
            alien = make_class(base, which, [], {})()
            ctx.expect(type(getattr(objects[n], f'same{m}')(alien))
                       is type(alien) and getattr(objects[n], f'same{m}')(
                           alien) is alien, 'an object of another class')
            if vocabulary.has(n):
                name = f'p{rng.choice(sorted(vocabulary.has(n)))}'
                setattr(objects[n], name, alien)
                ctx.expect(getattr(objects[n], name) is alien
                           and alien.__namespace__ == f'{base}#C{which}'
                           and not isinstance(alien, package.objects),
                           'an object of another class as a value')
                plain = classes_of[which](p0=3)
                setattr(objects[n], name, plain)
                ctx.expect(type(getattr(objects[n], name))
                           is getattr(engine, f'C{which}'),
                           'an object of a plain class as a value')
                setattr(objects[n], name, None)
                ctx.count('values_taken_over')
            same = getattr(objects[n], f'same{m}')(objects[which])
            ctx.expect(same is objects[which], 'an object of the package')
            ctx.count('taken_over')
    for n, cls in vocabulary.classes.items():
        ctx.equal(cls.__get_namespace__(), f'{base}#C{n}',
                  'the namespace of the class')
        ctx.equal(package[f'{base}#C{n}'].__get_namespace__(),
                  f'{base}#C{n}', 'the namespace in the package')
    # another package of the same classes
    for n in vocabulary.classes:
        other = getattr(others[0], f'C{n}')
        ctx.expect(other is not getattr(engine, f'C{n}')
                   and not issubclass(other, getattr(engine, f'C{n}')),
                   'two packages share a class')
        for p in vocabulary.props:
            ctx.expect(not hasattr(other, f'p{p}'),
                       'two packages share a property')
        other.mark = n
        ctx.expect(not hasattr(getattr(engine, f'C{n}'), 'mark'),
                   'two packages share an attribute')
    check_snapshot(ctx, before, 'building packages')
    ctx.count('vocabularies')
    relinked(ctx, rng, engine, vocabulary)
    check_snapshot(ctx, before, 'linking properties')
    ctx.saw('vocabulary', tuple(vocabulary.parents.items()),
            tuple((n, tuple(found)) for n, found in
                  vocabulary.links.items()))


def combined(ctx, rng):
    """sums and differences of packages and engines"""
    base = f'urn:v{rng.randrange(10 ** 6)}'
    first = Vocabulary(rng, base, 1)
    shared = rng.random() < .7
    second = Vocabulary(rng, base if shared else base + 'x', 2,
                        numbers=sorted(rng.sample(range(8),
                                                  rng.randrange(1, 5))))
    ctx.step('first', first.parents, first.links)
    ctx.step('second', second.parents, second.links)
    originals = []
    for one in (first, second):
        originals += [*one.classes.values(), *one.props.values(),
                      *one.package.objects, *one.package.properties]
    before = snapshot(originals)

    a, b = first.package, second.package
    objects_a, objects_b = namespaces(a.objects), namespaces(b.objects)
    props_a, props_b = namespaces(a.properties), namespaces(b.properties)
    total = a + b
    ctx.equal(namespaces(total.objects), objects_a | objects_b,
              'classes of a sum')
    ctx.equal(namespaces(total.properties), props_a | props_b,
              'properties of a sum')
    for part, mine in ((a, props_a - props_b), (b, props_b)):
        for name in mine:
            ctx.expect(issubclass(total[name], part[name]),
                       lambda: f'{name} of a sum is {total[name].__mro__}')
            ctx.count('properties_of_sums')
    ctx.equal(total.namespace, a.namespace, 'namespace of a sum')
    ctx.equal(len(total.objects), len(objects_a | objects_b),
              'number of classes')
    rest = a - b
    ctx.equal(namespaces(rest.objects), objects_a - objects_b,
              'classes of a difference')
    ctx.equal(namespaces(rest.properties), props_a - props_b,
              'properties of a difference')
    ctx.equal(rest.namespace, a.namespace, 'namespace of a difference')
    ctx.equal([namespaces(a.objects), namespaces(b.objects)],
              [objects_a, objects_b], 'packages after sums')

    one, two = JsonLdEngine(a), JsonLdEngine(b)
    third = Vocabulary(rng, base + 'y', 3, numbers=[8, 9])
    c = third.package
    engines = [JsonLdEngine((a, b)), JsonLdEngine([a, b]), one + b,
               one + two, JsonLdEngine(total), JsonLdEngine((a, b, b)),
               JsonLdEngine(iter((a, b))), JsonLdEngine((b, a, b)),
               JsonLdEngine([b, a]) + b, two + one + two]
    wider = [JsonLdEngine([c, a]) + two, one + JsonLdEngine((c, b)),
             one + JsonLdEngine((b, c)), one + c + b,
             JsonLdEngine([a, c]) + JsonLdEngine([c, b])]
    engine = rng.choice(engines + wider)
    ctx.equal(set(engine.class_registry), objects_a | objects_b | (
        namespaces(c.objects) if engine in wider else set()),
        'classes of an engine')
    if engine in wider:
        for n in third.classes:
            check_object(ctx, rng, engine, third, n)
        ctx.count('three_packages')
    for n in sorted(set(first.classes) | set(second.classes)):
        if n in second.classes:
            origin = second
        else:
            origin = first
        if not shared and n in first.classes and n in second.classes:
            # two classes of the same name
            for each in (first, second):
                name = f'{each.base}#C{n}'
                made = engine.from_json({'@context': {'x': 'urn:x#'},
                                         '@type': name})
                ctx.expect(isinstance(made, each.classes[n])
                           and made.__namespace__ == name,
                           lambda: f'{name} is loaded as a '
                                   f'{type(made).__mro__}')
                ctx.count('same_names')
            continue
        if shared and n not in second.classes \
                and any(m in second.classes for m in first.lineage(n)):
            ctx.count('parent_replaced')
        obj = check_object(ctx, rng, engine, origin, n)
        ctx.expect(isinstance(obj, origin.classes[n])
                   and isinstance(obj, origin.package[
                       f'{origin.base}#C{n}']),
                   f'a C{n} of a sum is a {type(obj).__mro__}')
        ctx.count('of_sums')
    for part in (a, b, total):
        nothing = part - part
        ctx.equal([len(nothing.objects), len(nothing.properties)], [0, 0],
                  'what is left of a package without itself')
    engine = rng.choice([JsonLdEngine(rest)] if rest.objects else [None])
    if engine is not None:
        for alternative in (engine, one - b, one - two,
                            JsonLdEngine([a, c]) - b - c,
                            JsonLdEngine([a, c]) - JsonLdEngine([b, c])):
            ctx.equal(set(alternative.class_registry), objects_a - objects_b,
                      'classes of a difference')
            for n in first.classes:
                if f'{first.base}#C{n}' in objects_a - objects_b:
                    check_object(ctx, rng, alternative, first, n)
                    ctx.count('of_differences')
                else:
                    ctx.expect(not hasattr(alternative, f'C{n}'),
                               f'C{n} is still there')
    # the parts still work
    for vocabulary, part in ((first, one), (second, two)):
        for n in vocabulary.classes:
            check_object(ctx, rng, part, vocabulary, n)
    check_snapshot(ctx, {cls: found for cls, found in before.items()
                         if not hasattr(cls, '__jsonld_engine__')},
                   'combining packages')
    for wrong in (1, None, 'x', {}, [a], object()):
        ctx.raises(TypeError, lambda: a + wrong, f'package + {wrong!r}')
        ctx.raises(TypeError, lambda: a - wrong, f'package - {wrong!r}')
        ctx.raises(TypeError, lambda: one + wrong, f'engine + {wrong!r}')
        ctx.raises(TypeError, lambda: one - wrong, f'engine - {wrong!r}')
    ctx.count('combined')
    ctx.saw('combined', shared, len(objects_a & objects_b),
            len(objects_a), len(objects_b), len(props_a & props_b))


def other_names(ctx, rng):
    """classes of one name in the vocabulary and another one in Python"""
    first = Vocabulary(rng, 'urn:n', numbers=[0, 1, 2], partial=False)
    second = Vocabulary(rng, 'urn:n', 1, numbers=[0, 1], partial=False)
    for number, cls in second.classes.items():
        cls.__name__ = f'Other{number}'
    a = JsonLdPackage('urn:n', tuple(first.classes.values()))
    b = JsonLdPackage('urn:n', tuple(second.classes.values()))
    ctx.equal(namespaces((a - b).objects), {'urn:n#C2'},
              'a difference of classes with other names in Python')
    total = a + b
    ctx.equal(namespaces(total.objects), {'urn:n#C0', 'urn:n#C1', 'urn:n#C2'},
              'a sum of classes with other names in Python')
    ctx.equal(len(total.objects), 3, 'number of classes of the sum')
    engine = JsonLdEngine([a, b])
    for number in (0, 1):
        made = engine.from_json({'@context': {'x': 'urn:x#'},
                                 '@type': f'urn:n#C{number}'})
        ctx.expect(isinstance(made, second.classes[number]),
                   lambda: f'C{number} of a sum is a {type(made).__mro__}')
    ctx.count('other_names')


def refusals(ctx, rng):
    vocabulary = Vocabulary(rng, 'urn:r', numbers=[0, 1], partial=False)
    classes = tuple(vocabulary.classes.values())
    props = tuple(vocabulary.props.values())
    for wrong in (1, b'x', ('a',), {'a': 1}):
        ctx.raises(TypeError, lambda: JsonLdPackage(wrong, classes),
                   f'namespace {wrong!r}')
    ctx.raises(ValueError, lambda: JsonLdPackage(
        'urn:r', classes, props, {'urn:r#C9': ['urn:r#dfn-p0']}),
        'a mapping for an unknown class')
    ctx.raises(ValueError, lambda: JsonLdPackage(
        'urn:r', classes, props, {'urn:r#C0': ['urn:r#dfn-p99']}),
        'a mapping to an unknown property')
    for objects in (classes, ()):
        for found in (['urn:r#dfn-p0'], []):
            ctx.raises(ValueError, lambda: JsonLdPackage(
                'urn:r', objects, props, {'urn:r#C9': found}),
                'a mapping for an unknown class')
    ctx.raises(ValueError, lambda: JsonLdEngine(()), 'no packages')
    ctx.raises(ValueError, lambda: JsonLdEngine([]), 'no packages')
    engine = JsonLdEngine(vocabulary.package)
    ctx.raises(ValueError, lambda: engine.register_class(
        'urn:r#C0', classes[0]), 'a class twice')
    ctx.expect(engine.class_registry['urn:r#C0'] is engine.C0,
               'the class after a refused one')
    package = vocabulary.package
    before = package.objects, package.properties
    ctx.raises(AttributeError, lambda: setattr(package, 'objects', classes),
               'replacing the classes')
    ctx.raises(AttributeError,
               lambda: setattr(package, 'properties', props),
               'replacing the properties')
    ctx.expect((package.objects, package.properties) == before, 'the package')
    ctx.count('refusals')


# ---- ActivityStreams ----------------------------------------------------
def streams(ctx, rng):
    """engines of ActivityStreams do not touch each other or the models"""
    before = snapshot(pkg_classes + pkg_properties)
    engines = [as2.engine(), JsonLdEngine(create_package())]
    gen = spec.Gen(rng, 2)
    made = []
    for _ in range(8):
        engine = rng.choice(engines)
        node = gen.node()
        roll = rng.random()
        if roll < .4:
            obj = engine.from_json(json.dumps(gen.document(node)))
        else:
            obj = c21.make(rng, engine, node, ctx)
        made.append((engine, obj, node))
        ctx.step('make', engines.index(engine), node.cls)
        for engine, obj, node in made:
            other = engines[1 - engines.index(engine)]
            ctx.expect(not isinstance(obj, getattr(other, node.cls)),
                       'an object of both engines')
            found = spec.differ(engine, obj, node, node.cls)
            ctx.expect(not found, found)
    for name in spec.CLASSES:
        a, b = (getattr(engine, name) for engine in engines)
        model = getattr(models, name)
        ctx.expect(a is not b and issubclass(a, model)
                   and issubclass(b, model) and not issubclass(a, b),
                   f'classes for {name}')
        for base in spec.CLASSES:
            ctx.equal(issubclass(a, getattr(engines[0], base)),
                      base in spec.ancestors(name),
                      f'{name} is a {base}')
        for cls in (a, b, model):
            ctx.equal(cls.__get_namespace__(), f'{as2.NS}#{name}',
                      'the namespace')
        for prop in spec.PROPS[name]:
            ctx.expect(prop in a.__get_properties__(),
                       f'{prop} of a {name}')
            ctx.count('linked')
    # engines made of those do not take their objects over
    more = Vocabulary(rng, f'urn:v{rng.randrange(10 ** 6)}', 1)
    made = [rng.choice([lambda: engine + more.package,
                        lambda: JsonLdEngine(more.package) + engine,
                        lambda: engine - more.package])()
            for engine in engines]
    url = f'https://a.example/{rng.randrange(10 ** 9)}'
    as2.WEB.clear()
    as2.WEB[url] = as2.Page({'@context': as2.NS, 'type': 'Note', 'id': url})
    every = list(engines) + made
    rng.shuffle(every)
    for engine in every:
        obj = rng.choice([engine.Create, engine.Like, engine.Note])()
        obj.context = url
        ctx.expect(type(obj.context) is engine.Note,
                   lambda: f'a link gave a {type(obj.context)} of '
                           f'another engine')
        ctx.count('links_opened')
    check_snapshot(ctx, before, 'using engines')
    ctx.count('streams')


def taken_over(ctx, rng):
    """objects made from the plain models become those of the engine"""
    engine = as2.engine()
    gen = spec.Gen(rng, 0)
    before = snapshot(pkg_classes + pkg_properties)
    objects = []
    for _ in range(6):
        cls = rng.choice(spec.OBJECTS)
        name = rng.choice(['attributedTo', 'context', 'location', 'audience'])
        id, text = gen.id(), gen.text()
        when = gen.instant()
        inner = getattr(models, cls)(id, name=text, published=when)
        if rng.random() < .4:
            inner.summary = text
        outer = rng.choice([engine.Note, engine.Create, engine.Question,
                            engine.Collection])()
        ctx.step('take over', cls, name)
        setattr(outer, name, inner)
        got = getattr(outer, name)
        ctx.expect(type(got) is getattr(engine, cls),
                   lambda: f'a plain {cls} became a {type(got)}')
        ctx.equal([got.id, got.name, got.published, got.summary],
                  [id, text, when, inner.summary], f'values of a {cls}')
        ctx.equal(got.type, cls if cls != 'Object' else got.type,
                  f'the type of a {cls}')
        written = json.loads(outer.json())[name]
        ctx.expect(written['id'] == id and written['name'] == text
                   and spec.parse_instant(written['published']) == when,
                   lambda: f'written as {written}')
        objects.append((got, cls, id))
        for obj, cls, id in objects:
            ctx.equal([obj.__namespace__, obj.id, type(obj).__name__],
                      [f'{as2.NS}#{cls}', id, cls], 'an earlier object')
        for cls in spec.CLASSES:
            ctx.equal(getattr(engine, cls).__get_namespace__(),
                      f'{as2.NS}#{cls}', 'a namespace')
        ctx.count('models')
    check_snapshot(ctx, before, 'taking objects over')
    ctx.saw('models', tuple(cls for _, cls, _ in objects))


def run(ctx):
    ctx.rule = ('distinct = different generated vocabularies (inheritance, '
                'links), pairs of packages combined, classes of objects '
                'taken over')
    ctx.assumptions = [
        'a property of a package is given to classes by the package itself; '
        'classes of a package that is added replace those of the same name '
        'with their properties',
        'classes remember their list of properties on first use']
    n = 1 if ctx.quick else 25
    ctx.case(lambda rng: generated(ctx, rng), 'generated', 250 * n, 40 * n)
    ctx.case(lambda rng: combined(ctx, rng), 'combined', 120 * n, 60 * n)
    ctx.case(lambda rng: other_names(ctx, rng), 'other names', 5)
    ctx.case(lambda rng: refusals(ctx, rng), 'refusals', 5)
    ctx.case(lambda rng: streams(ctx, rng), 'streams', 12 * n, 50 * n)
    ctx.case(lambda rng: taken_over(ctx, rng), 'models', 12 * n, 40 * n)
    ctx.require(vocabularies=50, objects=500, taken_over=50, values_kept=10,
                combined=20, of_sums=50, of_differences=20, streams=3, links_opened=12, links_one=20, links_several=20,
                links_again=20, links_remove=20, links_refused=10,
                links_missing=20, three_packages=20,
                same_names=10, fixed=20, attributes=100, values_taken_over=20,
                models=12, refusals=5, other_names=5, snapshots=50)
