"""C22: properties take values of their range only."""
import json
from datetime import date, datetime, timedelta

import as2
import as2spec as spec
import c21

ENGINES = []
# those with properties that others do not have
SPECIAL = ['Place', 'Link', 'OrderedCollectionPage', 'Question', 'Tombstone']
EMPTY = ('Relationship', 'Place', 'Profile', 'Tombstone')


class Foreign:
    """no value for anything"""

    def __repr__(self):
        return 'Foreign()'


def instance(rng, engine, cls, ctx):
    gen = spec.Gen(rng, 0)
    props = {'id': spec.Plain(gen.id())} if rng.random() < .8 else {}
    if 'Link' in spec.ancestors(cls):
        props['href'] = spec.Plain(gen.url())
    return c21.make(rng, engine, spec.Node(cls, props), ctx)


def outside(rng, engine, prop, ctx):
    """values outside the range of the property"""
    kind, functional = spec.PROPERTIES[prop]
    gen = spec.Gen(rng, 0)

    def obj(classes):
        return instance(rng, engine, rng.choice(classes), ctx)
    number = [5, 1.5, 10 ** 20, -3]
    things = [Foreign(), object, b'bytes', 3 + 4j, lambda: 1,
              timedelta(1), date(2020, 1, 1)]
    if kind == 'duration':
        things.remove(timedelta(1))
    pool = list(things)
    strings = ['x', '', 'true', '15', '1.5']
    plain = spec.OBJECTS + ['Link', 'Mention']
    if kind in ('id', 'text1', 'href', 'duration'):
        pool += number + [{'a': 1}, {}, ('x',), {'x'}, [], ['x'],
                          [gen.url()], datetime(2020, 1, 1), obj(plain)]
    elif kind in ('text', 'type'):
        pool += number + [{'a': 1}, ('x', 'y'), datetime(2020, 1, 1),
                          obj(plain)]
    elif kind == 'name':
        pool += number + [('x', 'y'), datetime(2020, 1, 1), obj(plain)]
    elif kind in ('count', 'amount', 'number'):
        pool += strings + [{}, [], [1], (1,), obj(plain),
                           datetime(2020, 1, 1)]
        if kind != 'number':
            pool += [-1, -10 ** 12]
        if kind == 'amount':
            pool += [-.5, -1e-9, -5e-324, float('-inf')] * 3
        if kind == 'count':
            pool += [1.5, 0.5, -1]
    elif kind == 'date':
        pool += number + [{}, [], [datetime(2020, 1, 1)],
                          ['2020-01-01T00:00:00Z'], obj(plain),
                          'tomorrow', '', '2020-01-01', '12:00:00Z',
                          '2020-01-01T00:00:00', '2020-01-01 00:00:00Z',
                          '2020-13-01T00:00:00Z', '2020-00-01T00:00:00Z',
                          '2020-02-30T00:00:00Z', '2020-01-32T00:00:00Z',
                          '2020-01-01T24:00:00Z', '2020-01-01T00:60:00Z',
                          '20-01-01T00:00:00Z', '2020-01-01T00:00:00+1:00',
                          'on 2020-01-01T00:00:00Z',
                          '2020-01-01T00:00:00Z or so',
                          '2020-01-01T00:00:00Z\n', '2020-1-1T00:00:00Z']
    elif kind == 'ref':
        pool += number + [datetime(2020, 1, 1), 'no address', '',
                          'ftp://example.org/', 'http://', 'https:///x',
                          'http://exa mple.org/', '//example.org/x', True]
        if prop != 'tag':
            pool += [{}, {'name': 'x'}, {'href': 'no address'},
                     {'href': ''}]
    elif kind == 'ref1':
        pool += number + [datetime(2020, 1, 1), 'no address', {},
                          [gen.url()], [], [obj(plain)], (gen.url(),)]
    elif kind in ('page', 'partOf', 'collection', 'object'):
        allowed = {'page': 'CollectionPage', 'partOf': 'Collection',
                   'collection': 'Collection', 'object': 'Object'}[kind]
        fitting = [name for name in spec.CLASSES
                   if allowed in spec.ancestors(name)]
        others = [name for name in spec.OBJECTS if name not in fitting]
        pool += number + [datetime(2020, 1, 1), 'no address', {}, [],
                          [obj(fitting)], [gen.url()]]
        if others:
            pool += [obj(others)] * 5
        if kind == 'object':
            pool += [obj(['Link', 'Mention']), gen.url()]
    elif kind == 'textref':
        pool += number + [{}, ('x',), datetime(2020, 1, 1),
                          obj(['Link', 'Mention'])]
    elif kind == 'url':
        pool += number + [{}, {'href': 'nowhere'}, datetime(2020, 1, 1),
                          obj(spec.OBJECTS)]
    elif kind == 'closed':
        pool += [1.5, {}, 'no date', '2020-01-01', '',
                 '2020-02-30T00:00:00Z']
    return pool


def wrong(rng, engine, prop, ctx):
    """a value outside the range of the property"""
    kind, functional = spec.PROPERTIES[prop]
    gen = spec.Gen(rng, 0)
    pool = outside(rng, engine, prop, ctx)
    if kind in ('ref', 'ref1', 'page', 'partOf', 'object', 'url', 'textref',
                'closed', 'collection'):
        if rng.random() < .2:
            # a link is given by its properties, but these are no fitting ones
            own = {'href': gen.url()}
            pool = [{**own, 'rel': 5}, {**own, 'preview': {'href': 5}},
                    {**own, 'height': -1}, {**own, 'width': 'wide'}]
            if prop != 'tag':
                pool += [{'href': address} for address in (
                    5, [gen.url()], None, True, {'href': gen.url()},
                    b'https://example.org/', 1.5)]
            ctx.count('described_links')
    value = rng.choice(pool)
    if rng.random() < (.6 if kind == 'closed' else .2) and not functional \
            and isinstance(value, (str, int, float, complex, bytes, Foreign,
                                   date)):
        # hidden between values that are fine
        fine = [c21.build(rng, engine, good(gen, prop), ctx)
                for _ in range(rng.randrange(3))]
        fine = [one for one in fine if not isinstance(one, list)]
        if fine and rng.random() < .1:
            fine = fine * rng.choice([20, 60, 150])
            ctx.count('hidden_in_many')
        fine.insert(rng.randrange(len(fine) + 1), value)
        ctx.count('hidden')
        ctx.count('hidden_' + kind)
        if kind == 'closed' and len(fine) > 1 and rng.random() < .3:
            return tuple(fine)
        return fine
    return value


def good(gen, prop):
    while True:
        value = gen.value(prop, 1)
        if value is not None:
            return value


def state(engine, obj, cls):
    """everything that can be read, without opening links"""
    return {key: repr(value) if isinstance(value, spec.Date) else value
            for key, value in json.loads(obj.json(include_none=True)).items()}


def refuse(ctx, rng):
    engine = ENGINES[0]
    cls = rng.choice(list(spec.CLASSES) + SPECIAL * 5)
    obj = instance(rng, engine, cls, ctx)
    gen = spec.Gen(rng, 1)
    # the type of other classes is fixed
    names = [name for name in spec.PROPS[cls]
             if name != 'type' or cls in ('Object', 'Link')]
    for name in rng.sample(names, min(len(names), 8)):
        if name != 'type' and rng.random() < .7:
            value = good(gen, name)
            setattr(obj, name, c21.build(rng, engine, value, ctx))
    for name in rng.sample(names, min(len(names), 10)):
        value = wrong(rng, engine, name, ctx)
        before = state(engine, obj, cls)
        held = raw(obj, name)
        ctx.step('set', cls, name, value)
        try:
            setattr(obj, name, value)
        except ValueError:
            pass
        else:
            ctx.expect(False, f'{name} of a {cls} took {value!r}')
        ctx.equal(state(engine, obj, cls), before,
                  f'{cls} after refusing {name}={value!r}')
        ctx.expect(raw(obj, name) == held,
                   lambda: f'{name} of a {cls} after refusing {value!r}')
        ctx.count('refused')
        ctx.saw('refuse', name, repr(value)[:60])
    # the constructor as well
    name = rng.choice([name for name in names if name != 'type'])
    value = wrong(rng, engine, name, ctx)
    given = {name: value}
    if cls in EMPTY:
        given.setdefault('id', None)
    ctx.step('construct', cls, given)
    ctx.raises(ValueError, lambda: getattr(engine, cls)(**given),
               f'{cls}({name}={value!r})')
    ctx.count('constructors')


def every(ctx, rng, name):
    """each value that is outside of the range of a property"""
    engine = ENGINES[0]
    cls = rng.choice([cls for cls in spec.CLASSES if name in spec.PROPS[cls]
                      and (name != 'type' or cls in ('Object', 'Link'))])
    obj = instance(rng, engine, cls, ctx)
    gen = spec.Gen(rng, 1)
    if name != 'type' and rng.random() < .7:
        setattr(obj, name, c21.build(rng, engine, good(gen, name), ctx))
    kind, functional = spec.PROPERTIES[name]
    pool = outside(rng, engine, name, ctx)
    if functional:
        # one value, not several
        values = [good(gen, name) for _ in range(2)]
        pool += [[c21.build(rng, engine, value, ctx)
                  for value in values[:count]] for count in (0, 1, 2)]
        pool.append(tuple(pool[-1]))
    held = raw(obj, name)
    for value in pool:
        ctx.step('set', cls, name, value)
        ctx.raises(ValueError, lambda: setattr(obj, name, value),
                   f'setting {name} of a {cls} to {value!r}')
        ctx.expect(raw(obj, name) == held,
                   lambda: f'{name} of a {cls} after refusing {value!r}')
        ctx.count('every_value')


def raw(obj, name):
    """value as stored, links not opened"""
    with obj.switch_context('_JSONLD_OUTPUT_CONTEXT_'):
        return getattr(obj, name)


def accept(ctx, rng):
    engine = ENGINES[0]
    cls = rng.choice(list(spec.CLASSES))
    obj = instance(rng, engine, cls, ctx)
    gen = spec.Gen(rng, 1)
    for name in rng.sample(spec.PROPS[cls], min(len(spec.PROPS[cls]), 12)):
        if name == 'type':
            continue
        value = good(gen, name)
        given = c21.build(rng, engine, value, ctx)
        if isinstance(value, spec.Many) and spec.PROPERTIES[name][0] in \
                ('ref', 'url') and rng.random() < .3:
            given = tuple(given)
            ctx.count('tuples')
        others = {key: val for key, val in state(engine, obj, cls).items()
                  if key != name}
        ctx.step('set', cls, name, value)
        setattr(obj, name, given)
        found = spec.differ(engine, getattr(obj, name), value,
                            f'{name} of a {cls}')
        ctx.expect(not found, found)
        ctx.equal({key: val for key, val in state(engine, obj, cls).items()
                   if key != name}, others,
                  f'other properties after setting {name} of a {cls}')
        if isinstance(given, (engine.Object, engine.Link)) \
                and spec.PROPERTIES[name][0] != 'closed':
            if isinstance(given, engine.Object):
                ctx.expect(getattr(obj, name) is given,
                           lambda: f'{name} of a {cls} is another object')
                ctx.count('identity')
        ctx.count('accepted')
        ctx.saw('accept', name, spec.shape(value))
        if rng.random() < .2:
            setattr(obj, name, None)
            ctx.expect(getattr(obj, name) is None,
                       lambda: f'{name} of a {cls} after None: '
                               f'{getattr(obj, name)!r}')
            ctx.count('none')


def described(ctx, rng):
    """a link is given by its properties, others do no harm"""
    engine = ENGINES[0]
    gen = spec.Gen(rng, 0)
    cls = rng.choice(spec.OBJECTS)
    name = rng.choice([name for name in spec.PROPS[cls]
                       if spec.PROPERTIES[name][0] in ('ref', 'url')])
    wanted = {'href': gen.url()}
    wanted.update({'rel': 'author'} if rng.random() < .5 else {})
    wanted.update({'mediaType': 'text/x'} if rng.random() < .5 else {})
    wanted.update({'height': 5} if rng.random() < .5 else {})
    others = rng.sample([('self', 1), (5, 6), ('unknown', 'x'), (None, 1),
                         ('_private', 1), ('href ', 'no address'),
                         (('a',), 1)], rng.randrange(4))
    items = list(wanted.items()) + others
    rng.shuffle(items)
    given, before = dict(items), dict(items)
    obj = instance(rng, engine, cls, ctx)
    ctx.step('set', cls, name, given)
    setattr(obj, name, [given] if rng.random() < .3 else given)
    got = getattr(obj, name)
    got = got[0] if isinstance(got, list) else got
    ctx.expect(type(got) is engine.Link, lambda: f'{given} became {got!r}')
    ctx.equal({key: getattr(got, key) for key in
               ('href', 'rel', 'mediaType', 'height', 'width', 'id', 'name')},
              {**dict.fromkeys(('rel', 'mediaType', 'height', 'width', 'id',
                                'name')), **wanted},
              f'{name} given as {given}')
    ctx.equal(given, before, 'properties a link was given by')
    ctx.count('described')


def separate(ctx, rng):
    """objects do not share values"""
    engine = ENGINES[0]
    gen = spec.Gen(rng, 1)
    objects = []
    for _ in range(rng.randrange(2, 5)):
        cls = rng.choice(list(spec.CLASSES) + ['Note'] * 20 + ['Link'] * 20)
        node = gen.node(classes=[cls])
        objects.append((c21.make(rng, engine, node, ctx), node))
    for _ in range(10):
        obj, node = rng.choice(objects)
        name = rng.choice([name for name in spec.PROPS[node.cls]
                           if name not in ('type', 'totalItems',
                                           'startIndex', 'items',
                                           'orderedItems')])
        value = good(gen, name)
        setattr(obj, name, c21.build(rng, engine, value, ctx))
        node.props[name] = value
        ctx.step('set', node.cls, name, value)
        for other, wanted in objects:
            found = spec.differ(engine, other, wanted, wanted.cls)
            ctx.expect(not found, lambda: f'{found} after setting {name} of '
                                          f'a {node.cls}')
    ctx.count('separate')


def lists(ctx, rng):
    """a list is copied when it is set"""
    engine = ENGINES[0]
    gen = spec.Gen(rng, 0)
    name = rng.choice(['content', 'summary', 'name', 'attributedTo', 'to',
                       'tag', 'attachment', 'items'])
    cls = rng.choice(['Collection', 'OrderedCollectionPage'] if
                     name == 'items' else ['Note', 'Create', 'Collection'])
    ref = spec.PROPERTIES[name][0] == 'ref'

    def one():
        if ref and rng.random() < .5:
            return instance(rng, engine, rng.choice(spec.OBJECTS), ctx)
        return gen.url() if ref else gen.text() or 'x'
    given = [one() for _ in range(rng.randrange(1, 4))]
    objects = []
    for _ in range(3):
        if rng.random() < .5:
            obj = getattr(engine, cls)(**{name: given})
        else:
            obj = getattr(engine, cls)()
            setattr(obj, name, given)
        objects.append(obj)
    before = [obj.json() for obj in objects]
    ctx.step('lists', cls, name, len(given))
    given.append(one())
    ctx.equal([obj.json() for obj in objects], before,
              f'{name} after the list it was set to was changed')
    # what is read is the list of that object
    getattr(objects[0], name).append(one())
    ctx.equal([obj.json() for obj in objects[1:]], before[1:],
              f'{name} after the list of another object was changed')
    del given[:]
    ctx.equal([obj.json() for obj in objects[1:]], before[1:],
              f'{name} after the list it was set to was emptied')
    ctx.count('lists')
    ctx.saw('lists', cls, name)


def run(ctx):
    ctx.rule = ('distinct = different (property, value outside its range) '
                'refused and (property, shape of a value inside its range) '
                'accepted and read back')
    ctx.assumptions = ['truth values count as the numbers 0 and 1',
                       'the text of ids and durations is not restricted']
    ENGINES.append(as2.engine())
    ctx.case(lambda rng: refuse(ctx, rng), 'refuse',
             900 if ctx.quick else 20000, 60 if ctx.quick else 1200)
    names = list(spec.PROPERTIES)
    ctx.case(lambda rng: every(ctx, rng, names[rng.case_index % len(names)]),
             'every', (2 if ctx.quick else 20) * len(names))
    ctx.case(lambda rng: accept(ctx, rng), 'accept',
             800 if ctx.quick else 15000, 60 if ctx.quick else 900)
    ctx.case(lambda rng: separate(ctx, rng), 'separate',
             120 if ctx.quick else 2000, 40 if ctx.quick else 600)
    ctx.case(lambda rng: described(ctx, rng), 'described',
             200 if ctx.quick else 3000)
    ctx.case(lambda rng: lists(ctx, rng), 'lists',
             150 if ctx.quick else 3000)
    ctx.require(every_value=1500, lists=100, described=150, described_links=100, refused=1000, constructors=150, accepted=800, separate=15,
                hidden=50, none=50, tuples=10, identity=50)
