"""C21: what objects are written as, and reading it back."""
import enum
import json
from collections import OrderedDict, deque, namedtuple
from datetime import date, datetime, time, timedelta, timezone
from decimal import Decimal
from fractions import Fraction
from pathlib import PurePosixPath
from uuid import UUID

import as2
import as2spec as spec
from jsonld import (ApplicationActivityJson, JsonLdEngine, JsonLdPackage,
                    JsonProperty, contextualproperty)

ENGINES = []
OWN = []


class Text(str):
    """e.g. texts known to be safe, members of an enumeration"""


class Color(str, enum.Enum):
    RED = 'red'
    NONE = ''


class Level(enum.IntEnum):
    LOW = 0
    HIGH = 7


Pair = namedtuple('Pair', 'left right')


def build(rng, engine, value, ctx):
    """a value for a property, as a program would give it"""
    if isinstance(value, spec.Plain):
        if type(value.value) is str and rng.random() < .1:
            ctx.count('special_texts')
            return Text(value.value)
        return value.value
    if isinstance(value, spec.Date):
        roll = rng.random()
        if roll < .3:
            return value.text
        if roll < .6 or not 2 < value.instant.year < 9990:
            return value.instant
        zone = timezone(timedelta(minutes=rng.choice(
            [0, 60, -330, 845, -1439, 1])))
        ctx.count('zoned')
        return value.instant.replace(tzinfo=timezone.utc).astimezone(zone)
    if isinstance(value, spec.Ref):
        if rng.random() < .6:
            return value.href
        return engine.Link(href=value.href)
    if isinstance(value, spec.Many):
        return [build(rng, engine, one, ctx) for one in value.values]
    return make(rng, engine, value, ctx)


def make(rng, engine, node, ctx, kwargs=None):
    cls = getattr(engine, node.cls)
    items = [(name, value) for name, value in node.props.items()]
    given = {name: build(rng, engine, value, ctx) for name, value in items}
    late = {}
    if rng.random() < .4:
        # what the class fills in itself depends on these
        late = {name: given.pop(name) for name in list(given)
                if rng.random() < .5 and name not in
                ('items', 'orderedItems', 'totalItems', 'startIndex')}
    if node.cls in ('Relationship', 'Place', 'Profile', 'Tombstone'):
        given.setdefault('id', None)
    given.update(kwargs or {})
    if node.cls in ('Object', 'Link'):
        # the only ones a program has to tell
        given['type'] = node.cls
    if not node.is_link and given.get('id') and rng.random() < .5:
        obj = cls(given.pop('id'), **given)
    else:
        obj = cls(**given)
    for name, value in late.items():
        setattr(obj, name, value)
        ctx.count('set_later')
    return obj


def no_requests(ctx, fn):
    before = len(as2.REQUESTS)
    got = fn()
    ctx.expect(len(as2.REQUESTS) == before,
               lambda: f'requested {as2.REQUESTS[before:]}')
    return got


def one_object(ctx, rng):
    engine = ENGINES[0]
    gen = spec.Gen(rng, rng.choice([0, 1, 2, 2, 3]))
    node = gen.node(chance=rng.choice([None, None, .5, 1])
                    if gen.depth < 2 else None)
    doc = gen.document(node)
    loaded = rng.random() < .4
    ctx.step('object', loaded, json.dumps(doc)[:3000])
    if loaded:
        obj = engine.from_json(json.dumps(doc))
        ctx.count('loaded')
    else:
        obj = no_requests(ctx, lambda: make(
            rng, engine, node, ctx,
            {} if node.context == as2.NS else {'acontext': node.context}))
        ctx.count('built')
    wanted = node.json(whole=True)
    wanted['@context'] = node.context
    text = no_requests(ctx, obj.json)
    got = parse(ctx, text)
    ctx.expect(spec.same_json(got, wanted),
               lambda: f'{node.cls} is written as {text[:1500]}, expected '
                       f'{json.dumps(wanted, default=repr)[:1500]}')
    ctx.equal(no_requests(ctx, obj.data), got, 'data()')
    ctx.equal(parse(ctx, str(obj)), got, 'str()')
    small = obj.json(minified=True)
    ctx.equal(parse(ctx, small), got, 'json(minified=True)')
    ctx.expect(any(small == json.dumps(json.loads(small), ensure_ascii=ascii,
                                       separators=(',', ':'))
                   for ascii in (True, False)),
               lambda: f'not minified: {small[:500]}')
    indent = rng.choice([0, 1, 2, 4])
    large = obj.json(indent=indent)
    ctx.equal(parse(ctx, large), got, f'json(indent={indent})')
    ctx.expect(any(large == json.dumps(json.loads(large), indent=indent,
                                       ensure_ascii=ascii)
                   for ascii in (True, False)),
               lambda: f'not indented by {indent}: {large[:500]}')
    ctx.count('objects')
    ctx.saw(loaded, spec.shape(node))
    ctx.sample(text[:400])
    # writing changes nothing
    found = spec.differ(engine, obj, node, node.cls)
    ctx.expect(not found, lambda: f'after writing: {found}')
    # and back again
    again = engine.from_json(text)
    second = parse(ctx, again.json())
    ctx.expect(type(again) is type(obj), lambda: f'{text[:300]} is read as '
                                                 f'{type(again).__name__}')
    ctx.expect(spec.same_json(second, wanted),
               lambda: f'written again: {second!r}, first: {text[:1500]}')
    ctx.count('round_trips')


def parse(ctx, text):
    """strict: no NaN, no repeated keys"""
    def pairs(found):
        ctx.expect(len(dict(found)) == len(found),
                   lambda: f'repeated keys in {text[:500]}')
        return dict(found)

    def constant(name):
        ctx.expect(False, f'{name} in {text[:500]}')
    return json.loads(text, object_pairs_hook=pairs, parse_constant=constant)


def replaced(ctx, rng):
    """the last value set is what is written"""
    engine = ENGINES[0]
    gen = spec.Gen(rng, 1)
    cls = rng.choice(list(spec.CLASSES))
    node = spec.Node(cls, {'id': spec.Plain(gen.id())})
    obj = make(rng, engine, node, ctx)
    if 'Collection' in spec.ancestors(cls):
        node.props['totalItems'] = spec.Plain(0)
    if cls == 'OrderedCollectionPage':
        node.props['startIndex'] = spec.Plain(0)
    for _ in range(rng.randrange(5, 25)):
        name = rng.choice([name for name in spec.PROPS[cls]
                           if name != 'type'])
        if rng.random() < .25:
            value = None
            node.props.pop(name, None)
            if name in ('totalItems', 'startIndex'):
                node.props[name] = spec.Plain(None)
            setattr(obj, name, None)
        else:
            value = gen.value(name, 1)
            if value is None:
                continue
            node.props[name] = value
            setattr(obj, name, build(rng, engine, value, ctx))
        ctx.step('set', name, value)
        if rng.random() < .3:
            compare(ctx, engine, obj, node)
    compare(ctx, engine, obj, node)
    ctx.count('histories')


def compare(ctx, engine, obj, node):
    wanted = node.json(whole=True)
    wanted['@context'] = as2.NS
    got = parse(ctx, obj.json())
    ctx.expect(spec.same_json(got, wanted),
               lambda: f'{node.cls} is written as {got!r}, expected '
                       f'{json.dumps(wanted, default=repr)[:1500]}')
    for name in ('totalItems', 'startIndex'):
        node.props.setdefault(name, spec.Plain(None)) \
            if name in spec.PROPS[node.cls] else None
    found = spec.differ(engine, obj, node, node.cls)
    ctx.expect(not found, found)


KINDS = ['Note', 'Create', 'Like', 'Undo', 'Person', 'Image', 'Place',
         'Add', 'Question', 'Mention', 'Event', 'Offer']


def shared(ctx, rng):
    """objects within objects change, and are within several"""
    engine = ENGINES[0]
    gen = spec.Gen(rng, 0)
    pool = []
    for _ in range(rng.randrange(3, 7)):
        cls = rng.choice(KINDS)
        node = spec.Node(cls, {'id': spec.Plain(gen.id())})
        pool.append((node, make(rng, engine, node, ctx)))
    for _ in range(rng.randrange(8, 40)):
        at = rng.randrange(len(pool))
        node, obj = pool[at]
        roll = rng.random()
        if roll < .35:
            name = rng.choice([name for name in ('name', 'summary', 'content',
                                                 'mediaType', 'published',
                                                 'hreflang', 'rel')
                               if name in spec.PROPS[node.cls]])
            value = gen.value(name, 0) if rng.random() < .8 else None
        elif at + 1 < len(pool):
            name = rng.choice([name for name in (
                'actor', 'object', 'target', 'attachment', 'tag', 'location',
                'inReplyTo', 'icon', 'preview') if name in
                spec.PROPS[node.cls]])
            # only later ones: no circles
            later = [one for one in pool[at + 1:]
                     if name not in ('inReplyTo', 'object', 'icon')
                     or 'Link' not in spec.ancestors(one[0].cls)
                     and one[0].cls != 'Mention']
            if not later:
                continue
            if rng.random() < .5:
                value, given = rng.choice(later)
                node.props[name] = value
                ctx.step('within', at, name, value.cls)
                setattr(obj, name, given)
            else:
                some = [rng.choice(later) for _ in range(rng.randrange(4))]
                node.props[name] = spec.Many([one for one, _ in some])
                ctx.step('several within', at, name, len(some))
                setattr(obj, name, [one for _, one in some])
            ctx.count('put_within')
            name = None
        else:
            continue
        if name:
            ctx.step('set', at, name, value)
            if value is None:
                node.props.pop(name, None)
                setattr(obj, name, None)
            else:
                node.props[name] = value
                setattr(obj, name, build(rng, engine, value, ctx))
        if rng.random() < .6:
            written, own = rng.choice(pool[:at + 1])
            compare(ctx, engine, own, written)
            ctx.count('written_shared')
    for node, obj in pool:
        compare(ctx, engine, obj, node)
    ctx.count('shared')


def durations(ctx, rng):
    engine = ENGINES[0]
    note = engine.Note('https://a.example/1')
    length = timedelta(days=rng.choice([0, 0, 1, 29, 400]),
                       seconds=rng.choice([0, 1, 59, 60, 3600, 86399]))
    note.duration = length
    got = parse(ctx, note.json()).get('duration')
    ctx.expect(isinstance(got, str) and got.startswith('P'),
               lambda: f'{length} is written as {got!r}')
    ctx.expect(note.duration == length, 'writing changed the duration')
    ctx.count('durations')


# ---- values of own properties -------------------------------------------
def own_engine(names):
    class Thing(ApplicationActivityJson):
        @classmethod
        def __get_namespace__(cls):
            return 'urn:t#Thing'

        def __init__(self, acontext='urn:t', **kwargs):
            super().__init__(acontext)
            for name, value in kwargs.items():
                setattr(self, name, value)

    def make_property(name):
        def getter(self):
            return getattr(self, f'_own_{name}', None)

        def setter(self, value):
            setattr(self, f'_own_{name}', value)

        def namespace(cls):
            return f'urn:t#dfn-{name}'
        return type(name.title(), (JsonProperty,), {
            '__get_namespace__': classmethod(namespace),
            name: contextualproperty(getter).setter(setter)})
    return JsonLdEngine(JsonLdPackage(
        'urn:t', (Thing,), tuple(make_property(name) for name in names),
        {'urn:t#Thing': [f'urn:t#dfn-{name}' for name in names]}))


def anything(rng, engine, depth, ctx):
    """
    :return: a value of a program and what it is written as (a Date where
        the zone of the text is open, a tuple where the order is)
    """
    roll = rng.random()
    if roll < .4 or not depth:
        value = rng.choice([
            '', 'x', 'ü☃\n"', Text('abc'), Text(''), Color.RED, Color.NONE,
            0, 1, -1, 2 ** 70, Level.LOW, Level.HIGH, True, False, None,
            .5, -0.0, 1e300])
        ctx.count('special' if type(value).__module__ == __name__
                  else 'simple')
        return value, value
    if roll < .5:
        instant = datetime(rng.randrange(3, 9990), 1 + rng.randrange(12), 1,
                           rng.randrange(24), 59, rng.randrange(60),
                           tzinfo=timezone.utc)
        ctx.count('dates')
        zone = timezone(timedelta(minutes=rng.choice([0, 60, -330])))
        return instant.astimezone(zone), spec.Date(
            '', instant.replace(tzinfo=None))
    if roll < .6:
        value = rng.choice([
            Decimal('1.10'), Fraction(1, 3), UUID(int=5), date(2020, 2, 29),
            time(1, 2), timedelta(days=2, seconds=1), PurePosixPath('/a/b'),
            1 + 2j])
        ctx.count('others')
        return value, str(value)
    if roll < .7:
        pairs = {key: anything(rng, engine, depth - 1, ctx)
                 for key in rng.sample(NAMES, rng.randrange(3))}
        ctx.count('own_objects')
        obj = engine.Thing(**{key: one for key, (one, _) in pairs.items()})
        return obj, {key: text for key, (_, text) in pairs.items()
                     if text is not None}
    if roll < .82:
        pairs = {key: anything(rng, engine, depth - 1, ctx) for key in
                 rng.sample(['a', '', 'ü', '@id', 'None'], rng.randrange(4))}
        kind = rng.choice([dict, dict, OrderedDict])
        ctx.count('mappings')
        return kind((key, one) for key, (one, _) in pairs.items()), \
            {key: text for key, (_, text) in pairs.items()}
    if roll < .9:
        value = rng.choice([set, frozenset])(
            rng.sample([1, 'x', None, .5, Text('y'), (1, 2)],
                       rng.randrange(5)))
        ctx.count('sets')
        return value, tuple(list(one) if isinstance(one, tuple) else one
                            for one in value)
    if roll < .93:
        value = rng.choice([range(3), 'abc'.encode(), {1: 2}.keys()])
        return value, list(value)
    pairs = [anything(rng, engine, depth - 1, ctx)
             for _ in range(rng.randrange(4))]
    values, texts = [one for one, _ in pairs], [text for _, text in pairs]
    kind = rng.choice([list, list, tuple, deque])
    if len(pairs) == 2 and rng.random() < .5:
        return Pair(*values), texts
    ctx.count('sequences')
    return kind(values), texts


def like(got, wanted):
    """the written value is the expected one"""
    if isinstance(wanted, spec.Date):
        return isinstance(got, str) \
            and spec.parse_instant(got) == wanted.instant
    if isinstance(wanted, tuple):
        rest = list(got) if isinstance(got, list) else [got, got]
        for one in wanted:
            found = [n for n, two in enumerate(rest) if like(two, one)]
            if not found:
                return False
            del rest[found[0]]
        return not rest
    if isinstance(wanted, list):
        return isinstance(got, list) and len(got) == len(wanted) \
            and all(map(like, got, wanted))
    if isinstance(wanted, dict):
        return isinstance(got, dict) and got.keys() == wanted.keys() \
            and all(like(got[key], wanted[key]) for key in wanted)
    if isinstance(wanted, bool) or wanted is None:
        return got is wanted
    return got == wanted and not isinstance(got, bool) \
        and isinstance(got, str) == isinstance(wanted, str)


NAMES = ['first', 'second', 'third']


def own_values(ctx, rng):
    """classes and properties of a program, with values of every kind"""
    engine = OWN[0]
    thing = engine.Thing()
    wanted = {}
    for _ in range(rng.randrange(1, 6)):
        name = rng.choice(NAMES)
        value, text = anything(rng, engine, 3, ctx)
        ctx.step('set', name, value)
        setattr(thing, name, value)
        wanted[name] = text
        full = {key: text for key, text in wanted.items()
                if text is not None} | {'@context': 'urn:t'}
        for what, got in (('data()', thing.data()),
                          ('json()', parse(ctx, thing.json())),
                          ('minified', parse(ctx, thing.json(
                              minified=True)))):
            ctx.expect(like(got, full),
                       lambda: f'{what}: {got!r}, expected {full!r}')
        ctx.expect(getattr(thing, name) is value, 'writing changed a value')
        ctx.saw('own', type(value).__name__, len(full))
    ctx.count('own')


def run(ctx):
    ctx.rule = ('distinct = different (loaded or built, shape) of objects '
                'whose JSON was compared with the vocabulary and read back')
    ctx.assumptions = ['links with an address are written as the address',
                       'texts can be encoded as UTF-8']
    ENGINES.append(as2.engine())
    OWN.append(own_engine(NAMES))
    ctx.case(lambda rng: one_object(ctx, rng), 'objects',
             700 if ctx.quick else 30000, 60 if ctx.quick else 1200)
    ctx.case(lambda rng: replaced(ctx, rng), 'replaced',
             150 if ctx.quick else 5000, 40 if ctx.quick else 600)
    ctx.case(lambda rng: shared(ctx, rng), 'shared',
             100 if ctx.quick else 4000, 30 if ctx.quick else 400)
    ctx.case(lambda rng: own_values(ctx, rng), 'own values',
             400 if ctx.quick else 10000, 30 if ctx.quick else 300)
    ctx.case(lambda rng: durations(ctx, rng), 'durations', 30)
    ctx.require(objects=250, round_trips=250, loaded=80, built=120,
                zoned=20, set_later=50, histories=50, durations=30,
                own=200, special=50, own_objects=30, dates=30, others=30,
                shared=20, put_within=100, written_shared=100,
                mappings=30, sets=20, sequences=30, special_texts=50)
