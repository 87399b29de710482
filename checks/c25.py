"""C25: choosing and renaming what is written."""
import json

import as2
import as2spec as spec
import c21
from jsonld import (ApplicationActivityJson, JsonLdEngine, JsonLdPackage,
                    JsonProperty, contextualproperty, JSON_DATA_CONTEXT)

ENGINES = []


def expected(full, include, exclude, rename, include_none, reject, names):
    """
    :param full: what is written without options, by property name
    """
    found = {}
    for name in names:
        value = full.get(name)
        if value is None and not include_none:
            continue
        if include and name not in include:
            continue
        if exclude and name in exclude:
            continue
        if any(value == one for one in reject):
            continue
        found[rename.get(name, '@context' if name == 'acontext' else name)] \
            = value
    return found


def options(ctx, rng):
    engine = ENGINES[0]
    gen = spec.Gen(rng, rng.choice([0, 1, 2]))
    node = gen.node(chance=rng.choice([None, .5]) if gen.depth < 2 else None)
    obj = c21.make(rng, engine, node, ctx)
    full = node.json(whole=True)
    full['acontext'] = as2.NS
    names = spec.PROPS[node.cls] + ['acontext']
    if 'Collection' in spec.ancestors(node.cls):
        # the package knows these for all collections
        names = names + [name for name in ('orderedItems', 'unorderedItems')
                         if name not in names]
    for _ in range(8):
        include = exclude = ()
        kind = rng.choice([list, tuple, set, frozenset, dict.fromkeys])
        if rng.random() < .5:
            include = kind(rng.sample(names, rng.randrange(
                min(8, len(names)))) + rng.choice([[], ['unknownName']]))
        if rng.random() < .5:
            exclude = kind(rng.sample(names, rng.randrange(
                min(8, len(names)))) + rng.choice([[], ['unknownName']]))
        rename = None
        if rng.random() < .5:
            rename = {name: f'x-{name}' for name in
                      rng.sample(names, rng.randrange(min(6, len(names))))}
            if rng.random() < .3:
                rename['id'] = '@id'
            if include and kind in (list, tuple) and rng.random() < .3:
                # chosen by their own names only
                include = kind([*include, *rename.values()])
            if exclude and kind in (list, tuple) and rng.random() < .3:
                exclude = kind([*exclude, *rename.values()])
        include_none = rng.random() < .4
        reject = ()
        if rng.random() < .3:
            reject = [value for value in
                      (full.get(name) for name in
                       rng.sample(names, min(4, len(names))))
                      if isinstance(value, (str, int, bool))]
        ctx.step(node.cls, include, exclude, rename, include_none, reject)
        wanted = expected(full, include, exclude, rename or {}, include_none,
                          reject, names)
        args = dict(include=include, exclude=exclude, rename=rename,
                    include_none=include_none)
        args = {key: value for key, value in args.items()
                if value or rng.random() < .5}
        before = repr(args)
        got = obj.data(**args, **({'reject_values': reject} if reject
                                  else {}))
        ctx.expect(spec.same_json(got, wanted),
                   lambda: f'data({args}, {reject}) of a {node.cls}: '
                           f'{got!r}, expected {wanted!r}')
        ctx.expect(repr(args) == before, 'the options were changed')
        if not reject:
            text = obj.json(**args, minified=rng.random() < .5)
            ctx.expect(spec.same_json(c21.parse(ctx, text), wanted),
                       lambda: f'json({args}) of a {node.cls}: {text}')
            ctx.count('json')
        ctx.count('options')
        for key, used in (('include', include), ('exclude', exclude),
                          ('rename', rename), ('none', include_none),
                          ('reject', reject)):
            if used:
                ctx.count('with_' + key)
        ctx.saw(node.cls, bool(include), bool(exclude), bool(rename),
                include_none, bool(reject), len(wanted))
    # options are for one call
    got = obj.data()
    full['@context'] = full.pop('acontext')
    ctx.expect(spec.same_json(got, full), lambda: f'data() later: {got!r}')


def access(ctx, rng):
    """reading properties by name and all of them"""
    engine = ENGINES[0]
    node = spec.Gen(rng, 1).node()
    obj = c21.make(rng, engine, node, ctx)
    names = spec.PROPS[node.cls]
    chosen = rng.sample(names, min(len(names), rng.randrange(1, 6)))
    kind = rng.choice([list, tuple])
    got = obj[kind(chosen)]
    ctx.expect(set(got) == set(chosen), lambda: f'{got.keys()} for {chosen}')
    for name in chosen:
        same(ctx, got[name], getattr(obj, name), name)
        one = obj[name]
        ctx.expect(list(one) == [name], lambda: f'obj[{name!r}]: {one!r}')
        same(ctx, one[name], getattr(obj, name), name)
    for keys in ('unknownName', ['unknownName'], chosen + ['unknownName'],
                 ('nothing', *chosen), '', ['___id___'], ['json']):
        error = ctx.raises(KeyError, lambda: obj[keys], f'obj[{keys!r}]')
        ctx.expect(not chosen[0] or isinstance(error, KeyError), 'KeyError')
        ctx.count('unknown')
    if 'Collection' not in spec.ancestors(node.cls):
        every = dict(obj)
        ctx.expect(set(names) <= set(every),
                   lambda: f'{set(names) - set(every)} not in dict()')
        for name in names:
            same(ctx, every[name], getattr(obj, name), name)
        ctx.count('iterated')
    ctx.count('access')
    ctx.saw('access', node.cls, tuple(sorted(chosen)))


def same(ctx, got, wanted, name):
    ctx.expect(got is wanted or got == wanted
               or type(got) is type(wanted) and hasattr(got, 'json')
               and json.loads(got.json()) == json.loads(wanted.json()),
               lambda: f'{name}: {got!r}, expected {wanted!r}')


class Bad(Exception):
    pass


def failing_engine():
    """a package with a property whose value cannot be written"""
    class Thing(ApplicationActivityJson):
        @classmethod
        def __get_namespace__(cls):
            return 'urn:t#Thing'

        def __init__(self, acontext='urn:t', **kwargs):
            super().__init__(acontext)
            self.mode = None
            self.link = None

    class Link(JsonProperty):
        @classmethod
        def __get_namespace__(cls):
            return 'urn:t#dfn-link'

        @contextualproperty
        def link(self):
            return ('inside', self.___link___)

        @link.getter_context(JSON_DATA_CONTEXT)
        def link(self):
            if self.mode == 'fail':
                raise Bad('cannot be written')
            return ('written', self.___link___)

        @link.getter_context('OTHER')
        def link(self):
            return ('other', self.___link___)

        @link.setter
        def link(self, value):
            self.___link___ = value

    class Mode(JsonProperty):
        @classmethod
        def __get_namespace__(cls):
            return 'urn:t#dfn-mode'

        @contextualproperty
        def mode(self):
            return getattr(self, '___mode___', None)

        @mode.setter
        def mode(self, value):
            self.___mode___ = value

    return JsonLdEngine(JsonLdPackage(
        'urn:t', (Thing,), (Link, Mode),
        {'urn:t#Thing': ('urn:t#dfn-link', 'urn:t#dfn-mode')}))


def failures(ctx, rng):
    """a failure while writing does not change how properties are read"""
    engine = failing_engine()
    thing = engine.Thing()
    inner = engine.Thing()
    value = rng.randrange(1000)
    thing.link = inner.link = value
    for _ in range(rng.randrange(3, 12)):
        action = rng.choice(['write', 'fail', 'nested', 'other', 'unknown',
                             'block'])
        ctx.step(action)
        if action == 'write':
            thing.mode = None
            ctx.equal(thing.data()['link'], ['written', value], 'data()')
        elif action == 'fail':
            thing.mode = 'fail'
            ctx.raises(Bad, rng.choice([thing.data, thing.json,
                                        thing.__str__]), 'writing')
            ctx.count('failures')
        elif action == 'nested':
            thing.mode = inner
            inner.mode = rng.choice([None, 'fail'])
            if inner.mode:
                ctx.raises(Bad, thing.data, 'writing a nested object')
                ctx.count('nested_failures')
            else:
                ctx.equal(thing.data()['mode']['link'], ['written', value],
                          'a nested object')
        elif action in ('other', 'unknown'):
            thing.mode = None
            context, wanted = {'other': ('OTHER', 'other'),
                               'unknown': ('NOBODY', 'inside')}[action]
            ctx.equal(thing.data(context=context)['link'], [wanted, value],
                      f'data(context={context!r})')
            # of that object, not of those within
            inner.mode = None
            thing.mode = rng.choice([inner, [inner], {'a': inner}])
            got = thing.data(context=context)
            within = got['mode']
            while 'link' not in within:
                within = within['a'] if isinstance(within, dict) \
                    else within[0]
            ctx.equal([got['link'], within['link']],
                      [[wanted, value], ['written', value]],
                      f'data(context={context!r}) with an object within')
            ctx.count('within_contexts')
        else:
            try:
                with thing.switch_context('OTHER'):
                    thing.mode = None
                    ctx.equal([thing.data()['link'],
                               c21.parse(ctx, thing.json())['link']],
                              [['written', value]] * 2,
                              'written within the block')
                    ctx.equal(thing.link, ('other', value), 'in the block')
                    with thing.switch_context(JSON_DATA_CONTEXT):
                        thing.mode = None
                        ctx.equal(thing.link, ('written', value),
                                  'in the inner block')
                    ctx.equal(thing.link, ('other', value),
                              'after the inner block')
                    if rng.random() < .5:
                        raise Bad
            except Bad:
                ctx.count('failures')
        ctx.equal(thing.link, ('inside', value), f'link after {action}')
        ctx.equal(inner.link, ('inside', value), f'inner after {action}')
        ctx.saw('failures', action, len(ctx.trace))


def transforms(ctx, rng):
    """the listed finding"""
    note = ENGINES[0].Note('https://a.example/1', name='x')
    if note.data(transforms={'name': lambda value: 'changed'})['name'] \
            == 'x':
        ctx.violation('transforms are not applied', key='transforms')
    ctx.count('transforms')


def run(ctx):
    ctx.rule = ('distinct = different (class, options used, number of '
                'values written), sets of names read and positions of '
                'failures')
    ENGINES.append(as2.engine())
    n = 1 if ctx.quick else 25
    ctx.case(lambda rng: options(ctx, rng), 'options', 500 * n, 60 * n)
    ctx.case(lambda rng: access(ctx, rng), 'access', 300 * n, 40 * n)
    ctx.case(lambda rng: failures(ctx, rng), 'failures', 60 * n, 40 * n)
    ctx.case(lambda rng: transforms(ctx, rng), 'transforms', 1)
    ctx.require(options=1000, json=500, with_include=300, with_exclude=300,
                with_rename=300, with_none=300, with_reject=100, access=100,
                unknown=500, iterated=50, failures=50, nested_failures=10,
                within_contexts=20)
