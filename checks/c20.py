"""C20: what documents are loaded as."""
import copy
import json
import os

from pyld.jsonld import JsonLdError

import as2
import as2spec as spec
import c26
import vf
from jsonld import JsonLdEngine

ENGINES = []


def load(ctx, rng, engine, doc):
    """loads a document in one of the ways that exist"""
    how = rng.choice(['text', 'dict', 'index', 'pretty'])
    ctx.count('loaded_' + how)
    if how == 'dict':
        before = copy.deepcopy(doc)
        got = engine.from_json(doc)
        ctx.expect(doc == before and list(doc) == list(before),
                   'loading changed the given data')
        return got
    if how == 'index':
        return engine[json.dumps(doc)]
    return engine.from_json(json.dumps(
        doc, ensure_ascii=rng.random() < .5,
        indent=2 if how == 'pretty' else None))


def one_document(ctx, rng):
    engine = ENGINES[0]
    gen = spec.Gen(rng, rng.choice([0, 1, 2, 2, 3]))
    node = gen.node(chance=rng.choice([None, None, None, .5, 1])
                    if gen.depth < 2 else None)
    doc = gen.document(node)
    ctx.step('document', json.dumps(doc)[:3000])
    if rng.random() < .3:
        # not part of the vocabulary
        doc['zzUnknown'] = rng.choice([1, 'x', {'type': 'Note'}, ['y']])
        ctx.count('unknown_properties')
    requests = len(as2.REQUESTS)
    obj = load(ctx, rng, engine, doc)
    ctx.expect(len(as2.REQUESTS) == requests,
               lambda: f'loading requested {as2.REQUESTS[requests:]}')
    for attempt in range(2):
        found = spec.differ(engine, obj, node, node.cls, node.context)
        ctx.expect(not found, lambda: f'{found} (reading {attempt + 1}) '
                                      f'of {json.dumps(doc)[:1500]}')
    for base in spec.ancestors(node.cls):
        ctx.expect(isinstance(obj, getattr(engine, base)),
                   f'a {node.cls} is no {base}')
    ctx.expect(not hasattr(obj, 'zzUnknown') or 'zzUnknown' not in doc,
               'an unknown property became one of the object')
    ctx.count('documents')
    ctx.count('values', len(node.props))
    ctx.count('nested', repr(node).count('Node(') - 1)
    ctx.saw(spec.shape(node))
    ctx.sample(json.dumps(doc)[:400])
    if 'Collection' in spec.ancestors(node.cls):
        check_members(ctx, engine, obj, node)


def deep(ctx, rng):
    """objects in objects in objects"""
    engine = ENGINES[0]
    gen = spec.Gen(rng, 0)
    node = gen.chain(rng.choice([6, 9, 14]))
    doc = gen.document(node)
    ctx.step('deep', json.dumps(doc)[:3000])
    obj = load(ctx, rng, engine, doc)
    found = spec.differ(engine, obj, node, node.cls, node.context)
    ctx.expect(not found, lambda: f'{found} of {json.dumps(doc)[:1500]}')
    ctx.count('deep')


def counted(ctx, rng, cls, which):
    """collections with all kinds of members and numbers of members"""
    engine = ENGINES[0]
    gen = spec.Gen(rng, 0)
    props = {}
    for name in ('items', 'orderedItems'):
        if name not in spec.PROPS[cls]:
            continue
        which, kind = divmod(which, 6)
        if kind == 1:
            props[name] = spec.Plain(None)
        elif kind == 2:
            props[name] = gen.node(classes=spec.OBJECTS)
        elif kind > 2:
            props[name] = spec.Many([gen.node(classes=['Note', 'Image'])
                                     for _ in range(kind - 3)])
    given = [..., None, 0, 5][which % 4]
    if given is not ...:
        props['totalItems'] = spec.Plain(given)
    if given is None:
        # the same as none given
        node = spec.Node(cls, {**props, 'totalItems': spec.Plain(
            spec.Node(cls, {key: value for key, value in props.items()
                            if key != 'totalItems'})
            .defaults()['totalItems'])})
    else:
        node = spec.Node(cls, props)
    doc = {**spec.Node(cls, props).doc(), '@context': as2.NS}
    ctx.step('counted', doc)
    obj = load(ctx, rng, engine, doc)
    found = spec.differ(engine, obj, node, cls)
    ctx.expect(not found, lambda: f'{found} of {doc}')
    check_members(ctx, engine, obj, node)
    ctx.count('counted')
    ctx.saw('counted', cls, tuple(doc.get(name) and len(doc[name]) for name
                                  in ('items', 'orderedItems')), given)


def check_members(ctx, engine, obj, node):
    wanted = []
    for name in ('orderedItems', 'items'):
        value = node.props.get(name)
        if name == 'orderedItems' \
                and name not in spec.PROPS[node.cls]:
            continue
        if isinstance(value, spec.Many):
            wanted += value.values
        elif value is not None and not (isinstance(value, spec.Plain)
                                        and value.value is None):
            if isinstance(value, spec.Node) and 'Collection' in \
                    spec.ancestors(value.cls):
                return      # a collection as the only member
            wanted.append(value)
    got = list(obj)
    ctx.equal(len(got), len(wanted), f'members of a {node.cls}')
    for index, value in enumerate(wanted):
        found = spec.differ(engine, got[index], value, f'member {index}')
        ctx.expect(not found, found)
    ctx.count('collections')
    ctx.count('members', len(wanted))


SPELLINGS = [
    lambda name: ({'type': name}, None),
    lambda name: ({'@type': name}, None),
    lambda name: ({'type': f'{as2.NS}#{name}'}, None),
    lambda name: ({'type': f'as:{name}'}, None),
    lambda name: ({'type': [name]}, None),
    lambda name: ({'type': [name, 'https://ext.example/ns#Special']}, None),
    lambda name: ({'type': name}, [as2.NS, {'x': 'https://x.example/'}]),
    lambda name: ({'kind': name}, [as2.NS, {'kind': '@type'}]),
    lambda name: ({'type': 'Alias'}, [as2.NS, {'Alias': f'as:{name}'}]),
]


def one_type(ctx, rng, name, spelling):
    engine = ENGINES[0]
    doc, context = SPELLINGS[spelling](name)
    doc['id'] = 'https://example.org/1'
    doc['@context'] = context or as2.NS
    if rng.random() < .5:
        doc['name'] = 'x'
    ctx.step('type', doc)
    obj = load(ctx, rng, engine, doc)
    ctx.expect(type(obj) is getattr(engine, name),
               lambda: f'{doc} became a {type(obj).__name__}')
    if rng.random() < .3 and 'Object' in spec.ancestors(name):
        # the same for what is nested
        inner = {key: value for key, value in doc.items()
                 if key != '@context'}
        outer = {'@context': doc['@context'], 'type': 'Create',
                 'id': 'https://example.org/2', 'object': inner}
        if 'kind' in doc:
            outer['kind'] = 'Create'
            del outer['type']
        obj = load(ctx, rng, engine, outer)
        ctx.expect(type(obj.object) is getattr(engine, name),
                   lambda: f'{outer}: the object is '
                           f'{type(obj.object).__name__}')
        ctx.count('nested_types')
    if rng.random() < .3 and 'Object' in spec.ancestors(name):
        own_context(ctx, rng, engine, name, doc)
    ctx.count('types')
    ctx.saw('type', name, spelling)


def own_context(ctx, rng, engine, name, inner):
    """what is nested may bring the context it is read with"""
    text = spec.Gen(rng).text() or 'x'
    context = inner['@context']
    inner = {key: value for key, value in inner.items()
             if key not in ('@context', 'name')}
    inner['name'] = text
    inner = {'@context': context, **inner} if rng.random() < .5 \
        else {**inner, '@context': context}
    prop, cls = rng.choice([('object', 'Create'), ('actor', 'Like'),
                            ('attachment', 'Note'), ('audience', 'Person'),
                            ('inReplyTo', 'Note'), ('target', 'Move'),
                            ('generator', 'Group'), ('preview', 'Note')])
    if cls == 'Create' and rng.random() < .5:
        cls = 'Announce'
    outer = {'@context': as2.NS, 'type': cls, 'id': 'https://example.org/2'}
    many = rng.random() < .4
    plain = {'type': 'Note', 'name': 'plain'}
    if many:
        outer[prop] = [inner, plain] if rng.random() < .5 \
            else [plain, inner]
        at = outer[prop].index(inner)
    else:
        outer[prop] = inner
    if rng.random() < .3:
        outer['@context'] = [as2.NS, {'other': 'https://ext.example/ns#'}]
    ctx.step('own context', outer)
    obj = load(ctx, rng, engine, outer)
    got = getattr(obj, prop)
    if many:
        ctx.expect(isinstance(got, list) and len(got) == 2,
                   lambda: f'{outer}: {prop} is {got!r}')
        ctx.expect(got[1 - at].name == 'plain',
                   lambda: f'{outer}: {prop} has {spec.show(got[1 - at])}')
        got = got[at]
    ctx.expect(type(got) is getattr(engine, name),
               lambda: f'{outer}: {prop} is {type(got).__name__}')
    ctx.equal(got.name, text, f'name of {prop} of {outer}')
    ctx.equal(got.id, inner['id'], f'id of {prop} of {outer}')
    ctx.count('own_contexts')


def refusals(ctx, rng):
    engine = ENGINES[0]
    good = {'@context': as2.NS, 'type': 'Note', 'id': 'https://a.example/1'}
    for doc in ({'@context': as2.NS, 'id': 'https://a.example/1'},
                {'@context': as2.NS, 'id': 'https://a.example/1',
                 'name': 'no type'},
                {'@context': as2.NS}, {'@context': as2.NS, 'name': 'x'},
                {**good, 'type': 'Nonsense'}, {**good, 'type': 'note'},
                {**good, 'type': 'https://ext.example/ns#Note'},
                {**good, 'type': 'as:Nonsense'}, {**good, 'type': 'actor'},
                {**good, 'type': 'https://www.w3.org/ns/activitystreams'},
                {**good, 'type': f'{as2.NS}#Note2'},
                {**good, 'type': f'{as2.NS}#dfn-name'},
                {**good, 'type': ['https://ext.example/ns#Other']}):
        before = copy.deepcopy(doc)
        try:
            got = load(ctx, rng, engine, doc)
        except ValueError:
            pass
        else:
            ctx.expect(False, f'{before} became a {type(got).__name__}')
        ctx.count('refused')
    for text in ('', '{', '[', 'null garbage', '{"type": Note}', "{'a': 1}"):
        ctx.raises(ValueError, lambda: engine.from_json(text),
                   f'loading {text!r}')
        ctx.raises(ValueError, lambda: engine[text], f'loading {text!r}')
        ctx.count('refused')
    for keys in (1, None, {'type': 'Note'}, [json.dumps(good), 1], {1},
                 (good,)):
        ctx.raises(TypeError, lambda: engine[keys], f'engine[{keys!r}]')
    # values that are no value of the property
    for name, value in (('published', 'yesterday'), ('id', 5),
                        ('content', 7), ('published', 2015),
                        ('mediaType', ['a', 'b']), ('to', 5),
                        ('updated', '2015-13-01T00:00:00Z'),
                        ('attributedTo', {'href': 5}),
                        ('tag', {'type': 'Link', 'href': 5}),
                        ('attachment', [{'href': True}]),
                        ('to', {'href': ['https://a.example', 5]})):
        ctx.raises((ValueError, JsonLdError),
                   lambda: load(ctx, rng, engine, {**good, name: value}),
                   f'loading a Note with {name}={value!r}')
        ctx.count('refused')


def several(ctx, rng):
    engine = ENGINES[0]
    gen = spec.Gen(rng, 1)
    nodes = [gen.node() for _ in range(rng.choice([0, 1, 2, 5]))]
    texts = [json.dumps(gen.document(node)) for node in nodes]
    if nodes and rng.random() < .5:
        # the same text again
        index, at = rng.randrange(len(nodes)), rng.randrange(len(nodes) + 1)
        node, text = nodes[index], texts[index]
        nodes.insert(at, node)
        texts.insert(at, text)
        ctx.count('repeated')
    keys = rng.choice([list, tuple])(texts)
    got = engine[keys]
    ctx.equal(len(got), len(nodes), 'number of loaded objects')
    for index, node in enumerate(nodes):
        found = spec.differ(engine, got[index], node, node.cls, node.context)
        ctx.expect(not found, found)
        ctx.expect(all(got[index] is not one for one in got[:index]),
                   'two documents are one object')
    ctx.count('several')


def published(ctx, rng, name, doc):
    """the documents published with the specification"""
    engine = ENGINES[0]
    if name.startswith('fail') and not isinstance(doc, dict):
        for form in (json.dumps(doc), json.dumps(doc, indent=1)):
            ctx.raises(ValueError, lambda: engine.from_json(form),
                       f'loading {form}')
            ctx.raises(ValueError, lambda: engine[form], f'engine[{form!r}]')
        ctx.count('no_objects')
        return
    if name.startswith('fail/number-as'):
        ctx.raises((ValueError, JsonLdError),
                   lambda: load(ctx, rng, engine, doc), f'loading {doc}')
        ctx.count('published_refused')
        return
    try:
        if name.startswith('fail'):
            raise spec.Outside
        node, doc = spec.interpret(doc)
    except spec.Outside:
        ctx.count('published_outside')
        return
    context = doc.get('@context')
    if context and rng.random() < .5:
        items = list(doc.items())
        rng.shuffle(items)
        doc = dict(items)
    elif context in (None, as2.NS) and rng.random() < .5:
        # read by that of ActivityStreams
        doc = {key: value for key, value in doc.items()
               if key != '@context'}
        if rng.random() < .6:
            doc['@context'] = rng.choice([None, [], {}, ''])
    ctx.step('published', name, doc)
    obj = load(ctx, rng, engine, doc)
    found = spec.differ(engine, obj, node, node.cls,
                        doc.get('@context') or as2.NS)
    ctx.expect(not found, lambda: f'{name}: {found} of {doc}')
    wanted = node.json(whole=True)
    wanted['@context'] = doc.get('@context') or as2.NS
    got = obj.data()
    ctx.expect(spec.same_json(got, wanted),
               lambda: f'{name} is written as {got}, expected {wanted}')
    ctx.count('published')
    ctx.saw('published', name)


def own_vocabulary(ctx, rng):
    """objects of other vocabularies, at any depth"""
    base = f'urn:v{rng.randrange(10 ** 6)}'
    vocabulary = c26.Vocabulary(rng, base, 0)
    engine = JsonLdEngine(rng.choice([tuple, list])([vocabulary.package])
                          if rng.random() < .5 else vocabulary.package)
    numbers = sorted(vocabulary.classes)
    count = [0]

    def make(depth):
        """document and what it means"""
        roll = rng.random()
        if depth <= 0 or roll < .25:
            value = rng.choice(['x', '', 1.5, 0.0, True, False, None, 1e300])
            return value, value
        if roll < .45:
            found = [make(depth - 1) for _ in range(rng.randrange(4))]
            return [one for one, _ in found], [one for _, one in found]
        if roll < .65:
            found = {rng.choice(['a', 'b', 'q r', 'ü']): make(depth - 1)
                     for _ in range(rng.randrange(3))}
            return ({key: one for key, (one, _) in found.items()},
                    {key: one for key, (_, one) in found.items()})
        return node(depth - 1)

    def node(depth):
        number = rng.choice(numbers)
        doc = {'@type': rng.choice([
            f'{base}#C{number}', [f'{base}#C{number}'], f'v:C{number}'])}
        mine = sorted(vocabulary.has(number))
        props = {}
        for p in rng.sample(mine, rng.randrange(len(mine) + 1)):
            doc[f'p{p}'], props[p] = make(depth)
        count[0] += 1
        return doc, (number, {p: props.get(p) for p in mine})

    def compare(got, wanted, path):
        if isinstance(wanted, tuple):
            number, props = wanted
            ctx.expect(type(got) is getattr(engine, f'C{number}'),
                       lambda: f'{path} is {got!r}, expected a C{number}')
            for p, value in props.items():
                compare(getattr(got, f'p{p}'), value, f'{path}.p{p}')
            ctx.equal(got.acontext, context, f'the context of {path}')
        elif isinstance(wanted, list):
            ctx.expect(isinstance(got, list) and len(got) == len(wanted),
                       lambda: f'{path} is {got!r}')
            for index, value in enumerate(wanted):
                compare(got[index], value, f'{path}[{index}]')
        elif isinstance(wanted, dict):
            ctx.expect(isinstance(got, dict) and got.keys() == wanted.keys(),
                       lambda: f'{path} is {got!r}')
            for key, value in wanted.items():
                compare(got[key], value, f'{path}[{key!r}]')
        else:
            # 1000 for 1: not what the vocabulary does with numbers
            ctx.expect(type(got) is type(wanted) and got == wanted
                       or isinstance(wanted, bool)
                       and got == wanted * 1000,
                       lambda: f'{path} is {got!r}, expected {wanted!r}')
    context = rng.choice([{'v': f'{base}#'}, [{'v': f'{base}#'}, {'w': 'urn:w#'}]])
    doc, wanted = node(4)
    doc = {'@context': context, **doc} if rng.random() < .5 \
        else {**doc, '@context': context}
    ctx.step('own vocabulary', json.dumps(doc)[:2000])
    compare(load(ctx, rng, engine, doc), wanted, f'C{wanted[0]}')
    ctx.count('own_documents')
    ctx.count('own_objects', count[0])
    ctx.saw('own', count[0], len(numbers))


def without_type(ctx, rng):
    """the listed finding: references by an id and no type"""
    engine = ENGINES[0]
    doc = {'@context': as2.NS, 'type': 'Like', 'id': 'https://a.example/1',
           'actor': {'id': 'https://a.example/2', 'name': 'Sally'}}
    try:
        engine.from_json(doc)
    except ValueError:
        ctx.violation('a document with a nested object without type is '
                      'refused', key='untyped-nested')
    ctx.count('untyped')


def run(ctx):
    ctx.rule = ('distinct = different shapes (classes, properties, nesting, '
                'kinds of values) of documents loaded and compared value by '
                'value with the vocabulary, and (class, spelling of the '
                'type) pairs')
    ctx.assumptions = [
        'requests end in an offline web; the ActivityStreams context is the '
        'published one', 'nested objects are of known types']
    ENGINES.append(as2.engine())
    ctx.case(lambda rng: one_document(ctx, rng), 'documents',
             900 if ctx.quick else 40000, 60 if ctx.quick else 1500)
    pairs = [(name, spelling) for name in spec.CLASSES
             for spelling in range(len(SPELLINGS))]
    ctx.case(lambda rng: one_type(ctx, rng, *pairs[rng.case_index]), 'types',
             len(pairs))
    ctx.case(lambda rng: refusals(ctx, rng), 'refusals',
             5 if ctx.quick else 30)
    with open(os.path.join(vf.VERIF, 'fixtures', 'examples.json')) as reader:
        examples = sorted(json.load(reader).items())
    ctx.case(lambda rng: published(
        ctx, rng, *examples[rng.case_index % len(examples)]), 'published',
        len(examples) * (2 if ctx.quick else 20))
    ctx.case(lambda rng: several(ctx, rng), 'several',
             30 if ctx.quick else 300)
    ctx.case(lambda rng: own_vocabulary(ctx, rng), 'own',
             200 if ctx.quick else 6000)
    ctx.case(lambda rng: without_type(ctx, rng), 'untyped', 1)
    cases = [(cls, which) for cls in spec.CLASSES
             if 'Collection' in spec.ancestors(cls)
             for which in range(4 * 6 ** sum(
                 name in spec.PROPS[cls]
                 for name in ('items', 'orderedItems')))]
    ctx.case(lambda rng: counted(ctx, rng, *cases[
        rng.case_index % len(cases)]), 'counted',
        len(cases) * (1 if ctx.quick else 5))
    ctx.case(lambda rng: deep(ctx, rng), 'deep', 12 if ctx.quick else 300)
    ctx.require(own_documents=100, own_objects=200, documents=300, types=len(pairs), refused=50, collections=20,
                members=20, nested_types=50, own_contexts=50, nested=100, several=20, repeated=5,
                loaded_text=50, loaded_dict=50, loaded_index=50,
                published=300, no_objects=6, published_refused=10, deep=5,
                counted=len(cases))
