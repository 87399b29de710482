"""C24: links are opened when they are read, and only then."""
import json
import socket

import requests

import as2
import as2spec as spec
import c21

ENGINES = []
# not lists, not in the constructor's way of counting
SINGLE = {'page', 'partOf', 'ref', 'ref1'}


class Web:
    """pages with addresses that requests leaves as they are"""

    def __init__(self, rng):
        self.rng = rng
        self.number = 0
        as2.WEB.clear()

    def url(self):
        self.number += 1
        host = self.rng.choice(['a.example', 'b.example:8443', 'localhost'])
        scheme = self.rng.choice(['http', 'https'])
        return f'{scheme}://{host}/{self.number}'

    def node(self, cls=None, url=None):
        gen = spec.Gen(self.rng, 0)
        gen.serial = self.number * 1000
        node = gen.node(classes=[cls] if cls else spec.OBJECTS)
        node.props['id'] = spec.Plain(url or self.url())
        for name in [name for name in node.props
                     if spec.PROPERTIES[name][0] in spec.REFS]:
            del node.props[name]
        return node

    def put(self, url, node):
        gen = spec.Gen(self.rng, 0)
        as2.WEB[url] = as2.Page(
            gen.document(node), content_type=self.rng.choice(
                ['application/ld+json', 'application/activity+json',
                 'application/json', 'application/ld+json; profile="x"',
                 None, 'text/html']))

    def broken(self, url):
        """something at the address that is no object"""
        rng = self.rng
        good = self.node().doc()
        kind = rng.choice(['missing', 'timeout', 'dns', 'html', 'empty',
                           'number', 'list', 'text', 'null', 'untyped',
                           'unknown', 'value', 'cut', 'context', 'loop',
                           'bytes', 'ssl', 'deep'])
        page = None
        if kind == 'timeout':
            page = as2.Page('', error=requests.Timeout('slow'))
        elif kind == 'dns':
            page = as2.Page('', error=requests.ConnectionError('no host'))
        elif kind == 'ssl':
            page = as2.Page('', error=requests.exceptions.SSLError('bad'))
        elif kind == 'html':
            page = as2.Page('<html>404</html>', 404, 'text/html')
        elif kind == 'empty':
            page = as2.Page('')
        elif kind in ('number', 'list', 'text', 'null'):
            page = as2.Page(json.dumps({'number': 5, 'list': [good],
                                        'text': 'x', 'null': None}[kind]))
        elif kind == 'untyped':
            page = as2.Page({'@context': as2.NS, 'id': url, 'name': 'x'})
        elif kind == 'unknown':
            page = as2.Page({'@context': as2.NS, 'id': url,
                             'type': 'Nonsense'})
        elif kind == 'value':
            page = as2.Page({'@context': as2.NS, 'id': url, 'type': 'Note',
                             'published': 'yesterday'})
        elif kind == 'cut':
            page = as2.Page(json.dumps(good)[:-3])
        elif kind == 'context':
            page = as2.Page({'@context': 'https://nowhere.example/ctx',
                             'id': url, 'type': 'Note'})
        elif kind == 'loop':
            page = as2.Page('', 302, headers={'Location': url})
        elif kind == 'bytes':
            page = as2.Page(b'\xff\xfe\x00{')
        elif kind == 'deep':
            page = as2.Page('[' * 100000)
        as2.WEB.pop(url, None)
        if page:
            as2.WEB[url] = page
        return kind


def quiet(ctx, fn, what):
    before = len(as2.REQUESTS)
    got = fn()
    ctx.expect(len(as2.REQUESTS) == before,
               lambda: f'{what} requested {as2.REQUESTS[before:]}')
    return got


def holders():
    found = []
    for cls in spec.CLASSES:
        for name in spec.PROPS[cls]:
            if spec.PROPERTIES[name][0] in SINGLE:
                found.append((cls, name))
    return found


HOLDERS = holders()


def extras(rng):
    """other properties of a Link"""
    gen = spec.Gen(rng, 0)
    found = {prop: gen.value(prop, 0).doc() for prop in rng.sample(
        ['rel', 'mediaType', 'name', 'hreflang', 'height', 'width', 'id'],
        rng.choice([0, 0, 1, 2, 4, 7]))}
    for prop, usual in (('rel', [
            'alternate', 'self', 'canonical', 'next', 'preview', 'me',
            ['self', 'alternate']]), ('mediaType', [
                'text/html', 'application/activity+json', 'image/png'])):
        if rng.random() < .25:
            found[prop] = rng.choice(usual)
    return found


def read_one(ctx, rng):
    engine = ENGINES[0]
    web = Web(rng)
    cls, name = rng.choice(HOLDERS)
    url = web.url()
    how = rng.choice(['text', 'link', 'dict', 'loaded', 'loaded-dict'])
    ctx.step('holder', cls, name, how)
    if how.startswith('loaded'):
        doc = {'@context': as2.NS, 'type': cls, 'id': web.url(),
               name: url if how == 'loaded' else {
                   'type': 'Link', 'href': url, **extras(rng)}}
        obj = quiet(ctx, lambda: engine.from_json(doc), 'loading')
    else:
        value = {'text': url, 'link': None,
                 'dict': {'href': url, **extras(rng)}}[how]
        if how == 'link':
            extra = extras(rng)
            value = quiet(ctx, lambda: engine.Link(href=url, **extra),
                          'a Link')
        given = {'id': None} if cls in ('Relationship', 'Place', 'Profile',
                                        'Tombstone') else {}
        if rng.random() < .5:
            given[name] = value
            obj = quiet(ctx, lambda: getattr(engine, cls)(**given),
                        'creating an object')
        else:
            obj = quiet(ctx, lambda: getattr(engine, cls)(**given),
                        'creating an object')
            quiet(ctx, lambda: setattr(obj, name, value),
                  f'setting {name}')
    ctx.saw(cls, name, how)
    for _ in range(rng.randrange(2, 6)):
        action = rng.choice(['put', 'put', 'break', 'json', 'same', 'both'])
        ctx.step(action)
        node = None
        if action == 'put':
            node = web.node(url=rng.choice([None, url]))
            if rng.random() < .25:
                # a document of a link, which is not opened as well
                target = web.url()
                web.put(target, node)
                node = spec.Node(rng.choice(['Link', 'Link', 'Mention']),
                                 {'href': spec.Plain(target)})
                ctx.count('links_of_links')
            web.put(url, node)
        elif action == 'break':
            ctx.step(web.broken(url))
        elif action == 'both':
            node = web.node(url=url)
            target = web.url()
            web.put(target, node)
            as2.WEB[url] = as2.Page('', rng.choice([301, 302, 307, 308]),
                                    headers={'Location': target})
            ctx.count('redirects')
        if action in ('json', 'same'):
            text = quiet(ctx, obj.json, 'json()')
            ctx.equal(json.loads(text).get(name), url,
                      f'{name} of a {cls} as JSON')
            quiet(ctx, obj.data, 'data()')
            quiet(ctx, lambda: str(obj), 'str()')
            continue
        before = len(as2.REQUESTS)
        got = getattr(obj, name)
        made = as2.REQUESTS[before:]
        ctx.expect(made[:1] == [url], lambda: f'reading {name} of a {cls} '
                                              f'requested {made}, not {url}')
        ctx.expect(len(made) == 1 or action in ('break', 'both'),
                   lambda: f'reading {name} once requested {made}')
        sent = as2.WEB[url].request if url in as2.WEB \
            and not as2.WEB[url].error else None
        if sent is not None:
            ctx.expect(sent.method == 'GET' and 'application/ld+json'
                       in sent.headers.get('Accept', '')
                       and 'application/activity+json'
                       in sent.headers.get('Accept', ''),
                       lambda: f'requested with {sent.method} '
                               f'{sent.headers}')
        if node is None:
            ctx.expect(type(got) is engine.Link and got.href == url,
                       lambda: f'{name} of a {cls} is {spec.show(got)}, '
                               f'nothing can be loaded')
            ctx.count('fallbacks')
        else:
            found = spec.differ(engine, got, node, f'{cls}.{name}',
                                node.context)
            ctx.expect(not found, found)
            ctx.count('opened')
        # what was read stays out of the document
        ctx.equal(json.loads(quiet(ctx, obj.json, 'json()')).get(name), url,
                  f'{name} of a {cls} as JSON after reading')
    # other properties of the object are still there
    ctx.expect(quiet(ctx, lambda: raw(obj, name), 'the output context')
               == url, 'the address')


def raw(obj, name):
    with obj.switch_context('_JSONLD_OUTPUT_CONTEXT_'):
        return getattr(obj, name)


def chain(ctx, rng):
    """from object to object, one request for each step"""
    engine = ENGINES[0]
    web = Web(rng)
    urls = [web.url() for _ in range(rng.randrange(2, 6))]
    names = []
    for index, url in enumerate(urls):
        node = web.node(url=url)
        doc = {**node.doc(), '@context': as2.NS}
        name = rng.choice(['attributedTo', 'inReplyTo', 'context',
                           'generator', 'location'])
        target = urls[(index + 1) % len(urls)]      # a circle
        if rng.random() < .5:
            doc[name] = target
        else:
            doc[name] = {'type': 'Link', 'href': target}
        names.append((node, name))
        as2.WEB[url] = as2.Page(doc)
    obj = engine.from_json(as2.WEB[urls[0]].body)
    at = 0
    for _ in range(rng.randrange(3, 9)):
        node, name = names[at]
        at = (at + 1) % len(urls)
        before = len(as2.REQUESTS)
        obj = getattr(obj, name)
        ctx.equal(as2.REQUESTS[before:], [urls[at]],
                  f'requests for reading {name}')
        ctx.expect(type(obj) is getattr(engine, names[at][0].cls),
                   lambda: f'{name} is {spec.show(obj)}')
        ctx.equal(obj.id, urls[at], f'the id of {name}')
        ctx.count('steps')
    ctx.saw('chain', tuple(name for _, name in names))


def closed_links(ctx, rng):
    """what is not opened: lists, mentions, links without address"""
    engine = ENGINES[0]
    web = Web(rng)
    cls, name = rng.choice([(cls, name) for cls, name in HOLDERS
                            if spec.PROPERTIES[name][0] == 'ref'])
    given = {'id': None} if cls in ('Relationship', 'Place', 'Profile',
                                    'Tombstone') else {}
    obj = getattr(engine, cls)(**given)
    urls = [web.url() for _ in range(rng.randrange(0, 4))]
    for url in urls:
        web.put(url, web.node(url=url))
    values = [url if rng.random() < .5
              else engine.Link(href=url, **extras(rng)) for url in urls]
    empty = engine.Link(**{'name': 'no address', **extras(rng)})
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        # Links without address stay among the others
        index = rng.randrange(len(values) + 1)
        values.insert(index, empty)
        urls.insert(index, None)
        ctx.count('hollow')
    hollow = [index for index, value in enumerate(values) if value is empty]
    nodes = {}
    if rng.random() < .5:
        node = web.node()
        index = rng.randrange(len(values) + 1)
        values.insert(index, c21.make(rng, engine, node, ctx))
        nodes[index] = node
        urls.insert(index, None)
        hollow = [at + (at >= index) for at in hollow]
    kind = rng.choice([list, tuple])
    quiet(ctx, lambda: setattr(obj, name, kind(values)), 'setting a list')
    got = quiet(ctx, lambda: getattr(obj, name), 'reading a list')
    ctx.expect(isinstance(got, list) and len(got) == len(values),
               lambda: f'{name}={values!r} is read as {got!r}')
    for index, url in enumerate(urls):
        if index in nodes:
            found = spec.differ(engine, got[index], nodes[index],
                                f'{name}[{index}]')
            ctx.expect(not found, found)
        elif index in hollow:
            ctx.expect(got[index] is empty, lambda: f'{name}[{index}] is '
                                                    f'{spec.show(got[index])}')
        else:
            ctx.expect(type(got[index]) is engine.Link
                       and got[index].href == url,
                       lambda: f'{name}[{index}] is '
                               f'{spec.show(got[index])}')
    written = json.loads(quiet(ctx, obj.json, 'json()'))[name]
    ctx.equal([one if isinstance(one, str) else None for one in written],
              urls, f'{name} as JSON')
    ctx.count('lists')
    url = web.url()
    web.put(url, web.node(url=url))
    mention = engine.Mention(href=url, name='@sally')
    obj.tag = mention
    got = quiet(ctx, lambda: obj.tag, 'reading a Mention')
    ctx.expect(got is mention, lambda: f'tag is {spec.show(got)}')
    ctx.equal(json.loads(obj.json())['tag'], url, 'a Mention as JSON')
    ctx.count('mentions')
    empty = engine.Link(name='no address')
    setattr(obj, name, empty)
    got = quiet(ctx, lambda: getattr(obj, name), 'a Link without address')
    ctx.expect(got is empty, lambda: f'{name} is {spec.show(got)}')
    ctx.saw('closed', cls, name, len(values), bool(nodes))


def addresses(ctx, rng):
    """addresses given as text or dictionary become links"""
    engine = ENGINES[0]
    web = Web(rng)
    gen = spec.Gen(rng)
    cls, name = rng.choice(HOLDERS)
    obj = getattr(engine, cls)(
        **({'id': None} if cls in ('Relationship', 'Place', 'Profile',
                                   'Tombstone') else {}))
    for _ in range(5):
        address = gen.address()
        value = address
        extra = {}
        if not address.startswith('http'):
            pass
        elif rng.random() < .4:
            for prop in rng.sample(['rel', 'mediaType', 'name', 'hreflang',
                                    'height', 'width'], rng.randrange(3)):
                extra[prop] = gen.value(prop, 0).doc()
            value = {'href': address, **extra}
        many = spec.PROPERTIES[name][0] == 'ref' and rng.random() < .4
        quiet(ctx, lambda: setattr(obj, name, [value] if many else value),
              f'setting {name}')
        got = getattr(obj, name)
        if many:
            ctx.expect(isinstance(got, list) and len(got) == 1,
                       f'{name}: {got!r}')
            got = got[0]
        ctx.expect(type(got) is engine.Link and got.href == address,
                   lambda: f'{name}={value!r} is read as {spec.show(got)}')
        for prop, wanted in extra.items():
            ctx.equal(getattr(got, prop), wanted, f'{prop} of the Link')
        ctx.count('addresses')
        ctx.saw('address', name, many, tuple(extra))
    del web


def run(ctx):
    ctx.rule = ('distinct = different (class, property, way of giving the '
                'link) whose link was read against a changing web, circles '
                'of objects, lists and addresses')
    ctx.assumptions = ['the web is replaced at the transport of requests',
                       'links of the class Link only are opened, not those '
                       'in lists and not Mentions']
    # no page is reached in any other way
    socket.getaddrinfo = None
    ENGINES.append(as2.engine())
    n = 1 if ctx.quick else 25
    ctx.case(lambda rng: read_one(ctx, rng), 'read', 700 * n, 60 * n)
    ctx.case(lambda rng: chain(ctx, rng), 'chain', 100 * n, 40 * n)
    ctx.case(lambda rng: closed_links(ctx, rng), 'closed', 200 * n, 40 * n)
    ctx.case(lambda rng: addresses(ctx, rng), 'addresses', 150 * n, 30 * n)
    ctx.require(opened=200, fallbacks=80, redirects=30, steps=100, lists=50, hollow=30,
                mentions=50, addresses=100)
