"""C27: how documents (contexts) are fetched and kept."""
import json
import re
import socket
from urllib.parse import urljoin

import requests
from pyld.jsonld import JsonLdError

import as2
import as2spec as spec
import c28
import jsonld
import jsonld.tools.url
from jsonld.docloader import CachedRequestsJsonLoader, RequestsJsonLoader

CONTEXT_REL = 'http://www.w3.org/ns/json-ld#context'
ENGINES = []
SERIAL = [0]
ALTERNATES = set()


def fresh_url(rng, scheme=None):
    SERIAL[0] += 1
    scheme = scheme or rng.choice(['https', 'https', 'http'])
    host = rng.choice(['a.example', 'b.example:8443', 'x_y.example'])
    return f'{scheme}://{host}/ctx/{SERIAL[0]}'


def document(rng):
    return rng.choice([
        {'@context': {'name': 'https://x.example/name'}},
        {'@context': [{'a': 'https://x.example/a'}, {'b': 'urn:b'}]},
        {}, [], {'x': [1, 2.5, None, True, 'ü']}, 'text', 0, None,
        {'name': 'Zażółć gęślą jaźń'}, {'größe': ['日本語', '☃', '😀']},
        {'x': 'é' * rng.choice([1, 9])}])


def written(rng, body, content_type='application/ld+json'):
    """the text of a document, in UTF-8 or escaped"""
    if content_type and content_type.startswith('text/'):
        # not UTF-8 if nothing is said
        return json.dumps(body)
    return json.dumps(body, ensure_ascii=rng.random() < .4,
                      indent=rng.choice([None, None, 1]))


def redirects(rng, url, final, schemes=('https',)):
    """the web leads from url to final, the requests made for it"""
    hops = [url] + [fresh_url(rng, rng.choice(schemes))
                    for _ in range(rng.choice([0, 0, 1, 3, 8]))] + [final]
    for hop, following in zip(hops, hops[1:]):
        as2.WEB[hop] = as2.Page('', rng.choice([301, 302, 303, 307, 308]),
                                headers={rng.choice(['Location', 'location']):
                                         following})
    return hops


def policy(ctx, rng):
    """nothing is requested from addresses that are not allowed"""
    for _ in range(15):
        scheme = rng.choice(c28.SCHEMES + ['http', 'https'] * 5)
        host = ''.join(rng.choice('abzAZ019-_.') for _ in
                       range(rng.choice([0, 1, 5])))
        if rng.random() < .4:
            where = rng.randrange(len(host) + 1)
            host = host[:where] + rng.choice(' @\\<>"\'%!$&()*+,;=~^`{|}é☃') \
                + host[where:]
        SERIAL[0] += 1
        url = (scheme + rng.choice(['://', '://', '://', ':', ':/', ''])
               + host + rng.choice(['', '', '', ':443', ':80', ':0', ':8443'])
               + f'/{SERIAL[0]}')
        secure = rng.choice([None, True, False])
        kind = rng.choice([RequestsJsonLoader, CachedRequestsJsonLoader])
        loader = kind() if secure is None else kind(secure=secure)
        allowed = c28.wanted_url(url, secure is not False)
        if allowed and (not host or host.startswith('.') or '..' in host
                        or host.endswith('.')):
            continue        # not for this code to decide
        ctx.step(kind.__name__, secure, url)
        as2.WEB.clear()
        before = len(as2.REQUESTS)
        ctx.raises(JsonLdError, lambda: loader(url), f'loading {url!r}')
        made = as2.REQUESTS[before:]
        ctx.expect(bool(made) == allowed,
                   lambda: f'{kind.__name__}(secure={secure}) of {url!r} '
                           f'requested {made}')
        ctx.count('allowed' if allowed else 'refused')
        ctx.saw('policy', scheme, secure, allowed, kind.__name__)


def results(ctx, rng):
    """what is returned for an address"""
    secure = rng.choice([True, False])
    kind = rng.choice([RequestsJsonLoader, CachedRequestsJsonLoader])
    headers = rng.choice([None, None, {'Accept': 'application/x',
                                       'X-Mine': '1'}])
    loader = kind(secure=secure, headers=headers)
    url = fresh_url(rng, 'https' if secure else None)
    content_type = rng.choice(['application/ld+json', 'application/json',
                               'application/activity+json', None,
                               'text/html',
                               'application/ld+json; charset=utf-8'])
    sent = {}
    contexts = rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 3])
    same = rng.random() < .3
    links = [f'<https://c.example/{0 if same else n}>; rel="{CONTEXT_REL}"'
             for n in range(contexts)]
    if rng.random() < .3:
        links.insert(rng.randrange(len(links) + 1),
                     '<https://c.example/next>; rel="next"')
    alternate = None
    if rng.random() < .3:
        SERIAL[0] += 1
        target = rng.choice(['https://c.example/alt', '/alt', 'alt',
                             '../alt?x=']) + str(SERIAL[0])
        kind_of = rng.choice(['application/ld+json', 'application/ld+json',
                              'text/plain'])
        links.append(f'<{target}>; rel="alternate"; type="{kind_of}"')
        if kind_of == 'application/ld+json' and not re.fullmatch(
                r'application/(\w*\+)?json',
                content_type or 'application/octet-stream'):
            alternate = urljoin(url, target)
            ctx.count('alternates')
    if links:
        sent[rng.choice(['Link', 'link', 'LINK'])] = ', '.join(links)
    body = document(rng)
    final = url
    hops = [url]
    as2.WEB.clear()
    if rng.random() < .3:
        final = fresh_url(rng, 'https')
        hops = redirects(rng, url, final, ['https'] if secure
                         else ['https', 'http'])
        ctx.count('redirects')
    as2.WEB[final] = as2.Page(written(rng, body, content_type), 200,
                              content_type, sent)
    ctx.step('results', kind.__name__, url, final, content_type, sent, body)
    before = len(as2.REQUESTS)
    failing = contexts > 1 and content_type != 'application/ld+json'
    if failing:
        error = ctx.raises(JsonLdError, lambda: loader(url),
                           'several contexts')
        ctx.expect('multiple context link headers' in
                   (error.code, getattr(error.cause, 'code', None)),
                   lambda: f'several contexts: {error.code} {error.cause!r}')
        ctx.count('ambiguous')
        return
    got = loader(url)
    ctx.equal(got['document'], body, 'the document')
    ctx.equal(got['documentUrl'], alternate or final,
              'the address of the document')
    ctx.equal(got['contentType'], 'application/ld+json' if alternate
              else content_type or 'application/octet-stream',
              'the content type')
    ctx.equal(got['contextUrl'], 'https://c.example/0' if contexts == 1
              and content_type != 'application/ld+json' else None,
              'the context in the header')
    ctx.equal(as2.REQUESTS[before:], hops, 'requests')
    accept = as2.WEB[url].request.headers.get('Accept', '')
    if headers:
        ctx.expect(accept == 'application/x' and
                   as2.WEB[url].request.headers.get('X-Mine') == '1',
                   'headers of the caller')
    else:
        ctx.expect('application/ld+json' in accept, f'Accept: {accept}')
    # again
    before = len(as2.REQUESTS)
    other = kind(secure=secure)
    as2.WEB[final].body = json.dumps({'changed': True})
    if kind is CachedRequestsJsonLoader:
        for again in (loader, other, loader):
            ctx.equal(again(url)['document'], body, 'the kept document')
        ctx.equal(as2.REQUESTS[before:], [], 'requests for a kept document')
        ctx.count('kept')
    else:
        ctx.equal(other(url)['document'], {'changed': True}, 'the document')
        ctx.count('again')
    if alternate and alternate not in (url, final):
        # what the page refers to is another document
        as2.WEB[alternate] = as2.Page(json.dumps({'alternate': SERIAL[0]}))
        SERIAL[0] += 1
        if alternate not in ALTERNATES:
            ALTERNATES.add(alternate)
            ctx.equal(kind(secure=False)(alternate)['document'],
                      {'alternate': SERIAL[0] - 1}, 'the alternate')
            ctx.count('alternates_loaded')
    ctx.count('results')
    ctx.saw('results', kind.__name__, secure, content_type, contexts,
            final == url, bool(alternate), type(body).__name__)


def similar(ctx, rng):
    """different addresses are different documents"""
    as2.WEB.clear()
    base = fresh_url(rng, 'https')
    urls = rng.sample([base, base + '/', base + '?a=1', base + '?a=1&b=2',
                       base + '?b=2&a=1', base + '?A=1', base + '/x',
                       base.replace('/ctx/', '/CTX/'), base + '.json',
                       base + '%2F', base.replace('/ctx/', '/ctx//'),
                       base.replace('https://', 'https://www.'),
                       base.replace('.example', '.example:444')
                       if ':' not in base[8:] else base + ';v=1'],
                      rng.randrange(2, 7))
    for index, url in enumerate(urls):
        as2.WEB[url] = as2.Page(json.dumps({'@context': {'n': f'urn:{index}'}}))
    loaders = [CachedRequestsJsonLoader(), CachedRequestsJsonLoader(False)]
    before = len(as2.REQUESTS)
    asked = []
    for _ in range(12):
        url = rng.choice(urls)
        ctx.step('load', url)
        got = rng.choice(loaders)(url)
        ctx.equal(got['document'],
                  {'@context': {'n': f'urn:{urls.index(url)}'}},
                  f'the document of {url}')
        ctx.equal(got['documentUrl'], url, 'the address')
        asked += [url] if url not in asked else []
    ctx.equal(as2.REQUESTS[before:], asked, 'requests')
    ctx.count('similar', len(asked))
    ctx.saw('similar', len(urls))


def many(ctx, rng):
    """however many documents there are, each is fetched once"""
    as2.WEB.clear()
    urls = [fresh_url(rng, 'https') for _ in range(1500)]
    for index, url in enumerate(urls):
        as2.WEB[url] = as2.Page(json.dumps({'@context': {'n': f'urn:{index}'}}))
    loader = CachedRequestsJsonLoader()
    before = len(as2.REQUESTS)
    for index, url in enumerate(urls):
        loader(url)
    ctx.equal(as2.REQUESTS[before:], urls, 'requests')
    for index in rng.sample(range(len(urls)), 200) + [0, 1, 2]:
        got = CachedRequestsJsonLoader()(urls[index])
        ctx.equal(got['document'], {'@context': {'n': f'urn:{index}'}},
                  f'document {index} of many')
    ctx.equal(as2.REQUESTS[before:], urls, 'requests of known documents')
    ctx.count('many', len(urls))


def failures(ctx, rng):
    """failures are errors of one kind and are not kept"""
    loader = CachedRequestsJsonLoader()
    url = fresh_url(rng, 'https')
    as2.WEB.clear()
    for _ in range(rng.randrange(1, 5)):
        how = rng.choice(['missing', 'timeout', 'html', 'empty', 'cut',
                          'bytes', 'loop', 'status', 'status', 'status',
                          'unsafe', 'unsafe'])
        other = fresh_url(rng, 'http')
        as2.WEB.pop(url, None)
        page = {'missing': None,
                'timeout': as2.Page('', error=requests.Timeout('slow')),
                'html': as2.Page('<html></html>', 200, 'text/html'),
                'empty': as2.Page(''), 'cut': as2.Page('{"@context": '),
                'bytes': as2.Page(b'\xff\xfe\x00'),
                'status': as2.Page(document(rng), rng.choice(
                    [400, 401, 403, 404, 404, 406, 410, 429, 500, 502, 503])),
                'unsafe': as2.Page('', 302, headers={'Location': other}),
                'loop': as2.Page('', 302, headers={'Location': url})}[how]
        if page:
            as2.WEB[url] = page
        back = fresh_url(rng, 'https')
        safe = document(rng)
        as2.WEB[back] = as2.Page(safe)
        if how == 'unsafe':
            redirects(rng, url, other)
        if rng.random() < .5:
            redirects(rng, other, back)
        else:
            as2.WEB[other] = as2.Page(safe)
        ctx.step(how, url)
        before = len(as2.REQUESTS)
        error = ctx.raises(JsonLdError, lambda: loader(url),
                           f'loading ({how})')
        ctx.equal(error.code, 'loading document failed', 'code of the error')
        ctx.expect(error.cause is not None, 'an error without its cause')
        ctx.expect(len(as2.REQUESTS) > before, 'a failure was kept')
        ctx.count('failures')
    body = document(rng)
    as2.WEB[url] = as2.Page(json.dumps(body))
    ctx.equal(loader(url)['document'], body, 'the document afterwards')
    as2.WEB.clear()
    ctx.equal(loader(url)['document'], body, 'the kept document')
    ctx.count('recovered')
    ctx.saw('failures', how, type(body).__name__)


def engines(ctx, rng):
    """one request for a context, however many documents name it"""
    engine = ENGINES[0]
    as2.WEB.clear()
    url = fresh_url(rng, 'https')
    as2.WEB[url] = as2.Page({'@context': {
        'Memo': as2.NS + '#Note', 'extra': 'https://x.example/extra'}})
    before = len(as2.REQUESTS)
    for index in range(rng.randrange(2, 6)):
        doc = {'@context': [as2.NS, url], 'type': 'Create',
               'id': f'https://a.example/{index}',
               'object': {'type': 'Memo', 'id': 'https://a.example/n',
                          'content': 'x'}}
        if rng.random() < .5:
            doc = json.dumps(doc)
        obj = engine.from_json(doc)
        ctx.expect(type(obj.object) is engine.Note
                   and obj.object.content == 'x',
                   lambda: f'Memo became {obj.object!r}')
    ctx.equal(as2.REQUESTS[before:], [url], 'requests for a context')
    # not over an open connection
    bad = fresh_url(rng, 'http')
    as2.WEB[bad] = as2.WEB[url]
    before = len(as2.REQUESTS)
    ctx.raises(Exception, lambda: engine.from_json(
        {'@context': [as2.NS, bad], 'type': 'Note'}),
        'a context without https')
    ctx.equal(as2.REQUESTS[before:], [], 'requests without https')
    ctx.count('contexts')


def default_context(ctx, rng):
    """documents that name no context, with nothing kept"""
    as2.WEB.clear()
    getattr(CachedRequestsJsonLoader, 'cached_schemas', {}).clear()
    as2.WEB[as2.NS] = as2.Page(as2.CONTEXT)
    before = len(as2.REQUESTS)
    cls = rng.choice(list(spec.CLASSES))
    obj = ENGINES[0].from_json({'type': cls, 'id': 'https://a.example/1',
                                'name': 'x'})
    ctx.expect(type(obj) is getattr(ENGINES[0], cls), 'the class')
    ctx.equal(obj.acontext, as2.NS, 'the default context')
    ctx.expect(as2.REQUESTS[before:] in ([], [as2.NS]),
               lambda: f'requested {as2.REQUESTS[before:]}')
    as2.prepare_context()
    ctx.count('default')


def getting(ctx, rng):
    """the helper that gets any document"""
    get = rng.choice([jsonld.jsonld_get, jsonld.tools.url.jsonld_get])
    as2.WEB.clear()
    url = final = fresh_url(rng)
    hops = [url]
    if rng.random() < .3:
        final = fresh_url(rng)
        hops = redirects(rng, url, final, ['http', 'https'])
    body = document(rng)
    kind = rng.choice(['good', 'good', 'good', 'text', 'missing'])
    content_type = rng.choice(['application/ld+json', 'application/json',
                               'application/activity+json'])
    if kind != 'missing':
        as2.WEB[final] = as2.Page(
            'no { json' if kind == 'text' else
            written(rng, body, content_type), 200, content_type)
    headers = rng.choice([None, None, {}, {'X-Mine': '1'},
                          {'Accept': 'text/x', 'X-Mine': '2'},
                          {'accept': 'text/y'}])
    kwargs = {}
    if headers is not None:
        kwargs['headers'] = given = dict(headers)
    raw = rng.choice([None, True, False])
    if raw is not None:
        kwargs['json'] = not raw
    ctx.step('get', get.__module__, url, kind, kwargs)
    before = len(as2.REQUESTS)
    if kind == 'missing':
        ctx.raises(requests.ConnectionError, lambda: get(url, **kwargs),
                   'getting what is not there')
    elif kind == 'text' and not raw:
        ctx.raises(ValueError, lambda: get(url, **kwargs), 'no JSON')
    else:
        got = get(url, **kwargs)
        if raw:
            ctx.equal((got.status_code, got.url), (200, final),
                      'the answer')
            if kind == 'good':
                ctx.equal(got.json(), body, 'the answer')
        else:
            ctx.equal(got, body, 'the document')
        sent = as2.WEB[final].request.headers
        for name, value in (headers or {}).items():
            ctx.equal(sent.get(name), value, f'header {name}')
        if not any(name.lower() == 'accept' for name in headers or {}):
            for wanted in ('application/ld+json', 'application/activity+json',
                           'application/json'):
                ctx.expect(wanted in sent.get('Accept', ''),
                           lambda: f'asks for {sent.get("Accept")}')
            ctx.expect('X-Mine' not in sent or 'X-Mine' in (headers or {}),
                       'a header of an earlier request')
    ctx.equal(as2.REQUESTS[before:], hops, 'requests')
    if headers is not None:
        ctx.equal(given, headers, "the caller's headers")
    ctx.count(f'got_{kind}')
    ctx.saw('get', get.__module__, kind, repr(headers), raw, len(hops))


def run(ctx):
    ctx.rule = ('distinct = different (scheme, security, decision), (loader, '
                'content type, headers, redirect) and kinds of failures')
    ctx.assumptions = ['the web is replaced at the transport of requests',
                       'one thread']
    socket.getaddrinfo = None
    ENGINES.append(as2.engine())
    n = 1 if ctx.quick else 25
    ctx.case(lambda rng: default_context(ctx, rng), 'default', 20)
    ctx.case(lambda rng: policy(ctx, rng), 'policy', 150 * n, 40 * n)
    ctx.case(lambda rng: results(ctx, rng), 'results', 400 * n, 40 * n)
    ctx.case(lambda rng: getting(ctx, rng), 'getting', 150 * n, 40 * n)
    ctx.case(lambda rng: similar(ctx, rng), 'similar', 60 * n, 40 * n)
    ctx.case(lambda rng: many(ctx, rng), 'many', 1 if ctx.quick else 10)
    ctx.case(lambda rng: failures(ctx, rng), 'failures', 100 * n, 40 * n)
    ctx.case(lambda rng: engines(ctx, rng), 'engines', 40 * n, 60 * n)
    ctx.require(got_good=50, got_text=10, got_missing=10, similar=100, many=1500, alternates_loaded=10, refused=500, allowed=100, results=200, kept=80, again=80,
                redirects=50, ambiguous=20, failures=100, recovered=80,
                contexts=20, default=20)
