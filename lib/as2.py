"""
An offline web for the JSON-LD code: the ActivityStreams context and whatever
documents a case puts into ``WEB``.  Requests end here, at the lowest level of
the requests library, and every one is recorded.
"""
import json
import os

import requests
import requests.adapters

import vf

with open(os.path.join(vf.VERIF, 'fixtures', 'as2context.json')) as reader:
    CONTEXT = json.load(reader)

NS = 'https://www.w3.org/ns/activitystreams'
CONTEXT_URLS = [f'{scheme}://www.w3.org/ns/activitystreams{end}'
                for scheme in ('http', 'https') for end in ('', '#')]
WEB = {}
REQUESTS = []


class Page:
    """what the web answers for one address"""

    def __init__(self, body, status=200, content_type='application/ld+json',
                 headers=None, error=None):
        self.body = body if isinstance(body, (str, bytes)) \
            else json.dumps(body)
        self.status = status
        self.headers = dict(headers or {})
        if content_type:
            self.headers['Content-Type'] = content_type
        self.error = error


def send(adapter, request, **kwargs):
    url = request.url
    REQUESTS.append(url)
    page = WEB.get(url)
    if page is None:
        raise requests.ConnectionError(f'nothing there: {url}')
    if page.error:
        raise page.error
    page.request = request
    response = requests.Response()
    response.status_code = page.status
    response.headers = requests.structures.CaseInsensitiveDict(page.headers)
    body = page.body
    response._content_consumed = True
    response._content = body.encode() if isinstance(body, str) else body
    response.encoding = requests.utils.get_encoding_from_headers(
        response.headers)
    response.url = url
    response.request = request
    response.connection = adapter
    return response


requests.adapters.HTTPAdapter.send = send


def prepare_context():
    from jsonld.docloader import CachedRequestsJsonLoader
    kept = getattr(CachedRequestsJsonLoader, 'cached_schemas', None)
    if isinstance(kept, dict):
        for url in CONTEXT_URLS:
            kept[url] = {
                'contentType': 'application/ld+json', 'contextUrl': None,
                'documentUrl': url, 'document': CONTEXT}
        return
    # it is kept in another way, so it is fetched once for all
    requested = len(REQUESTS)
    others = dict(WEB)
    WEB.update({url: Page(CONTEXT) for url in CONTEXT_URLS})
    for url in CONTEXT_URLS:
        CachedRequestsJsonLoader(secure=url.startswith('https'))(url)
    WEB.clear()
    WEB.update(others)
    del REQUESTS[requested:]


def engine():
    prepare_context()
    from activitystreams import create_engine
    return create_engine()
