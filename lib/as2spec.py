"""
The ActivityStreams 2.0 vocabulary as the W3C document states it (not as the
code under test declares it), and a generator of documents together with what
loading and writing them has to give.
"""
import random
from datetime import datetime, timedelta, timezone

import as2

# class -> parents
CLASSES = {
    'Object': [], 'Link': [],
    'Activity': ['Object'], 'IntransitiveActivity': ['Activity'],
    'Collection': ['Object'], 'OrderedCollection': ['Collection'],
    'CollectionPage': ['Collection'],
    'OrderedCollectionPage': ['OrderedCollection', 'CollectionPage'],
    'Accept': ['Activity'], 'TentativeAccept': ['Accept'],
    'Add': ['Activity'], 'Arrive': ['IntransitiveActivity'],
    'Create': ['Activity'], 'Delete': ['Activity'], 'Follow': ['Activity'],
    'Ignore': ['Activity'], 'Join': ['Activity'], 'Leave': ['Activity'],
    'Like': ['Activity'], 'Offer': ['Activity'], 'Invite': ['Offer'],
    'Reject': ['Activity'], 'TentativeReject': ['Reject'],
    'Remove': ['Activity'], 'Undo': ['Activity'], 'Update': ['Activity'],
    'View': ['Activity'], 'Listen': ['Activity'], 'Read': ['Activity'],
    'Move': ['Activity'], 'Travel': ['IntransitiveActivity'],
    'Announce': ['Activity'], 'Block': ['Ignore'], 'Flag': ['Activity'],
    'Dislike': ['Activity'], 'Question': ['IntransitiveActivity'],
    'Application': ['Object'], 'Group': ['Object'],
    'Organization': ['Object'], 'Person': ['Object'], 'Service': ['Object'],
    'Relationship': ['Object'], 'Article': ['Object'],
    'Document': ['Object'], 'Audio': ['Document'], 'Image': ['Document'],
    'Video': ['Document'], 'Note': ['Object'], 'Page': ['Document'],
    'Event': ['Object'], 'Place': ['Object'], 'Profile': ['Object'],
    'Tombstone': ['Object'], 'Mention': ['Link'],
}

# property -> (kind, functional)
PROPERTIES = {
    'id': ('id', True), 'type': ('type', False),
    'attachment': ('ref', False), 'attributedTo': ('ref', False),
    'audience': ('ref', False), 'content': ('text', False),
    'context': ('ref', False), 'name': ('name', False),
    'endTime': ('date', True), 'generator': ('ref', False),
    'icon': ('ref', False), 'image': ('ref', False),
    'inReplyTo': ('ref', False), 'location': ('ref', False),
    'preview': ('ref', False), 'published': ('date', True),
    'replies': ('collection', True), 'startTime': ('date', True),
    'summary': ('text', False), 'tag': ('ref', False),
    'updated': ('date', True), 'url': ('url', False), 'to': ('ref', False),
    'bto': ('ref', False), 'cc': ('ref', False), 'bcc': ('ref', False),
    'mediaType': ('text1', True), 'duration': ('duration', True),
    'href': ('href', True), 'rel': ('text', False),
    'hreflang': ('text1', True), 'height': ('count', True),
    'width': ('count', True),
    'actor': ('ref', False), 'object': ('ref', False),
    'target': ('ref', False), 'result': ('ref', False),
    'origin': ('ref', False), 'instrument': ('ref', False),
    'totalItems': ('count', True), 'current': ('page', True),
    'first': ('page', True), 'last': ('page', True), 'items': ('ref', False),
    'orderedItems': ('ref', False),
    'partOf': ('partOf', True), 'next': ('page', True),
    'prev': ('page', True), 'startIndex': ('count', True),
    'oneOf': ('ref', False), 'anyOf': ('ref', False),
    'closed': ('closed', False),
    'subject': ('ref1', True), 'relationship': ('textref', False),
    'accuracy': ('number', True), 'altitude': ('number', True),
    'latitude': ('number', True), 'longitude': ('number', True),
    'radius': ('amount', True), 'units': ('text1', True),
    'describes': ('object', True), 'formerType': ('textref', False),
    'deleted': ('date', True),
}

OWN = {
    'Object': 'id type attachment attributedTo audience content context name '
              'endTime generator icon image inReplyTo location preview '
              'published replies startTime summary tag updated url to bto cc '
              'bcc mediaType duration',
    'Link': 'id type href rel mediaType name hreflang height width preview',
    'Activity': 'actor object target result origin instrument',
    'Collection': 'totalItems current first last items',
    'OrderedCollection': 'orderedItems',
    'CollectionPage': 'partOf next prev',
    'OrderedCollectionPage': 'startIndex',
    'Question': 'oneOf anyOf closed',
    'Relationship': 'subject object relationship',
    'Place': 'accuracy altitude latitude longitude radius units',
    'Profile': 'describes',
    'Tombstone': 'formerType deleted',
}


def ancestors(name):
    found = [name]
    for parent in CLASSES[name]:
        for entry in ancestors(parent):
            if entry not in found:
                found.append(entry)
    return found


PROPS = {name: [prop for base in reversed(ancestors(name))
                for prop in OWN.get(base, '').split()]
         for name in CLASSES}
OBJECTS = [name for name in CLASSES if 'Object' in ancestors(name)]
COLLECTIONS = [name for name in CLASSES if 'Collection' in ancestors(name)]
PAGES = [name for name in CLASSES if 'CollectionPage' in ancestors(name)]
REFS = {'ref', 'ref1', 'page', 'partOf', 'url', 'closed'}


class Val:
    """a value of a property: what stands in the document and what it means"""
    kind = None


class Plain(Val):
    def __init__(self, value):
        self.value = value

    def doc(self):
        return self.value

    def json(self):
        return self.value

    def __repr__(self):
        return f'Plain({self.value!r})'


class Date(Val):
    def __init__(self, text, instant):
        self.text = text
        self.instant = instant

    def doc(self):
        return self.text

    def json(self):
        return self

    def __repr__(self):
        return f'Date({self.text!r})'


class Ref(Val):
    """a link given by its address"""

    def __init__(self, href):
        self.href = href

    def doc(self):
        return self.href

    def json(self):
        return self.href

    def __repr__(self):
        return f'Ref({self.href!r})'


class Many(Val):
    def __init__(self, values):
        self.values = values

    def doc(self):
        return [value.doc() for value in self.values]

    def json(self):
        return [value.json() for value in self.values]

    def __repr__(self):
        return f'Many({self.values!r})'


class Node(Val):
    def __init__(self, cls, props, context=None):
        self.cls = cls
        self.props = props
        self.context = context

    def doc(self):
        found = {name: value.doc() for name, value in self.props.items()}
        found['type'] = self.cls
        return found

    @property
    def is_link(self):
        return 'Link' in ancestors(self.cls)

    def defaults(self):
        """values the class fills in"""
        filled = {}
        if 'Collection' in ancestors(self.cls):
            if 'totalItems' not in self.props:
                total = 0
                for name in ('items', 'orderedItems'):
                    value = self.props.get(name)
                    if isinstance(value, Many) and value.values:
                        total = len(value.values)
                        break
                    if isinstance(value, (Node, Ref)):
                        break       # no list: not counted
                filled['totalItems'] = total
        if self.cls == 'OrderedCollectionPage' \
                and 'startIndex' not in self.props:
            filled['startIndex'] = 0
        return filled

    def json(self, whole=False):
        if self.is_link and not whole \
                and self.props.get('href') is not None:
            return self.props['href'].json()
        found = {name: value.json() for name, value in self.props.items()
                 if not (isinstance(value, Plain) and value.value is None)}
        found.update(self.defaults())
        found['type'] = self.cls
        return found

    def __repr__(self):
        return f'Node({self.cls}, {self.props!r})'


HOSTS = ['example.org', 'a.example', 'social.example.com:8443', 'localhost',
         'x-y.example.net', '127.0.0.1', 'UPPER.example', 'un_der.example']
TEXTS = ['', 'Sally', 'A note', 'ünïcödé ☃ 😀', '<p>html &amp; "q"</p>', '0',
         'null', 'a\nb\tc', '\\', '@context', 'x' * 300, '日本語', ' ', '{}',
         'O\u2028P', 'acct:', 'http:', 'type', '1e5', 'true', '\x7f']
CONTEXTS = [as2.NS, as2.NS, as2.NS + '#', as2.NS.replace('https', 'http'),
            [as2.NS], [as2.NS, {'ext': 'https://ext.example/ns#'}],
            {'@vocab': as2.NS + '#', 'id': '@id', 'type': '@type'}]


class Gen:
    def __init__(self, rng, depth=2):
        self.rng = rng
        self.depth = depth
        self.serial = 0

    def url(self):
        rng = self.rng
        self.serial += 1
        path = rng.choice(['', '/', f'/{self.serial}', f'/users/u{self.serial}',
                           f'/a/b?q={self.serial}&r=%20', f'/x#f{self.serial}',
                           f'/~{self.serial}/;p', f'/é{self.serial}'])
        return f"{rng.choice(['http', 'https'])}://{rng.choice(HOSTS)}{path}"

    def address(self):
        rng = self.rng
        return rng.choice([self.url(), self.url(), self.url(), self.url(),
                           self.url(), 'acct:sally@example.org',
                           'joe@example.com'])

    def id(self):
        rng = self.rng
        self.serial += 1
        return rng.choice([self.url(), self.url(), self.url(),
                           f'urn:uuid:{self.serial:032x}', f'urn:x:{self.serial}'])

    def text(self):
        rng = self.rng
        if rng.random() < .5:
            return rng.choice(TEXTS)
        if rng.random() < .01:
            return rng.choice('xé\n😀') * rng.choice([5000, 40000])
        return ''.join(rng.choice('abcXYZ 012<>&"\'/:äß€𝔘\u0301')
                       for _ in range(rng.randrange(1, 20)))

    def instant(self):
        rng = self.rng
        year = rng.choice([1, 999, 1969, 1970, 1999, 2000, 2014, 2015, 2016,
                           2024, 2038, 9998])
        return datetime(year, rng.randrange(1, 13), rng.randrange(1, 29),
                        rng.randrange(24), rng.randrange(60),
                        rng.randrange(60),
                        rng.choice([0, 0, 0, 1, 500000, 999999, 120000]))

    def date(self):
        rng = self.rng
        when = self.instant()
        offset = timedelta(0)
        zone = 'Z'
        if rng.random() < .5 and 2 < when.year < 9990:
            hours, minutes = rng.choice(
                [(0, 0), (1, 0), (5, 30), (12, 45), (14, 0), (23, 59), (8, 0)])
            sign = rng.choice('+-')
            zone = f'{sign}{hours:02}:{minutes:02}'
            offset = timedelta(hours=hours, minutes=minutes)
            if sign == '-':
                offset = -offset
        text = (f'{when.year:04}-{when.month:02}-{when.day:02}'
                f'T{when.hour:02}:{when.minute:02}')
        if when.second or when.microsecond or rng.random() < .6:
            text += f':{when.second:02}'
        if when.microsecond:
            digits = f'{when.microsecond:06}'
            if rng.random() < .5:
                digits = digits.rstrip('0')
            text += '.' + digits
        return Date(text + zone, when - offset)

    def link(self):
        rng = self.rng
        props = {'href': Plain(self.url())}
        for name in rng.sample(['rel', 'mediaType', 'name', 'hreflang',
                                'height', 'width', 'id'], rng.randrange(4)):
            props[name] = self.value(name, 0)
        if rng.random() < .12:
            # only described
            del props['href']
        return Node(rng.choice(['Link', 'Link', 'Mention']), props)

    def ref(self, depth, classes=OBJECTS):
        rng = self.rng
        kind = rng.random()
        if kind < .35 or depth <= 0:
            return Ref(self.address())
        if kind < .5:
            return self.link()
        return self.node(depth - 1, classes)

    def many(self, make):
        rng = self.rng
        if rng.random() < .65:
            return make()
        if rng.random() < .01:
            return Many([make() for _ in range(rng.choice([12, 35]))])
        return Many([make() for _ in range(rng.choice([0, 1, 1, 2, 3]))])

    def chain(self, length):
        """objects in objects"""
        rng = self.rng
        inner = None
        for _ in range(length):
            cls = rng.choice(['Create', 'Add', 'Note', 'Undo', 'Place'])
            name = rng.choice(['attributedTo', 'tag', 'location'] + [
                'object', 'target', 'actor'] * (
                    'Activity' in ancestors(cls)))
            props = {'id': Plain(self.id()), 'name': Plain(self.text())}
            if inner is not None:
                props[name] = inner if rng.random() < .7 \
                    else Many([Ref(self.url()), inner])
            inner = Node(cls, props)
        return inner

    def value(self, prop, depth):
        rng = self.rng
        kind, functional = PROPERTIES[prop]
        if kind == 'id':
            return Plain(self.id())
        if kind in ('text', 'type'):
            return self.many(lambda: Plain(self.text()))
        if kind == 'name':
            if rng.random() < .15:
                return Plain({'en': 'A', 'de-AT': self.text()})
            return self.many(lambda: Plain(self.text()))
        if kind == 'text1':
            return Plain(rng.choice(['text/html', 'en', 'm', 'de-AT',
                                     self.text()]))
        if kind == 'duration':
            return Plain(rng.choice(['PT5S', 'P1Y2M3DT4H5M6S', 'PT0.5S',
                                     '-P1D', 'PT2H', 'P5Y']))
        if kind == 'href':
            return Plain(self.url())
        if kind == 'count':
            return Plain(rng.choice([0, 1, 7, 100, 2 ** 40, 2 ** 53 + 1,
                                     10 ** 20 + 1]))
        if kind == 'number':
            return Plain(rng.choice([0, -1, 36.75, -119.7667, 1e-7, 90,
                                     0.0, 12345678.9, 2 ** 53 + 1, -10 ** 18 - 1,
                                     1e300, 5e-324, 0.1 + 0.2]))
        if kind == 'amount':
            return Plain(rng.choice([0, 15, 0.5, 1e9]))
        if kind == 'date':
            return self.date()
        if kind == 'ref':
            return self.many(lambda: self.ref(depth))
        if kind == 'ref1':
            return self.ref(depth)
        if kind == 'page':
            return self.ref(depth, PAGES)
        if kind == 'partOf':
            return self.ref(depth, COLLECTIONS)
        if kind == 'collection':
            return self.node(depth - 1, COLLECTIONS) if depth > 0 else None
        if kind == 'object':
            return self.node(depth - 1, OBJECTS) if depth > 0 else None
        if kind == 'textref':
            if depth <= 0 or rng.random() < .5:
                return self.many(lambda: Plain(self.text()))
            return self.node(depth - 1, OBJECTS)
        if kind == 'url':
            def one():
                roll = rng.random()
                if roll < .6:
                    return Ref(self.address())
                if roll < .8:
                    return Plain(rng.choice(['not a url', 'urn:x:1',
                                             '/relative/path']))
                return self.link()
            return self.many(one)
        if kind == 'closed':
            def one():
                roll = rng.random()
                if roll < .3:
                    return self.date()
                if roll < .5:
                    return Plain(rng.choice([True, False]))
                return self.ref(depth)
            if rng.random() < .3:
                return Many([one() for _ in range(rng.randrange(1, 4))])
            return one()
        raise AssertionError(kind)

    def node(self, depth=None, classes=None, chance=None):
        rng = self.rng
        depth = self.depth if depth is None else depth
        cls = rng.choice(classes or list(CLASSES))
        names = [name for name in PROPS[cls] if name not in ('type', 'id')]
        count = rng.choice([0, 1, 2, 3, 5]) if chance is None \
            else max(1, int(len(names) * chance))
        props = {}
        if rng.random() < .8 or cls in ('Relationship', 'Place', 'Profile',
                                        'Tombstone'):
            props['id'] = Plain(self.id())
        own = [name for base in ancestors(cls)
               for name in OWN.get(base, '').split()
               if base not in ('Object', 'Link')]
        chosen = rng.sample(names, min(count, len(names)))
        if own and rng.random() < .7:
            chosen += rng.sample(own, min(len(own), rng.randrange(1, 4)))
        for name in chosen:
            if name in props:
                continue
            value = self.value(name, depth)
            if value is not None:
                props[name] = value
        if rng.random() < .1 and names:
            spare = rng.choice(names)
            if spare not in props and spare not in ('totalItems',
                                                    'startIndex'):
                props[spare] = Plain(None)
        if 'items' in props and 'orderedItems' in props:
            # which of the two is counted is not stated
            del props['items']
        items = list(props.items())
        rng.shuffle(items)
        return Node(cls, dict(items))

    def document(self, node):
        """node -> document with a context"""
        rng = self.rng
        doc = node.doc()
        node.context = as2.NS
        if rng.random() < .85:
            node.context = rng.choice(CONTEXTS)
            doc['@context'] = node.context
        items = list(doc.items())
        rng.shuffle(items)
        return dict(items)


# ---- given documents ----------------------------------------------------
class Outside(Exception):
    """a value about which nothing is claimed"""


def is_address(text):
    import re
    return bool(re.fullmatch(r'https?://[\w.:-]+(/[^\s<>"{}|\\^`]*)?|'
                             r'(acct:)?\w+@\w+(\.\w+)+', text, re.ASCII))


def interpret(doc, classes=CLASSES, top=True):
    """
    reads a published document
    :return: the Node it means, the document without what is outside
    """
    cls = doc.get('type', doc.get('@type'))
    if isinstance(cls, list):
        known = [one for one in cls if one in CLASSES]
        if len(known) != 1 or not all(':' in one for one in cls
                                      if one not in CLASSES):
            raise Outside('types')
        cls = known[0]
    if not isinstance(cls, str) or cls not in CLASSES \
            or not top and '@context' in doc or cls not in classes:
        raise Outside('type')
    props, rest = {}, {}
    for name, value in doc.items():
        rest[name] = value
        if name in ('type', '@type', '@context') or name not in PROPS[cls]:
            continue
        try:
            props[name], rest[name] = meaning(name, value)
        except Outside:
            del rest[name]
    if 'items' in props and 'orderedItems' in props:
        del props['items'], rest['items']
    if cls in ('Relationship', 'Place', 'Profile', 'Tombstone') \
            and 'id' not in props:
        props['id'] = Plain(None)
    return Node(cls, props), rest


def meaning(name, value):
    kind, functional = PROPERTIES[name]
    if value is None:
        return Plain(None), None
    if isinstance(value, list):
        if functional:
            raise Outside(name)
        found = []
        for one in value:
            try:
                found.append(meaning(name, one))
            except Outside:
                pass
        return Many([one for one, _ in found]), [one for _, one in found]
    if isinstance(value, dict):
        if kind == 'name':
            return Plain(value), value
        allowed = {'page': PAGES + ['Link', 'Mention'],
                   'partOf': COLLECTIONS + ['Link', 'Mention'],
                   'collection': COLLECTIONS, 'object': OBJECTS,
                   'url': ['Link', 'Mention'], 'ref': CLASSES,
                   'ref1': CLASSES, 'closed': CLASSES,
                   'textref': OBJECTS}.get(kind, ())
        return interpret(value, allowed, False)
    if isinstance(value, bool):
        if kind != 'closed':
            raise Outside(name)
        return Plain(value), value
    if isinstance(value, (int, float)):
        if kind not in ('count', 'number', 'amount') or value < 0 \
                and kind != 'number':
            raise Outside(name)
        return Plain(value), value
    when = parse_instant(value)
    if kind == 'date' or kind == 'closed' and when:
        if not when:
            raise Outside(name)
        return Date(value, when), value
    if kind in REFS and is_address(value):
        return Ref(value), value
    if kind in ('id', 'href') and (is_address(value)
                                   or value.startswith('urn:')) \
            or kind in ('text', 'text1', 'name', 'textref') \
            or kind == 'duration' and value.startswith('P'):
        return Plain(value), value
    raise Outside(name)


# ---- oracles ------------------------------------------------------------
def instant_of(value):
    """the UTC instant of a datetime, without zone"""
    if value.utcoffset() is not None:
        value = value.astimezone(timezone.utc)
    return value.replace(tzinfo=None)


def parse_instant(text):
    """independent reading of a written date; None if it is malformed"""
    import re
    match = re.fullmatch(
        r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?'
        r'(Z|[+-]\d\d:\d\d)', text, re.ASCII)
    if not match:
        return None
    try:
        when = datetime(*(int(part) for part in match.groups()[:6]),
                        int((match[7] or '').ljust(6, '0')))
    except ValueError:
        return None
    zone = match[8]
    if zone != 'Z':
        delta = timedelta(hours=int(zone[1:3]), minutes=int(zone[4:6]))
        when -= delta if zone[0] == '+' else -delta
    return when


def same_json(got, wanted):
    """compares written JSON with the expectation (which may hold Dates)"""
    if isinstance(wanted, Date):
        return isinstance(got, str) and parse_instant(got) == wanted.instant
    if isinstance(wanted, dict):
        return isinstance(got, dict) and got.keys() == wanted.keys() and all(
            same_json(got[key], wanted[key]) for key in wanted)
    if isinstance(wanted, list):
        return isinstance(got, list) and len(got) == len(wanted) and all(
            map(same_json, got, wanted))
    kind = str if isinstance(got, str) else type(got)
    return kind is (str if isinstance(wanted, str) else type(wanted)) \
        and got == wanted


def differ(engine, obj, node, path='', context=None):
    """None if obj is what node means, else a text of the difference"""
    if node.__class__ is Plain:
        kind = str if isinstance(obj, str) else type(obj)
        return None if kind is type(node.value) and obj == node.value \
            else f'{path}: {obj!r}, expected {node.value!r}'
    if node.__class__ is Date:
        if isinstance(obj, datetime) and instant_of(obj) == node.instant:
            return None
        return f'{path}: {obj!r}, expected {node.text}'
    if node.__class__ is Ref:
        if type(obj) is engine.Link and obj.href == node.href:
            return None
        return f'{path}: {show(obj)}, expected a Link to {node.href!r}'
    if node.__class__ is Many:
        if not isinstance(obj, list) or len(obj) != len(node.values):
            return f'{path}: {show(obj)}, expected {len(node.values)} values'
        for index, value in enumerate(node.values):
            found = differ(engine, obj[index], value, f'{path}[{index}]',
                           context)
            if found:
                return found
        return None
    if type(obj) is not getattr(engine, node.cls):
        return f'{path}: {show(obj)}, expected a {node.cls}'
    if obj.type != node.cls:
        return f'{path}.type: {obj.type!r}, expected {node.cls!r}'
    filled = node.defaults()
    for name in PROPS[node.cls]:
        if name == 'type':
            continue
        wanted = node.props.get(name)
        if wanted is None:
            wanted = Plain(filled.get(name))
        found = differ(engine, getattr(obj, name), wanted, f'{path}.{name}',
                       context)
        if found:
            return found
    if context is not None and obj.acontext != context:
        return f'{path}.acontext: {obj.acontext!r}, expected {context!r}'
    return None


def show(obj):
    if hasattr(obj, 'href'):
        return f'{type(obj).__name__}(href={obj.href!r})'
    return repr(obj)[:200]


def shape(node):
    """what makes documents distinct for the evidence"""
    if isinstance(node, Node):
        return (node.cls, tuple(sorted((name, shape(value))
                                       for name, value in
                                       node.props.items())))
    if isinstance(node, Many):
        return tuple(shape(value) for value in node.values)
    return type(node).__name__
