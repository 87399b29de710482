"""Generators of ids and values shared by the storage checks."""

ALPHABETS = [
    'ab', '0123456789', 'abcdefghijklmnopqrstuvwxyz', 'aA.-_:/ ',
    'éßñ\u4e2d\u6587\U0001f600', '\x00\x01\n\t "\\',
]


FORMS = ['\u00e9', 'e\u0301', '\u00c5', 'A\u030a', '\u212b', '\ufb01', 'fi',
         '\u00df', 'ss', '\u1e9e', 'I', 'i', '\u0130', '\u0131', '\uac00',
         '\u1100\u1161', '\u2160', '\ufeff', '\u200d', '%C3%A9', '+', '%20',
         '\uffff', '\U0010ffff', '\x7f', '\x80', '\u0100', '\xff']


def an_id(rng):
    kind = rng.random()
    if kind < 0.02:
        return ''
    if kind < 0.35:
        return f'https://example.org/{rng.choice(["obj", "user", "n"])}/' \
               f'{rng.randrange(200)}'
    if kind < 0.40:
        return rng.choice('xé中') * rng.choice([100, 255, 256, 1000]) + str(rng.randrange(9))
    if kind < 0.43:
        # one letter that is written in several ways
        return rng.choice(['', 'a', 'http://x/']) + rng.choice(FORMS) + \
            rng.choice(['', '', ' ', '1'])
    alphabet = rng.choice(ALPHABETS)
    return ''.join(rng.choice(alphabet)
                   for _ in range(rng.randint(1, rng.choice([2, 4, 12]))))


def ids(rng, count):
    """distinct ids, with prefixes of each other among them"""
    found = []
    seen = set()
    tries = 0
    while len(found) < count:
        tries += 1
        if found and rng.random() < 0.2:
            base = rng.choice(found)
            new = base + rng.choice(['', 'a', '0', '\x00', '\u4e2d'])
        else:
            new = an_id(rng)
        if tries > 20 * count:
            new = f'{new}#{tries}'
        if new not in seen:
            seen.add(new)
            found.append(new)
    return found


class Serial:
    """unique values, so that a read identifies the write it observed"""

    def __init__(self):
        self.n = 0

    def __call__(self, rng, falsy=0.25):
        self.n += 1
        if rng.random() < falsy:
            return rng.choice([None, 0, False, '', [], {}, (), 0.0, b''])
        kind = rng.randrange(6)
        if kind == 0:
            return self.n
        if kind == 1:
            return f'value {self.n}'
        if kind == 2:
            return ['list', self.n, None]
        if kind == 3:
            return {'key': self.n, 'nested': {'é': [1, 2]}}
        if kind == 4:
            return (self.n, 'tuple')
        return float(self.n) + 0.5


def same(left, right):
    """equal and of the same type (0, False, '' and None are different)"""
    return type(left) is type(right) and left == right


def index_of(id, count):
    """documented placement: the id bytes as a big number modulo the count"""
    return int.from_bytes(id.encode(), 'big') % count
