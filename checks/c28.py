"""C28: which addresses are accepted."""
import re

import as2
import as2spec as spec
import jsonld.engine.utils
import jsonld.tools

HOST = re.compile(r'[a-zA-Z0-9_.:-]+', re.ASCII)
SCHEMES = ['http', 'https', 'HTTP', 'Https', 'ftp', 'file', 'javascript',
           'data', 'mailto', 'acct', 'urn', 'gopher', 'httpss', 'htp', '',
           'ws', 'http+unix', 'view-source']
BAD = ' @/\\<>"\'%!$&()*+,;=~#?^`{|}äé☃\u2024\u3002\xa0[]\u2100\u2488\uff0f'


def wanted_url(url, secure):
    """own reading of RFC 3986: scheme, '//', authority up to / ? or #"""
    match = re.match(r'([a-zA-Z][a-zA-Z0-9+.-]*):(.*)', url, re.S)
    if not match or match[1].lower() not in ('http', 'https'):
        return False
    if secure and match[1].lower() != 'https':
        return False
    rest = match[2]
    if not rest.startswith('//'):
        return False
    authority = re.split(r'[/?#]', rest[2:], maxsplit=1)[0]
    return bool(HOST.fullmatch(authority))


def one(ctx, rng, url):
    for module in (jsonld.tools.validate_url,
                   jsonld.engine.utils.validate_url):
        for secure in (False, True):
            wanted = wanted_url(url, secure)
            got = module(url, secure=secure)
            ctx.expect(got is wanted,
                       lambda: f'{module.__module__}: validate_url({url!r}, '
                               f'secure={secure}) is {got!r}')
            if not secure:
                ctx.expect(module(url) is wanted,
                           lambda: f'validate_url({url!r}) differs')
    ctx.count('valid' if wanted_url(url, False) else 'invalid')
    ctx.saw('url', re.sub(r'[a-z]+', 'a', re.sub(r'\d+', '0', url))[:60])


def urls(ctx, rng):
    gen = spec.Gen(rng)
    for _ in range(30):
        one(ctx, rng, gen.url())
        scheme = rng.choice(SCHEMES)
        host = ''.join(rng.choice('abzAZ019-_.:') for _ in
                       range(rng.choice([0, 1, 2, 5, 12])))
        if rng.random() < .5 and host:
            where = rng.randrange(len(host) + 1)
            host = host[:where] + rng.choice(BAD) + host[where:]
        path = rng.choice(['', '/', '/x', '/x?y=1#z', '?q', '#f', '/@user',
                           '/a b', '/%20', '//x', '/:x', '/é'])
        slashes = rng.choice(['://', '://', '://', '://', ':', ':/', '//',
                              ':///', ''])
        one(ctx, rng, scheme + slashes + host + path)
    # whatever it looks like
    for host in ('xn--bcher-kva.example', 'XN--P1AI', 'localhost',
                 'localhost:8080', '127.0.0.1', '10.0.0.1:80', '0', 'a',
                 '-', '_', 'a_b.example', 'example.', 'A.EXAMPLE', 'www.',
                 'example.org:443', '1.example', '--a--.example',
                 'a..example', 'example.org:0443', 'null', 'undefined',
                 '0x7f000001', '2130706433', 'a.local', 'x.onion', 'test'):
        for scheme in ('http', 'https', 'ftp'):
            one(ctx, rng, f'{scheme}://{host}'
                + rng.choice(['', '/', '/x', '?q', '#f']))
    for scheme in ('http', 'https', 'ftp'):
        size = rng.choice([64, 255, 256, 2000, 2084, 9000, 70000])
        one(ctx, rng, f'{scheme}://a.example/' + rng.choice(
            ['x', 'é/', '?q=1&', '#']) * size)
        one(ctx, rng, f'{scheme}://' + 'sub.' * (size // 4) + 'example/')
        one(ctx, rng, f'{scheme}://' + 'sub.' * (size // 4) + 'exa mple/')
        ctx.count('long')


ADDRESSES = ['joe@example.com', 'a.b+c@example.org', 'x_y@sub.example.net',
             'user1@mastodon.social', 'A@B.example', "o'neil@example.com"]
NO_ADDRESSES = ['', 'joe', '@example.com', 'joe@', 'joe@@example.com',
                'joe example.com', 'joe@exa mple.com',
                '@joe@example.com', 'joe@example.com@example.org',
                'joe@example..com', 'a\nb@example.com']


def accounts(ctx, rng):
    """an account is valid if and only if the address in it is"""
    for validate in (jsonld.tools.validate_acct_or_email,
                     jsonld.engine.utils.validate_acct_or_email):
        for text in ADDRESSES:
            ctx.expect(validate(text) and validate('acct:' + text),
                       f'{text!r} is refused')
            ctx.expect(not validate('acct:acct:' + text),
                       f'acct:acct:{text} is accepted')
            for prefix in ('ACCT :', 'mailto:', 'acct:mailto:', 'user:',
                           'xmpp:', 'accts:', ':',
                           'http://', 'acct:@'):
                ctx.expect(not validate(prefix + text),
                           f'{prefix}{text} is accepted')
            for place in range(1, len(text) + 1):
                inside = text[:place] + 'acct:' + text[place:]
                ctx.expect(not validate(inside), f'{inside} is accepted')
            ctx.count('accounts')
        text = 'x' * rng.randrange(1, 65) + '@' + ''.join(
            'y' * rng.randrange(1, 60) + '.'
            for _ in range(rng.randrange(1, 4))) + 'example'
        ctx.expect(validate(text) and validate('acct:' + text),
                   f'{text!r} is refused')
        for text in NO_ADDRESSES:
            ctx.expect(not validate(text) and not validate('acct:' + text),
                       f'{text!r} is accepted')
            ctx.count('no_accounts')
        for _ in range(20):
            text = ''.join(rng.choice('ab.1@-_ ') for _ in range(9))
            ctx.expect(bool(validate(text)) == bool(validate('acct:' + text)),
                       f'{text!r} and acct:{text} differ')
            if '@' not in text:
                ctx.expect(not validate(text), f'{text!r} is accepted')


def links(ctx, rng):
    """only addresses become links"""
    engine = ENGINES[0]
    for _ in range(10):
        text = rng.choice([
            rng.choice(SCHEMES) + '://' + rng.choice(
                ['a.example', 'a b', 'x@y.example', 'é.example', '', 'A:1'])
            + rng.choice(['', '/p']),
            rng.choice(ADDRESSES), 'acct:' + rng.choice(ADDRESSES),
            rng.choice(NO_ADDRESSES)])
        fine = wanted_url(text, False) or text in ADDRESSES or (
            text[:5] == 'acct:' and text[5:] in ADDRESSES)
        if not fine and jsonld.tools.validate_acct_or_email(text):
            continue
        note = engine.Note()
        ctx.step('to', text)
        try:
            note.to = text
        except ValueError:
            ctx.expect(not fine, f'to={text!r} is refused')
            ctx.expect(note.to is None, f'to after {text!r}')
            ctx.count('refused')
        else:
            ctx.expect(fine and type(note.to) is engine.Link
                       and note.to.href == text,
                       lambda: f'to={text!r} became {spec.show(note.to)}')
            ctx.count('links')
        note.url = text
        got = note.url
        if fine:
            ctx.expect(type(got) is engine.Link and got.href == text,
                       lambda: f'url={text!r} became {got!r}')
        else:
            ctx.expect(got == text and type(got) is str,
                       lambda: f'url={text!r} became {got!r}')


ENGINES = []


def run(ctx):
    ctx.rule = 'distinct = different patterns of addresses judged'
    ctx.assumptions = [
        'which single mail addresses are valid is decided by the '
        'validate_email package']
    ENGINES.append(as2.engine())
    n = 1 if ctx.quick else 30
    ctx.case(lambda rng: urls(ctx, rng), 'urls', 150 * n, 40 * n)
    ctx.case(lambda rng: accounts(ctx, rng), 'accounts', 10 * n, 40 * n)
    ctx.case(lambda rng: links(ctx, rng), 'links', 100 * n, 40 * n)
    ctx.require(valid=1500, invalid=1500, accounts=100, no_accounts=100,
                links=200, refused=200)
