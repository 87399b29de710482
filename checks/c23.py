"""C23: dates and durations keep their meaning."""
import json
import re
from datetime import datetime, timedelta, timezone, tzinfo

import as2
import as2spec as spec
from jsonld.tools import (datetime_str, is_activity_datetime,
                          parse_activitystream_datetime, timedelta_str)

ENGINES = []
# the dates of ActivityStreams, without what is open to interpretation
# (leap seconds, fractions of minutes, two zones)
GRAMMAR = re.compile(
    r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d)(?::(\d\d)(?:\.(\d{1,6}))?)?'
    r'(?:Z|([+-])(\d\d):(\d\d))', re.ASCII)
OPEN = re.compile(r':60|:\d\d\.|Z[+-]|\.\d{7}|[^\x00-\x7f]')
DURATION = re.compile(
    r'(-)?P(?=.)(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?'
    r'(?:T(?=.)(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d+))?S)?)?', re.ASCII)
DATES = ('published', 'updated', 'startTime', 'endTime')


def meaning(text):
    """UTC instant of a date text, None if it is no date"""
    match = GRAMMAR.fullmatch(text)
    if not match:
        return None
    year, month, day, hour, minute, second, fraction, sign, zh, zm = \
        match.groups()
    if sign and (int(zh) > 23 or int(zm) > 59):
        return None
    try:
        when = datetime(int(year), int(month), int(day), int(hour),
                        int(minute), int(second or 0),
                        int((fraction or '').ljust(6, '0')))
        if sign:
            offset = timedelta(hours=int(zh), minutes=int(zm))
            when = when - offset if sign == '+' else when + offset
    except ValueError:
        return None
    except OverflowError:
        return Ellipsis
    return when


def holder(rng):
    engine = ENGINES[0]
    name = rng.choice(DATES + ('deleted', 'closed'))
    if name == 'deleted':
        return engine.Tombstone(None), name
    if name == 'closed':
        return engine.Question(), name
    return rng.choice([engine.Note, engine.Event, engine.Create])(), name


def check_text(ctx, rng, text):
    wanted = meaning(text)
    if wanted is Ellipsis:
        return
    if wanted is None and OPEN.search(text):
        ctx.count('open')
        zoned = meaning(re.sub(r'Z(?=[+-])', '', text))
        if isinstance(zoned, datetime):
            # 'Z' before an offset: refused, or the offset counts
            try:
                got = parse_activitystream_datetime(text)
            except ValueError:
                return
            ctx.expect(spec.instant_of(got) == zoned,
                       lambda: f'{text!r} is parsed as {got!r}')
            ctx.count('zoned')
        return
    ctx.step('text', text)
    obj, name = holder(rng)
    if wanted is None:
        if name == 'closed' and (text.startswith('http') or '@' in text):
            return
        ctx.raises(ValueError, lambda: setattr(obj, name, text),
                   f'{name}={text!r}')
        ctx.expect(getattr(obj, name) is None, f'{name} after {text!r}')
        ctx.count('invalid')
        return
    setattr(obj, name, text)
    got = getattr(obj, name)
    ctx.expect(isinstance(got, datetime) and spec.instant_of(got) == wanted,
               lambda: f'{name}={text!r} is read as {got!r}')
    is_activity_datetime(text, prop=name)
    ctx.expect(spec.instant_of(parse_activitystream_datetime(text)) == wanted,
               lambda: f'{text!r} is parsed as '
                       f'{parse_activitystream_datetime(text)!r}')
    written = json.loads(obj.json())[name]
    ctx.expect(meaning(written) == wanted,
               lambda: f'{name}={text!r} is written as {written!r}')
    ctx.count('valid')
    ctx.saw('text', re.sub(r'\d', '0', text), wanted.year, wanted.month)


def texts(ctx, rng):
    gen = spec.Gen(rng)
    for _ in range(20):
        check_text(ctx, rng, gen.date().text)
        # leap days, ends of months and of days
        year = rng.choice([1900, 2000, 2015, 2016, 2100, 2400])
        month = rng.randrange(1, 13)
        day = rng.choice([28, 29, 30, 31])
        zone = rng.choice(['Z', '+00:00', '-00:00', '+23:59', '-23:59',
                           '+00:01', '-11:30'])
        clock = rng.choice(['00:00', '23:59:59', '23:59:59.999999',
                            '00:00:00.000001', '00:00:00', '12:00:00.10'])
        check_text(ctx, rng, f'{year}-{month:02}-{day:02}T{clock}{zone}')
        check_text(ctx, rng,
                   f'{year}-{month:02}-{day:02}T{clock}Z{zone[-6:]}')


ALPHABET = '0123456789-:.TZ+ tz/\n'


def broken(ctx, rng):
    gen = spec.Gen(rng)
    for _ in range(20):
        text = list(gen.date().text)
        for _ in range(rng.choice([1, 1, 2, 3])):
            where = rng.randrange(len(text) + 1)
            kind = rng.randrange(4)
            if kind == 0:
                text.insert(where, rng.choice(ALPHABET))
            elif kind == 1 and where < len(text):
                del text[where]
            elif kind == 2 and where < len(text):
                text[where] = rng.choice(ALPHABET)
            elif len(text) > 2:
                text = text[where:] if rng.random() < .5 else text[:where]
        check_text(ctx, rng, ''.join(text))


class Zone(tzinfo):
    """changes its offset in the year, like summer time"""

    def utcoffset(self, dt):
        return timedelta(hours=2 if dt and 3 < dt.month < 10 else 1)

    def dst(self, dt):
        return timedelta(hours=1 if dt and 3 < dt.month < 10 else 0)

    def tzname(self, dt):
        return 'T'


class Repeated(tzinfo):
    """the hour that comes twice"""

    def utcoffset(self, dt):
        return timedelta(hours=1 if dt and dt.fold else 2)

    def dst(self, dt):
        return timedelta(hours=0 if dt and dt.fold else 1)

    def tzname(self, dt):
        return 'R'


class NoOffset(tzinfo):
    """aware by name only"""

    def utcoffset(self, dt):
        return None

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return ''


def datetimes(ctx, rng):
    gen = spec.Gen(rng)
    for _ in range(20):
        when = gen.instant()
        zone = rng.choice([None, timezone.utc, Zone(), NoOffset(), Repeated(),
                           timezone(timedelta(minutes=rng.randrange(
                               -1439, 1440))),
                           timezone(timedelta(seconds=rng.randrange(
                               -80000, 80000)))])
        if zone and not 2 < when.year < 9990:
            zone = timezone.utc
        given = when.replace(tzinfo=zone, fold=rng.choice([0, 0, 1]))
        offset = given.utcoffset()
        wanted = when - (offset or timedelta(0))
        ctx.step('datetime', given)
        text = datetime_str(given)
        ctx.expect(isinstance(text, str) and meaning(text) == wanted
                   and text.endswith('Z'),
                   lambda: f'{given!r} is written as {text!r}')
        back = parse_activitystream_datetime(text)
        ctx.expect(spec.instant_of(back) == wanted,
                   lambda: f'{given!r} is written as {text!r} and read as '
                           f'{back!r}')
        obj, name = holder(rng)
        setattr(obj, name, given)
        ctx.expect(getattr(obj, name) == given,
                   lambda: f'{name}={given!r} is read as '
                           f'{getattr(obj, name)!r}')
        written = json.loads(obj.json())[name]
        ctx.expect(meaning(written) == wanted,
                   lambda: f'{name}={given!r} is written as {written!r}')
        ctx.count('datetimes')
        ctx.count('zones' if zone else 'naive')
        ctx.saw('datetime', type(zone).__name__, when.year, when.month,
                bool(when.microsecond))


def length(text):
    """timedelta of a written duration (years of 365, months of 30 days)"""
    match = DURATION.fullmatch(text)
    if not match:
        return None
    sign, years, months, days, hours, minutes, seconds, fraction = \
        match.groups()
    found = timedelta(days=int(years or 0) * 365 + int(months or 0) * 30
                      + int(days or 0), hours=int(hours or 0),
                      minutes=int(minutes or 0), seconds=int(seconds or 0),
                      microseconds=int((fraction or '0').ljust(6, '0')))
    return -found if sign else found


def durations(ctx, rng):
    engine = ENGINES[0]
    for _ in range(20):
        given = timedelta(
            days=rng.choice([0, 0, 0, 1, 6, 29, 30, 31, 59, 60, 364, 365,
                             366, 730, 3650, rng.randrange(5000)]),
            seconds=rng.choice([0, 0, 1, 59, 60, 61, 3599, 3600, 3661, 86399,
                                rng.randrange(86400)]),
            microseconds=rng.choice([0, 0, 0, 1, 10, 500000, 999999, 5000,
                                     50000, 100000, 120, 1200, 123456,
                                     rng.randrange(10 ** 6)]))
        if rng.random() < .3:
            given = -given
        ctx.step('duration', given)
        text = timedelta_str(given)
        ctx.expect(isinstance(text, str) and length(text) == given,
                   lambda: f'{given!r} is written as {text!r}')
        note = engine.Video(duration=given)
        ctx.expect(note.duration == given, f'duration={given!r} is kept')
        written = json.loads(note.json())['duration']
        ctx.expect(length(written) == given,
                   lambda: f'duration={given!r} is written as {written!r}')
        ctx.count('durations')
        ctx.count('negative' if given < timedelta(0) else 'positive')
        ctx.saw('duration', re.sub(r'\d+', '0', text))


def run(ctx):
    ctx.rule = ('distinct = different (pattern of the text, year, month) of '
                'dates read, (zone, year, month) of dates written and '
                'patterns of durations')
    ctx.assumptions = ['dates without zone are UTC', 'years have 365 and '
                       'months 30 days in durations', 'leap seconds, '
                       'fractions of minutes and of less than microseconds '
                       'are left open']
    ENGINES.append(as2.engine())
    n = 1 if ctx.quick else 25
    ctx.case(lambda rng: texts(ctx, rng), 'texts', 120 * n, 40 * n)
    ctx.case(lambda rng: broken(ctx, rng), 'broken', 200 * n, 40 * n)
    ctx.case(lambda rng: datetimes(ctx, rng), 'datetimes', 150 * n, 40 * n)
    ctx.case(lambda rng: durations(ctx, rng), 'durations', 150 * n, 40 * n)
    ctx.require(valid=1000, invalid=1000, datetimes=1000, zones=400,
                naive=100, durations=1000, negative=200)
