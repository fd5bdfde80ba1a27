"""C07: dates and times round-trip to the same instant through RFC3339 text."""
from datetime import date, datetime, time, timedelta, timezone, tzinfo
from typing import Dict, List, Optional

import jsons
from engine.api import harness




def expect_text(g, text, parts, msg):
    """text consists of exactly the given parts: a character, or (number, width) in zero-padded digits."""
    want = sum([1 if isinstance(p, str) else p[1] for p in parts])
    g.check(len(text) == want, msg + ': length of the text', text)
    i = 0
    for p in parts:
        if isinstance(p, str):
            g.check(text[i] == p, msg + ': separator', text, p)
            i += 1
        else:
            val = 0
            for k in range(p[1]):
                c = ord(text[i + k])
                g.check(48 <= c and c <= 57, msg + ': digit', text)
                val = val * 10 + (c - 48)
            g.check(val == p[0], msg + ': number', text, p[0])
            i += p[1]


@harness('all dates')
def date_rt(g):
    y, m, d = g.date('d')
    x = date(y, m, d)
    s = g.ok('dump', jsons.dump, x)
    expect_text(g, s, [(y, 4), '-', (m, 2), '-', (d, 2)], 'date text')
    g.same(g.ok('load', jsons.load, s, date), x, 'date round trip')


def draw_time(g, micro=True):
    return (g.int('H', 0, 23), g.int('M', 0, 59), g.int('S', 0, 59),
            g.int('us', 0, 999999) if micro else 0)


def fraction(us):
    """The fraction part of the expected text."""
    return ['.', (us, 6)] if us != 0 else []


@harness('all times without timezone')
def time_rt(g):
    h, m, s, us = draw_time(g)
    x = time(h, m, s, us)
    t = g.ok('dump', jsons.dump, x)
    expect_text(g, t, [(h, 2), ':', (m, 2), ':', (s, 2)] + fraction(us), 'time text')
    g.same(g.ok('load', jsons.load, t, time), x, 'time round trip')


def draw_zone(g):
    """A fixed offset of whole minutes between -23:59 and +23:59, or UTC; the expected text of it."""
    if g.flag('utc'):
        return timezone.utc, ['Z'], 0
    n = g.int('offset', -1439, 1439)
    tz = timezone(timedelta(minutes=n))
    if n == 0:
        return tz, ['Z'], 0
    a = n if n > 0 else -n
    return tz, ['+' if n > 0 else '-', (a // 60, 2), ':', (a % 60, 2)], n


@harness('all datetimes of the years 1..9999 with every whole-minute offset from -23:59 to +23:59')
def datetime_rt(g):
    y, mo, d = g.date('d')
    h, m, s, us = draw_time(g)
    tz, ztext, n = draw_zone(g)
    x = datetime(y, mo, d, h, m, s, us, tz)
    t = g.ok('dump', jsons.dump, x)
    expect_text(g, t, [(y, 4), '-', (mo, 2), '-', (d, 2), 'T', (h, 2), ':', (m, 2), ':', (s, 2)]
                + fraction(us) + ztext, 'datetime text')
    back = g.ok('load', jsons.load, t, datetime)
    g.same(back, x, 'datetime round trip')
    g.check(back.utcoffset() == timedelta(minutes=n), 'offset', back)


@harness('all datetimes of the years 1..9999 with every whole-minute offset; microseconds stripped')
def strip_micro(g):
    y, mo, d = g.date('d')
    h, m, s, us = draw_time(g)
    tz, ztext, n = draw_zone(g)
    x = datetime(y, mo, d, h, m, s, us, tz)
    t = g.ok('dump', jsons.dump, x, strip_microseconds=True)
    expect_text(g, t, [(y, 4), '-', (mo, 2), '-', (d, 2), 'T', (h, 2), ':', (m, 2), ':', (s, 2)] + ztext,
                'stripped datetime text')
    g.same(g.ok('load', jsons.load, t, datetime), datetime(y, mo, d, h, m, s, 0, tz), 'stripped datetime round trip')


class Seasonal(tzinfo):
    """A zone whose offset depends on the month."""

    def __init__(self, winter, summer):
        self.winter, self.summer = winter, summer

    def utcoffset(self, dt):
        if dt is None:
            return None
        return timedelta(minutes=self.summer if 4 <= dt.month and dt.month <= 9 else self.winter)

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return None if dt is None else 'LOC'


ZONES = ('named UTC', 'named GMT', 'other name', 'seasonal')


@harness('years 1000..9999, every whole-minute offset, zones with a name and zones whose offset depends on the date',
         params=ZONES)
def zones(g):
    y, mo, d = g.date('d', 1000)
    h, m, s = g.int('H', 0, 23), g.int('M', 0, 59), g.int('S', 0, 59)
    n = g.int('offset', -1439, 1439)
    if g.param == 'seasonal':
        k = g.int('summer', -1439, 1439)
        tz = Seasonal(n, k)
        if 4 <= mo and mo <= 9:
            n = k
    else:
        tz = timezone(timedelta(minutes=n), {'named UTC': 'UTC', 'named GMT': 'GMT', 'other name': 'over there'}[g.param])
    x = datetime(y, mo, d, h, m, s, 0, tz)
    t = g.ok('dump', jsons.dump, x)
    local = [(y, 4), '-', (mo, 2), '-', (d, 2), 'T', (h, 2), ':', (m, 2), ':', (s, 2)]
    if n == 0 and len(t) == 20:
        expect_text(g, t, local + ['Z'], 'text')
    elif n == 0:
        expect_text(g, t[:19], local, 'text')
        g.check(t[19:] in ('+00:00', '-00:00'), 'text of a zero offset', t)
    else:
        a = n if n > 0 else -n
        expect_text(g, t, local + ['+' if n > 0 else '-', (a // 60, 2), ':', (a % 60, 2)], 'text')
    back = g.ok('load', jsons.load, t, datetime)
    g.same(back, datetime(y, mo, d, h, m, s, 0, timezone(timedelta(minutes=n))), 'datetime round trip')


class Event:
    def __init__(self, day: date, at: time, when: datetime, log: List[datetime], by: Dict[str, Optional[datetime]]):
        self.day, self.at, self.when, self.log, self.by = day, at, when, log, by


@harness('objects holding dates, times and UTC datetimes (years 1000..9999) as attributes, elements and dict values')
def nested(g):
    y, mo, d = g.date('d', 1000)
    h, m, s, us = draw_time(g)
    h2, strip = g.int('H2', 0, 23), g.flag('strip')
    dts = [datetime(y, mo, d, h, m, s, us, timezone.utc), datetime(y, mo, d, h2, m, s, us, timezone.utc)]
    e = Event(date(y, mo, d), time(h, m, s, us), dts[0], dts, {'a': dts[1], 'b': None})
    out = g.ok('dump', jsons.dump, e, strip_microseconds=strip)
    us2 = 0 if strip else us
    back = g.ok('load', jsons.load, out, Event)
    dts2 = [datetime(y, mo, d, h, m, s, us2, timezone.utc), datetime(y, mo, d, h2, m, s, us2, timezone.utc)]
    g.same(back.day, date(y, mo, d), 'nested date')
    g.same(back.at.replace(microsecond=0), time(h, m, s), "nested time")
    g.check(strip or back.at.microsecond == us, 'nested time: microseconds')
    g.same(back.when, dts2[0], 'nested datetime')
    g.same(back.log, dts2, 'list of datetimes')
    g.same(back.by, {'a': dts2[1], 'b': None}, 'dict of datetimes')
    expect_text(g, out['log'][1], [(y, 4), '-', (mo, 2), '-', (d, 2), 'T', (h2, 2), ':', (m, 2), ':', (s, 2)]
                + fraction(us2) + ['Z'], 'text of a nested datetime')
