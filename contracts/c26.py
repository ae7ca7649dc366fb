"""C26: human date phrases resolve to the documented instant for every now (epsilon/extime.py)."""
import datetime
from pyded.api import contract, search
from epsilon import extime
from contracts import times as T

Time = extime.Time
DAYNAMES = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday']
MINUTE = datetime.timedelta(minutes=1)


def current(h):
    """any current time: its instant and itself"""
    r = T.span(h, 'resolution of now', 1)
    h.assume(r < T.DAY)
    return T.time(h, 'now', r, lo=10, hi=T.DAYS - 12)


def midnight(d):
    return d.replace(hour=0, minute=0, second=0, microsecond=0)


def styled(h, word):
    """the word as a person may type it"""
    if h.sym:
        # re.IGNORECASE and strip() run natively on the word: one style stands for all but the search tries more
        return h.choice('style', [word, ' ' + word.capitalize() + ' '])
    return h.choice('style', [word, word.upper(), word.capitalize(), ' ' + word, word + '  ', word.swapcase(),
                              ''.join(c.upper() if i % 2 else c for i, c in enumerate(word))])


def parse(h, text, tz, now):
    return h.call(Time.fromHumanly, text, tz, now)


@contract('C26', 'weekdays')
def c_weekday(h):
    a, now = current(h)
    tz, off = T.maybe_zone(h, 'timezone')
    k = h.choice('weekday', 7)
    prefix = h.choice('prefix', ['', 'next ', 'this ']) if not h.sym or k in (0, 6) else ''
    o = parse(h, prefix + styled(h, DAYNAMES[k]) if not prefix else prefix + DAYNAMES[k], tz, now)
    h.ensure('a weekday is understood', h.And(o.ok, isinstance(o.value, Time)), o)
    at = T.utc(h, o.value)
    h.ensure('midnight UTC', h.eq(midnight(at), at))
    h.ensure('of that weekday', h.eq(at.weekday(), k))
    d = at - midnight(a)
    h.ensure('one to seven days after today', h.And(d >= T.DAY, d <= T.DAY * 7))
    h.ensure('for one day', h.eq(o.value.resolution, T.DAY))
    h.ensure('now is not changed', h.eq(T.utc(h, now), a))


@contract('C26', 'today, tomorrow and yesterday')
def c_today(h):
    a, now = current(h)
    tz, off = T.maybe_zone(h, 'timezone')
    word, d = h.choice('word', [('today', 0), ('tomorrow', 1), ('yesterday', -1)])
    o = parse(h, styled(h, word), tz, now)
    h.ensure('the day is understood', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('midnight UTC of that calendar day', h.eq(T.utc(h, o.value), midnight(a) + T.DAY * d))
    h.ensure('for one day', h.eq(o.value.resolution, T.DAY))
    h.ensure('now is not changed', h.eq(T.utc(h, now), a))


def occurrence(h, o, a, off, hour, minute, since):
    """o gives the first occurrence of the clock time, not before `since`, in the timezone"""
    h.ensure('a clock time is understood', h.And(o.ok, isinstance(o.value, Time)), o)
    local = T.utc(h, o.value) + off
    h.ensure('at the hour and minute in the timezone', h.And(h.eq(local.hour, hour), h.eq(local.minute, minute)))
    h.ensure('at the start of the minute', h.And(h.eq(local.second, 0), h.eq(local.microsecond, 0)))
    h.ensure('not before the current minute or hour', local >= since)
    h.ensure('the next such time', local < since + T.DAY)
    h.ensure('for one minute', h.eq(o.value.resolution, MINUTE))


@contract('C26', 'clock times')
def c_clock(h):
    """h:mm or hh:mm with any digits, with am, pm or nothing"""
    a, now = current(h)
    tz, off = T.maybe_zone(h, 'timezone')
    width = h.choice('digits of the hour', [1, 2])
    hour = h.int('hour', 0, 9 if width == 1 else 99)
    minute = h.int('minute', 0, 99)
    if h.sym:
        suffix = h.choice('suffix', ['', 'am', ' PM', 'pm', '  Am'])
    else:
        suffix = h.choice('suffix', ['', '', 'am', 'pm', ' am', ' pm', '  PM', ' Am', 'aM'])
    text = ('%i' if width == 1 else '%02i') % (hour,) + ':%02i' % (minute,) + suffix
    o = parse(h, text, tz, now)
    half = suffix.strip().lower()
    if half:
        valid = h.And(hour >= 1, hour <= 12, minute <= 59)
    else:
        valid = h.And(hour <= 23, minute <= 59)
    if h.sym:
        valid = bool(valid)
    if not valid:
        h.ensure('a clock time that does not exist is a ValueError', o.raised(ValueError), o)
        return
    if half == 'am':
        hour = 0 if hour == 12 else hour
    elif half == 'pm':
        hour = 12 if hour == 12 else hour + 12
    occurrence(h, o, a, off, hour, minute, (a + off).replace(second=0, microsecond=0))


@contract('C26', 'noon and midnight')
def c_noon(h):
    a, now = current(h)
    tz, off = T.maybe_zone(h, 'timezone')
    word, hour = h.choice('word', [('noon', 12), ('midnight', 0)])
    o = parse(h, styled(h, word), tz, now)
    occurrence(h, o, a, off, hour, 0, (a + off).replace(minute=0, second=0, microsecond=0))


@contract('C26', 'now')
def c_now(h):
    a, now = T.time(h, 'now', T.span(h, 'resolution'), lo=10, hi=T.DAYS - 12)
    tz, off = T.maybe_zone(h, 'timezone')
    o = parse(h, styled(h, 'now'), tz, now)
    h.ensure('now is understood', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('the current instant', h.eq(T.utc(h, o.value), a))
    h.ensure('an instant', h.eq(o.value.resolution, T.ONE))


@contract('C26', 'anything else')
def c_junk(h):
    a, now = current(h)
    tz, off = T.maybe_zone(h, 'timezone')
    text = h.choice('text', ['', 'never', 'mon', 'mondays', 'today 12:00', '12', '12:0', ':30', '1:2:3', 'nownow', 'now!',
                             '12:000', 'am', 'next', 'next today', '-1:30', '112:30', '12:30 xm', 'noon pm'])
    o = parse(h, text, tz, now)
    h.ensure('what is no phrase is a ValueError', o.raised(ValueError), o)


@search('C26', 'the system clock', weight=0.05)
def s_clock(h):
    before = datetime.datetime.utcnow()
    o = h.call(Time.fromHumanly, 'now')
    after = datetime.datetime.utcnow()
    h.ensure('now is the system clock', o.ok and before <= T.utc(h, o.value) <= after, o)
