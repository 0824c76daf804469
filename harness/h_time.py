"""J06: durations; J07: datetimes."""
from sx.registry import harness, product
from sx.api_conc import attempt
from harness.common import same

MODS = ['jsonld.tools.datetime', 'jsonld.engine.utils', 'jsonld.tools.type']


def duration_fn(which):
    if which == 'tools':
        from jsonld.tools.datetime import timedelta_str as fn
    elif which == 'stringify':
        from jsonld.engine.utils import stringify as fn
    else:
        from jsonld.engine.utils import stringify_timedelta as fn
    return fn


def parse_duration(api, text):
    """(sign, microseconds) denoted by an ISO 8601 duration, or None if malformed"""
    toks = api.tokens(text)
    i, sign = 0, 1
    if i < len(toks) and toks[i][0] == 'c' and toks[i][1] == '-':
        sign, i = -1, i + 1
    if i >= len(toks) or toks[i][0] != 'c' or toks[i][1] != 'P':
        return None
    i += 1
    units = [('Y', 365 * 86400), ('M', 30 * 86400), ('D', 86400)]
    total, seen, intime = 0, 0, False
    part = 0
    while i < len(toks):
        t = toks[i]
        if t[0] == 'c' and t[1] == 'T':
            if intime:
                return None
            intime, units, part, i = True, [('H', 3600), ('M', 60), ('S', 1)], 0, i + 1
            continue
        if t[0] != 'n' or i + 1 >= len(toks):
            return None
        n, frac = t[1], 0
        i += 1
        if toks[i][0] == 'c' and toks[i][1] == '.':
            if i + 2 >= len(toks) or toks[i + 1][0] != 'n':
                return None
            width = toks[i + 1][2]
            if width is None or width > 6:
                return None
            frac = toks[i + 1][1] * 10 ** (6 - width)
            i += 2
        if toks[i][0] != 'c':
            return None
        while units and not (toks[i][1] == units[0][0]):
            units = units[1:]
        if not units:
            return None
        if units[0][0] != 'S' and not (isinstance(frac, int) and frac == 0):
            return None
        total = total + (n * 1000000 + frac) * units[0][1]
        units, seen, part, i = units[1:], seen + 1, part + 1, i + 1
    if not seen or (intime and not part):
        return None
    return sign, total


def micros(d, s, us):
    return (d * 86400 + s) * 1000000 + us


@harness('J06', shards=product(which=['tools', 'engine', 'stringify'],
                               span=['zero', 'short', 'long', 'negative', 'fraction', 'negfraction']),
         thorough=product(which=['tools', 'engine', 'stringify'],
                          span=['zero', 'short', 'long', 'negative', 'fraction', 'negfraction', 'huge', 'neghuge']),
         bounds='every duration of up to 1000 (thorough 999999999) years, negative ones and microseconds included', modules=MODS)
def h_duration(api, which, span):
    from datetime import timedelta
    fn = duration_fn(which)
    top = {'huge': 999999999, 'neghuge': 999999999}.get(span, 365000)
    if span == 'zero':
        d = s = us = 0
    elif span == 'short':
        d, s, us = 0, api.int('s', 0, 86399), 0
    elif span in ('long', 'huge'):
        d, s, us = api.int('d', 1, top), api.int('s', 0, 86399), 0
    elif span in ('negative', 'neghuge'):
        d, s, us = api.int('d', -top, -1), api.int('s', 0, 86399), 0
    elif span == 'fraction':
        d, s, us = api.int('d', 0, 1), api.int('s', 0, 86399), api.int('us', 1, 999999)
    else:
        d, s, us = api.int('d', -2, -1), api.int('s', 0, 86399), api.int('us', 1, 999999)
    td = timedelta(days=d, seconds=s, microseconds=us)
    text = fn(td)
    api.check(api.istext(text), 'text')
    r = parse_duration(api, text)
    api.check(r is not None, 'a well-formed duration')
    sign, total = r
    api.check(sign * total == micros(d, s, us), 'denotes the duration')


# --------------------------------------------------------------------------
# J07

TMODS = MODS + ['activitystreams.properties']
LENGTHS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(y):
    return y % 4 == 0 and (not y % 100 == 0 or y % 400 == 0)


def month_days(y, m):
    for i in range(12):
        if m == i + 1:
            return 29 if i == 1 and leap(y) else LENGTHS[i]
    return 0


def to_utc(y, mo, d, h, mi, off):
    """the fields of the instant, `off` minutes east of UTC, in UTC; None outside years 1..9999"""
    t = h * 60 + mi - off
    if t < 0:
        t, d = t + 1440, d - 1
        if d < 1:
            mo = mo - 1
            if mo < 1:
                y, mo = y - 1, 12
            d = month_days(y, mo)
    elif t >= 1440:
        t, d = t - 1440, d + 1
        if d > month_days(y, mo):
            mo, d = mo + 1, 1
            if mo > 12:
                y, mo = y + 1, 1
    if y < 1 or y > 9999:
        return None
    return y, mo, d, t // 60, t % 60


def fields(api, text):
    """fields of YYYY-MM-DDTHH:MM:SSZ, None if it is not of this form"""
    text = api.concat(text)
    if not len(text) == 20:
        return None
    out = []
    for i, c in enumerate('dddd-dd-ddTdd:dd:ddZ'):
        t = text[i]
        if c == 'd':
            if not ('0' <= t and t <= '9'):
                return None
            out.append(ord(t) - 48)
        elif not t == c:
            return None
    n = lambda i, k: sum(out[i + j] * 10 ** (k - 1 - j) for j in range(k))   # noqa: E731
    return n(0, 4), n(4, 2), n(6, 2), n(8, 2), n(10, 2), n(12, 2)


def owner(name):
    """an object with the property of that name of the vocabulary"""
    from activitystreams import properties
    from jsonld.jsonld import PropertyJsonLD
    cls = type('Owner', (PropertyJsonLD,), {
        name: vars(getattr(properties, name[0].upper() + name[1:]))[name]})
    return cls(None)


def writer(which):
    if which == 'tools':
        from jsonld.tools.datetime import datetime_str as fn
    elif which == 'stringify':
        from jsonld.engine.utils import stringify as fn
    else:
        from jsonld.engine.utils import stringify_datetime as fn
    return fn


def sym_date(api, lo, hi, month):
    y = api.int('y', lo, hi)
    d = api.int('d', 1, 31)
    api.assume(d <= month_days(y, month))
    return y, month, d


@harness('J07', shards=product(which=['tools', 'engine', 'stringify', 'property'], zone=['naive', 'utc'],
                               months=[(2, 11)]) + product(which=['tools'], zone=['offset'], months=[(1,), (3,), (12,)]) +
         product(which=['engine'], zone=['offset'], months=[(2,), (3,)]) +
         product(which=['property'], zone=['offset'], months=[(1,)]),
         thorough=product(which=['tools', 'engine', 'stringify', 'property'], zone=['naive', 'utc', 'offset'],
                          months=[(m,) for m in range(1, 13)]),
         bounds='every datetime of years 1 to 9999 (quick: some months), any UTC offset of whole minutes',
         modules=TMODS)
def h_datetime(api, which, zone, months):
    from datetime import datetime, timedelta, timezone
    month = api.choice('month', list(months))
    y, mo, d = sym_date(api, 1, 9999, month)
    h, mi, s, us = api.int('h', 0, 23), api.int('mi', 0, 59), api.int('s', 0, 59), api.int('us', 0, 999999)
    off, tz = 0, None
    if zone == 'utc':
        tz = timezone.utc
    elif zone == 'offset':
        off = api.int('off', -1439, 1439)
        tz = timezone(timedelta(minutes=off))
    want = to_utc(y, mo, d, h, mi, off)
    api.assume(want is not None)
    value = datetime(y, mo, d, h, mi, s, us, tzinfo=tz)
    if which == 'property':
        obj = owner('published')
        obj.published = value
        api.check(obj.published is value, 'the datetime itself is kept')
        text = obj.data().get('published')
    else:
        text = writer(which)(value)
    api.check(api.istext(text), 'text')
    got = fields(api, text)
    api.check(got is not None, 'well-formed text')
    api.check(api.and_(*[g == w for g, w in zip(got, want + (s,))]), 'the same instant')


@harness('J07', shards=product(which=['tools', 'engine', 'property'], month=[1]) + product(which=['tools'], month=[12]),
         thorough=product(which=['tools', 'engine', 'stringify', 'property'], month=[1, 2, 3, 7, 12]),
         bounds='every datetime of the listed months of years 1 to 9999, any UTC offset of whole seconds (as of local mean times)',
         modules=TMODS)
def h_datetime_seconds(api, which, month):
    from datetime import datetime, timedelta, timezone
    y, mo, d = sym_date(api, 1, 9999, month)
    h, mi, s = api.int('h', 0, 23), api.int('mi', 0, 59), api.int('s', 0, 59)
    om, os = api.int('offset_minutes', -1439, 1439), api.int('offset_seconds', 0, 59)
    tz = timezone(timedelta(minutes=om, seconds=os))
    less = s < os
    want = to_utc(y, mo, d, h, mi, om + (1 if less else 0))
    api.assume(want is not None)
    value = datetime(y, mo, d, h, mi, s, tzinfo=tz)
    if which == 'property':
        obj = owner('published')
        obj.published = value
        text = obj.data().get('published')
    else:
        text = writer(which)(value)
    got = fields(api, text)
    api.check(got is not None, 'well-formed text')
    api.check(api.and_(*[g == w for g, w in zip(got, want + (s - os + (60 if less else 0),))]), 'the same instant')


# layouts of texts: d = digit, ? = sign
SHAPES = [date + sec + frac + zone
          for date in ('dddd-dd-ddTdd:dd',) for sec in ('', ':dd') for frac in ('', '.d', '.dddddd')
          for zone in ('Z', '?dd:dd', 'Z?dd:dd')]


def denoted(api, text, shape):
    """the fields the text (of the shape) denotes: (y, mo, d, h, mi, s, us, off or None), None if it is none,
    'leap' for a leap second (datetimes have none)"""
    sign, num, nums, seps, frac = 1, [], [], [], False
    for i, c in enumerate(shape + ' '):
        if c == 'd':
            num.append(api.ord(text[i]) - 48)
            continue
        if num:
            num = num + [0] * (6 - len(num)) if frac else num
            nums.append(sum(x * 10 ** (len(num) - 1 - j) for j, x in enumerate(num)))
            num = []
        if c == '?':
            sign = api.ite(text[i] == '-', -1, 1)
        seps.append(c)
        frac = c == '.'
    y, mo, d, h, mi = nums[:5]
    rest = nums[5:]
    s = us = 0
    off = None
    if seps.count(':') - ('?' in seps) == 2:
        s, rest = rest[0], rest[1:]
    if '.' in seps:
        us, rest = rest[0], rest[1:]
    long = api.or_(*[mo == m for m in (1, 3, 5, 7, 8, 10, 12)])
    leapday = api.and_(mo == 2, y % 4 == 0, api.or_(api.not_(y % 100 == 0), y % 400 == 0))
    ok = [1 <= y, 1 <= mo, mo <= 12, h <= 23, mi <= 59, s <= 60, 1 <= d, d <= 31,
          api.or_(d <= 28, long, api.and_(d <= 30, api.not_(mo == 2)), api.and_(d == 29, leapday))]
    if rest:
        oh, om = rest
        ok += [oh <= 23, om <= 59]
        off = sign * (oh * 60 + om)
    if not api.and_(*ok):
        return None
    if s == 60:
        return 'leap'
    return y, mo, d, h, mi, s, us, off


def check_parsed(api, obj, name, text, want, before):
    r = attempt(lambda: setattr(obj, name, text), ValueError)
    got = getattr(obj, name)
    if want == 'leap' and r[0] == 'exc':
        return None
    if want is None or r[0] == 'exc':
        api.check(want is None, 'a datetime is accepted')
        api.check(r[0] == 'exc', 'a text that is no datetime is rejected')
        api.check(got is before, 'a rejected text changes nothing')
        return None
    api.check(want != 'leap', 'leap seconds are not representable')
    y, mo, d, h, mi, s, us, off = want
    api.check(api.and_(got.year == y, got.month == mo, got.day == d, got.hour == h, got.minute == mi,
                       got.second == s, got.microsecond == us), 'the fields of the text')
    o = got.utcoffset()
    if off is None:
        api.check(api.or_(o is None, not o), 'no offset')
    else:
        api.check(o is not None, 'the offset is kept')
        api.check((o.days * 86400 + o.seconds) == off * 60, 'the offset of the text')
    return got


def template(api, shape, fixed=()):
    """text of the shape with every digit and sign arbitrary"""
    out = []
    for i, c in enumerate(shape):
        if i in fixed:
            out.append(fixed[i])
        elif c == 'd':
            out.append(api.str('c%d' % i, 1, 48, 57))
        elif c == '?':
            out.append(api.choice('sign', ['+', '-']))
        else:
            out.append(c)
    return api.concat(*out)


@harness('J07', shards=product(name=['published'], shape=SHAPES) + [
             {'name': n, 'shape': 'dddd-dd-ddTdd:dd:dd?dd:dd'} for n in ('endTime', 'startTime', 'updated')],
         thorough=product(name=['published', 'endTime', 'startTime', 'updated'], shape=SHAPES),
         bounds='every text of 18 layouts (with and without seconds, 0, 1 or 6 fraction digits, all zone forms), '
                'all digits and signs arbitrary', modules=TMODS)
def h_parse(api, name, shape):
    obj = owner(name)
    text = template(api, shape)
    want = denoted(api, text, shape)
    got = check_parsed(api, obj, name, text, want, None)
    if got is None or shape[-1] != 'Z':
        return      # (datetimes with an offset are written in h_datetime)
    again = obj.data()[name]
    f = fields(api, again)
    api.check(f is not None, 'serialised as text')
    api.check(api.and_(*[a == b for a, b in zip(f, want)]), 'the same instant is written')


VALID = {'dddd-dd-ddTdd:dd:ddZ': '2024-02-29T23:59:58Z', 'dddd-dd-ddTdd:dd:dd?dd:dd': '2024-02-29T23:59:58-05:30',
         'dddd-dd-ddTdd:dd:dd.dddZ?dd:dd': '2024-02-29T23:59:58.125Z+05:30', 'dddd-dd-ddTdd:ddZ': '2024-02-29T23:59Z'}


@harness('J07', shards=product(shape=list(VALID), how=['replace', 'insert', 'delete']),
         bounds='every text that differs from a datetime in one character (any ASCII one)', modules=TMODS)
def h_malformed(api, shape, how):
    obj = owner('updated')
    text = VALID[shape]
    obj.updated = text
    before = obj.updated
    k = api.choice('at', list(range(len(text) + (how == 'insert'))))
    if how == 'delete':
        bad = text[:k] + text[k + 1:]
        if shape.endswith('dddZ?dd:dd') and (shape[k] == 'Z' or k in (20, 21, 22)):
            return          # still a datetime
    else:
        c = api.str('c', 1)
        old = shape[k] if how == 'replace' else ''
        if how == 'replace':
            if old == 'd':
                api.assume(api.not_(api.and_('0' <= c, c <= '9')))
            else:
                api.assume(c != old)
            if old == '?':
                api.assume(c != '+')
                api.assume(c != '-')
            if k == 16:
                api.assume(c != '.')
        elif '.' in shape and 20 <= k <= 23:
            api.assume(api.not_(api.and_('0' <= c, c <= '9')))
        elif '?' in shape and 'Z' not in shape and shape[k:k + 1] == '?':
            api.assume(c != 'Z')
        if 'Z?' in shape and shape[k:k + 1] == 'Z' and how == 'replace':
            api.assume(api.not_(api.and_('0' <= c, c <= '9')))
        bad = api.concat(text[:k], c, text[k + (how == 'replace'):])
    r = attempt(lambda: setattr(obj, 'updated', bad), ValueError)
    api.check(r[0] == 'exc', 'a malformed text is rejected')
    api.check(obj.updated is before, 'a rejected text changes nothing')


@harness('J07', shards=product(shape=list(VALID)),
         bounds='every text that differs from a datetime in one character that is not ASCII, in place of another or inserted',
         modules=TMODS)
def h_foreign(api, shape):
    obj = owner('updated')
    text = VALID[shape]
    obj.updated = text
    before = obj.updated
    insert = api.choice('insert', [False, True])
    k = api.choice('at', list(range(len(text) + insert)))
    c = api.str('c', 1, 0x80, 0x10ffff)
    r = attempt(lambda: setattr(obj, 'updated', api.concat(text[:k], c, text[k + (not insert):])), ValueError)
    api.check(r[0] == 'exc', 'a text with other than ASCII characters is rejected')
    api.check(obj.updated is before, 'a rejected text changes nothing')


@harness('J07', shards=product(kind=['int', 'float', 'bool', 'list', 'dict', 'text', 'none']),
         bounds='every number and short text', modules=TMODS)
def h_nodatetime(api, kind):
    obj = owner('startTime')
    obj.startTime = '2024-02-29T23:59:58Z'
    before = obj.startTime
    v = {'int': lambda: api.int('v'), 'float': lambda: api.real('v'), 'bool': lambda: api.bool('v'),
         'list': lambda: ['2024-02-29T23:59:58Z'], 'dict': dict, 'none': lambda: None,
         'text': lambda: api.str('v', api.choice('n', [0, 1, 2, 3]))}[kind]()
    r = attempt(lambda: setattr(obj, 'startTime', v), ValueError)
    if kind == 'none':
        api.check(r[0] == 'ok' and obj.startTime is None and 'startTime' not in obj.data(), 'cleared')
        return
    api.check(r[0] == 'exc', 'rejected')
    api.check(obj.startTime is before, 'a rejected value changes nothing')
