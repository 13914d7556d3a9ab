from harness.common import num

COVERS = ['timestamp', 'iso', 'iso micros', 'http', 'seconds', 'leap day', 'fraction', 'long fraction', 'no fraction', 'tz aware',
          'before 1970', 'other zone', 'micros zero', 'between forms']
BOUNDS = ('every date and time of the years 1900 to 2999 (ISO dates and HTTP dates: 1000 to 9999), every microsecond; naive, UTC and '
          'fixed-offset aware moments (these at 7 dates at the ends of months and years, any time of day); ISO fractions of 0 to 12 (thorough 24) arbitrary digits, with and without the Z')
OUTSIDE = 'years below 1000; ISO dates with a zone other than Z; HTTP dates not written by this library'
MON = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')
DAY = ('Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat')
START = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


DATES = ((1970, 1, 1), (1999, 12, 31), (2024, 2, 29), (2023, 3, 1), (1901, 7, 31), (2900, 2, 28), (2998, 12, 31))


def days_in(y, m):
    if m == 2:
        return 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def two(n):
    return str(n // 10) + str(n % 10)


def digits(n, k):
    out = ''
    for i in range(k):
        out = str(n % 10) + out
        n = n // 10
    return out


def moment(S, lo, hi, micros=False):
    f = [S.int('y', lo, hi), S.int('mo', 1, 12), S.int('d', 1, 31), S.int('h', 0, 23), S.int('mi', 0, 59), S.int('s', 0, 59)]
    S.assume(f[2] <= days_in(f[0], f[1]))
    if f[1] == 2 and f[2] == 29:
        S.cover('leap day')
    if f[0] < 1970:
        S.cover('before 1970')
    us = S.int('us', 0, 999999) if micros else 0
    return f, us


def from_text(S):
    """an arbitrary moment as 14 digits and as fields"""
    t = S.str('ts', 14, ranges=((48, 57),))
    f = []
    for a, b, lo, hi in ((0, 4, 1900, 2999), (4, 6, 1, 12), (6, 8, 1, 31), (8, 10, 0, 23), (10, 12, 0, 59), (12, 14, 0, 59)):
        n = 0
        for i in range(a, b):
            n = n * 10 + (ord(t[i]) - 48)
        S.assume(lo <= n <= hi)
        f.append(n)
    S.assume(f[2] <= days_in(f[0], f[1]))
    return t, f


def zone(z):
    from datetime import timezone, timedelta
    if z is None:
        return None
    if z == 0:
        return timezone.utc
    return timezone(timedelta(minutes=z))


def fields(dt):
    return [dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond]


def make(S, lo, hi, z, micros=False):
    """(datetime to format, its fields in UTC)"""
    from datetime import datetime, timedelta, timezone
    if z:
        # dates where the zone changes day, month and year; any time of day
        y, mo, d = DATES[S.pick('date', len(DATES))]
        f = [y, mo, d, S.int('h', 0, 23), S.int('mi', 0, 59), S.int('s', 0, 59)]
        us = S.int('us', 0, 999999)
    else:
        f, us = moment(S, lo, hi, micros)
    dt = datetime(f[0], f[1], f[2], f[3], f[4], f[5], us)
    if z is not None:
        if z:
            # the same moment told in another zone
            dt = (dt + timedelta(minutes=z)).replace(tzinfo=zone(z))
            S.cover('other zone')
        else:
            dt = dt.replace(tzinfo=timezone.utc)
            S.cover('tz aware')
    return dt, f, us


def want(f, us, n=7):
    return (list(f) + [us])[:n]


def check_tz(S, dt, aware):
    from datetime import timezone
    if aware:
        S.check(dt.tzinfo is timezone.utc, 'in UTC')
    else:
        S.check(dt.tzinfo is None, 'naive')


def ts14(f):
    return digits(f[0], 4) + ''.join([two(x) for x in f[1:]])


def iso(f):
    return digits(f[0], 4) + '-' + two(f[1]) + '-' + two(f[2]) + 'T' + two(f[3]) + ':' + two(f[4]) + ':' + two(f[5])


def timestamp(S, z):
    from warcio.timeutils import datetime_to_timestamp, timestamp_to_datetime
    dt, f, us = make(S, 1900 if not z else 1901, 2999 if not z else 2998, z, True)
    t = datetime_to_timestamp(dt)
    S.check_eq(t, ts14(f), 'the 14 digits of the moment')
    for aware in (False, True):
        back = timestamp_to_datetime(t, tz_aware=aware)
        S.check_eq(fields(back), want(f, 0), 'timestamp and back')
        check_tz(S, back, aware)
    S.cover('timestamp')
    S.observe('t', t)


def isodate(S, z, micros):
    from warcio.timeutils import datetime_to_iso_date, iso_date_to_datetime
    dt, f, us = make(S, 1000 if not z else 1001, 9999 if not z else 9998, z, True)
    t = datetime_to_iso_date(dt, use_micros=True) if micros else datetime_to_iso_date(dt)
    if micros:
        if us:
            S.check_eq(t, iso(f) + '.' + digits(us, 6) + 'Z', 'ISO date with microseconds')
        else:
            S.check(t == iso(f) + 'Z' or t == iso(f) + '.000000Z', 'ISO date without microseconds')
            S.cover('micros zero')
        S.cover('iso micros')
    else:
        S.check_eq(t, iso(f) + 'Z', 'ISO date')
        S.cover('iso')
    for aware in (False, True):
        back = iso_date_to_datetime(t, tz_aware=aware)
        S.check_eq(fields(back), want(f, us if micros else 0), 'ISO date and back')
        check_tz(S, back, aware)
    S.observe('t', t)


def httpdate(S, z):
    from warcio.timeutils import datetime_to_http_date, http_date_to_datetime
    dt, f, us = make(S, 1000 if not z else 1001, 9999 if not z else 9998, z, True)
    t = datetime_to_http_date(dt)
    mon = MON[f[1] - 1]
    S.check_eq(t[3:], ', ' + two(f[2]) + ' ' + mon + ' ' + digits(f[0], 4) + ' ' + two(f[3]) + ':' + two(f[4]) + ':' + two(f[5]) + ' GMT',
               'HTTP date')
    y1 = f[0] - 1
    late = 1 if f[1] > 2 and days_in(f[0], 2) == 29 else 0
    wd = (365 * y1 + y1 // 4 - y1 // 100 + y1 // 400 + START[f[1] - 1] + late + f[2]) % 7
    S.check_eq(t[:3], DAY[wd], 'day of the week')
    for aware in (False, True):
        back = http_date_to_datetime(t, tz_aware=aware)
        S.check_eq(fields(back), want(f, 0), 'HTTP date and back')
        check_tz(S, back, aware)
    S.cover('http')
    S.observe('t', t)


def seconds(S, way):
    from warcio.timeutils import sec_to_timestamp, timestamp_to_sec
    from datetime import datetime
    t, f = from_text(S)
    n = timestamp_to_sec(t)
    # days and seconds since 1970, counted another way
    y = f[0] - (1 if f[1] < 3 else 0)
    m = f[1] + (12 if f[1] < 3 else 0)
    days = 365 * y + y // 4 - y // 100 + y // 400 + (153 * (m - 3) + 2) // 5 + f[2] - 719469
    S.check_eq(n, days * 86400 + f[3] * 3600 + f[4] * 60 + f[5], 'seconds since 1970')
    S.check_eq(sec_to_timestamp(n), t, 'seconds and back')
    S.cover('seconds')
    S.observe('n', n)


def from_seconds(S):
    from warcio.timeutils import sec_to_timestamp, timestamp_to_sec
    n = S.int('n', -2208988800, 32503679999)
    t = sec_to_timestamp(n)
    S.check_eq(len(t), 14, '14 digits')
    S.check_eq(timestamp_to_sec(t), n, 'timestamp and back')
    S.cover('seconds')
    S.observe('t', t)


def between(S, way):
    import warcio.timeutils as U
    from datetime import datetime
    t, f = from_text(S)
    us = S.int('us', 0, 999999)
    dt = datetime(f[0], f[1], f[2], f[3], f[4], f[5], us)
    if way == 'iso_ts':
        S.check_eq(U.iso_date_to_timestamp(U.datetime_to_iso_date(dt)), t, 'ISO date to timestamp')
        S.check_eq(U.iso_date_to_timestamp(U.datetime_to_iso_date(dt, use_micros=True)), t, 'ISO date with micros to timestamp')
    elif way == 'ts_iso':
        S.check_eq(U.timestamp_to_iso_date(t), iso(f) + 'Z', 'timestamp to ISO date')
    elif way == 'http_ts':
        S.check_eq(U.http_date_to_timestamp(U.datetime_to_http_date(dt)), t, 'HTTP date to timestamp')
    elif way == 'ts_http':
        S.check_eq(U.timestamp_to_http_date(t), U.datetime_to_http_date(dt), 'timestamp to HTTP date')
    S.cover('between forms')


def fraction(S, k, z, aware):
    from warcio.timeutils import iso_date_to_datetime
    f, us = moment(S, 1000, 9999)
    frac = S.str('frac', k, ranges=((48, 57),))
    t = iso(f) + ('.' + frac if k else '') + z
    want_us = 0
    for i in range(6):
        want_us = want_us * 10 + (ord(frac[i]) - 48 if i < k else 0)
    back = iso_date_to_datetime(t, tz_aware=bool(aware))
    S.check_eq(fields(back), want(f, want_us), 'fraction truncated to microseconds')
    check_tz(S, back, aware)
    S.cover('fraction' if 0 < k <= 6 else 'long fraction' if k else 'no fraction')


def jobs(tier):
    q = tier == 'quick'
    zones = (None, 0, 330, -480) if q else (None, 0, 330, -480, 840, -720, 60, -1, 1439)
    out = []
    for z in zones:
        out.append(('timestamp', dict(z=z)))
        out += [('isodate', dict(z=z, micros=m)) for m in (0, 1)]
        if z != 0 or not q:
            out.append(('httpdate', dict(z=z)))
    out.append(('seconds', dict(way=0)))
    out.append(('from_seconds', {}))
    out += [('between', dict(way=w)) for w in ('iso_ts', 'ts_iso', 'http_ts', 'ts_http')]
    for k in range(0, 13 if q else 25):
        for z in ('Z', ''):
            for a in (0, 1):
                out.append(('fraction', dict(k=k, z=z, aware=a)))
    return out
