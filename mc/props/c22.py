"""Every combination of process time zone x field zone x kind of input x instant: the text written,
the instants and zones of the values returned, inclusive bounds compared as instants, and bounds
surviving description and reconstruction, compared with the zoneinfo database.  Scheme is imported
afresh under each zone."""

import copy
import datetime
import os
import pickle
import time
import zoneinfo

from mc import ref
from mc.core import Violation, load_scheme
from mc.spec import Fixed

UTC = datetime.timezone.utc
SECOND, HOUR = datetime.timedelta(seconds=1), datetime.timedelta(hours=1)

ZONES = ['UTC', 'Etc/GMT+5', 'Etc/GMT-13', 'Asia/Kolkata', 'Asia/Kathmandu', 'America/New_York',
    'America/St_Johns', 'Europe/London', 'Europe/Dublin', 'Europe/Moscow', 'Africa/Casablanca',
    'Australia/Sydney', 'Australia/Lord_Howe', 'America/Santiago', 'Pacific/Apia',
    'America/Caracas']
MORE = ['Asia/Tehran', 'Asia/Pyongyang', 'Europe/Istanbul', 'America/Sao_Paulo', 'Pacific/Chatham',
    'Antarctica/Troll', 'Africa/Monrovia', 'America/Havana', 'Asia/Gaza', 'Europe/Lisbon',
    'Pacific/Kiritimati', 'Asia/Tokyo', 'America/Los_Angeles', 'Europe/Paris', 'Pacific/Auckland']

# databases differ in whether these zones are on daylight saving in summer or in winter
NEGATIVE = ('Africa/Casablanca', 'Europe/Dublin')

BOUNDS = {
    'quick': '16 zones (fixed, fractional, northern, southern and negative daylight saving, zones'
        ' whose offset changed) x every fifth hour of 2023, every change of offset between 1900 and'
        ' 2100 at 3 distances (12 for 1995-2030), the ends of 16 years from 1 to 9999 x 6 kinds of input x 2 field zones;'
        ' bounds at -1, 0 and +1 second given as text, naive and aware',
    'thorough': '31 zones x every quarter hour of 2023 and every hour of 2011 and 2040, every change'
        ' of offset at 12 distances, and as quick',
}
ASSUMPTIONS = (
    'the zoneinfo database agrees with the time zone files of the C library',
    'bounds are whole seconds, the precision of descriptions',
    'wall-clock times repeated or skipped in the local zone are only required not to fail otherwise'
    ' than with a validation error',
)
PRELOAD = False

def cases(tier):
    thorough = tier != 'quick'
    for zone in ZONES + (MORE if thorough else []):
        for month in ((1, 2, 3), (4, 5, 6), (7, 8, 9), (10, 11, 12)) if thorough else \
                (tuple(range(1, 13)),):
            yield ('year', zone, 2023, month, 15 if thorough else 300)
            if thorough:
                yield ('year', zone, 2011, month, 60)
                yield ('year', zone, 2040, month, 60)
        yield ('changes', zone, thorough)
        yield ('ends', zone, thorough)
        yield ('now', zone)
        yield ('local', zone, thorough)
    for minutes in range(-1439, 1440, 120):
        yield ('fixed', 'UTC', minutes, min(minutes + 120, 1440))

class Local(object):
    """The local zone, by zoneinfo."""
    def __init__(self, name):
        self.zone = zoneinfo.ZoneInfo(name)

    def instants(self, naive):
        """Every instant at which the wall clock showed ``naive``."""
        found = set()
        for fold in (0, 1):
            offset = naive.replace(tzinfo=self.zone, fold=fold).utcoffset()
            try:
                instant = (naive - offset).replace(tzinfo=UTC)
            except OverflowError:
                found.add(None)
                continue
            if self.wall(instant) == naive:
                found.add(instant)
        return found

    def wall(self, instant):
        """The wall clock at ``instant``, None when it can't be represented."""
        try:
            return instant.astimezone(self.zone).replace(tzinfo=None, fold=0)
        except OverflowError:
            return None

    def plain(self, instant):
        """Whether the wall clock shows ``instant`` only then."""
        wall = self.wall(instant)
        return wall is not None and self.instants(wall) == set([instant])

    def changes(self):
        """Instants within 1900-2100 at which the offset changes."""
        moment = datetime.datetime(1900, 1, 1, tzinfo=UTC)
        offset = moment.astimezone(self.zone).utcoffset()
        while moment.year < 2101:
            later = moment + 24 * HOUR * 7
            found = later.astimezone(self.zone).utcoffset()
            if found != offset:
                low, high = moment, later
                while high - low > SECOND:
                    middle = low + datetime.timedelta(seconds=(high - low).total_seconds() // 2)
                    if middle.astimezone(self.zone).utcoffset() == offset:
                        low = middle
                    else:
                        high = middle
                yield high
            moment, offset = later, found

def show(instant):
    return '%sT%sZ' % (ref.show_date(instant), ref.show_time(instant))

def describe(value):
    return 'an error' if isinstance(value, Exception) else repr(value)

class Checker(object):
    def __init__(self, zone, scheme, st):
        self.name, self.local, self.scheme, self.st = zone, Local(zone), scheme, st
        self.fields = dict((utc, scheme.DateTime(utc=utc, name='when')) for utc in (False, True))

    def fail(self, message, *args):
        self.st.violate('in zone %s: %s' % (self.name, message % args))

    def call(self, function, *args):
        from scheme.exceptions import ValidationError
        self.st.step()
        try:
            return function(*args)
        except ValidationError as exception:
            return exception

    def token(self, result):
        if isinstance(result, Exception):
            return [e['token'] for e in result.errors]

    def returned(self, utc, instant, result, what):
        """Checks a value given back by a field for ``instant``."""
        if isinstance(result, Exception):
            return self.fail('%s was refused: %r', what, result.errors)
        if not isinstance(result, datetime.datetime) or result.tzinfo is None:
            return self.fail('%s gave %r', what, result)
        wall = instant.replace(tzinfo=None) if utc else self.local.wall(instant)
        if result.replace(tzinfo=None) != wall or \
                ref.instant(result, True) != instant:
            self.fail('%s gave %r (offset %s), expected %s which is %s', what, result,
                result.utcoffset(), wall, instant)

    def check(self, instant, detailed=False):
        """Every kind of input denoting ``instant``."""
        scheme, local = self.scheme, self.local
        wall = local.wall(instant)
        plain = wall is not None and local.instants(wall) == set([instant])
        text = show(instant)
        self.st.state(self.name, instant)
        for utc, field in self.fields.items():
            representable = utc or wall is not None
            exact = utc or plain
            inputs = [('text', text, True), ('UTC', instant.replace(tzinfo=scheme.UTC), False),
                ('utc', instant, False)]
            for minutes in (330, -300):
                try:
                    inputs.append(('offset', instant.astimezone(Fixed(minutes)), False))
                except OverflowError:
                    pass
            if utc:
                inputs.append(('naive', instant.replace(tzinfo=None), False))
            elif wall is not None:
                inputs.append(('naive', wall, False))
            if wall is not None:
                inputs.append(('LOCAL', wall.replace(tzinfo=scheme.LOCAL), False))
            for kind, value, serialized in inputs:
                what = 'process(%r) of a %s field' % (value, 'utc' if utc else 'local')
                known = exact and not (kind == 'LOCAL' and not plain)
                if kind == 'text' and instant.microsecond:
                    continue
                results = [self.call(field.process, value, 'inbound', serialized)]
                if not serialized:
                    results.append(self.call(field.process, value, 'inbound', True))
                    results.append(self.call(field.process, value, 'outbound', False))
                for result in results:
                    if not representable:
                        if self.token(result) != ['overflow']:
                            self.fail('%s gave %s, expected an overflow error', what,
                                describe(result))
                    elif known:
                        self.returned(utc, instant, result, what)
                    elif not isinstance(result, (datetime.datetime, Exception)):
                        self.fail('%s gave %r', what, result)
                if not serialized and representable:
                    result = self.call(field.process, value, 'outbound', True)
                    if known and result != text:
                        self.fail('%s writes %s, expected %s', what, describe(result), text)
                if serialized and known and representable and \
                        self.call(field.serialize, results[0]) != text:
                    self.fail('%r read by %s is written as %s', text, what,
                        describe(self.call(field.serialize, results[0])))
            self.st.trace('exact' if exact else 'wall clock repeated')
        if detailed and not instant.microsecond:
            self.bounds(instant, wall, plain)

    def bounds(self, instant, wall, plain):
        scheme = self.scheme
        for utc in (False, True):
            if not utc and not plain:
                continue
            kinds = [show(instant), instant]
            kinds.append(instant.replace(tzinfo=None) if utc else wall)
            if plain:
                kinds.append(wall.replace(tzinfo=scheme.LOCAL))
            for bound in kinds:
                low = scheme.DateTime(minimum=bound, utc=utc, name='low')
                high = scheme.DateTime(maximum=bound, utc=utc, name='high')
                copies = []
                for field in (low, high):
                    described = field.describe()
                    key = 'minimum' if field is low else 'maximum'
                    if described.get(key) != show(instant):
                        self.fail('%s %r is described as %r, expected %s', key, bound,
                            described.get(key), show(instant))
                    copies.append(scheme.Field.reconstruct(described))
                    if field.describe() != copies[-1].describe():
                        self.fail('%s %r: reconstructed as %r', key, bound, copies[-1].describe())
                for delta in (-SECOND, -SECOND / 1000000, datetime.timedelta(0),
                        SECOND / 1000000, SECOND):
                    try:
                        moved = instant + delta
                    except OverflowError:
                        continue
                    forms = [moved, moved.replace(tzinfo=scheme.UTC)]
                    if utc:
                        forms.append(moved.replace(tzinfo=None))
                    else:
                        if not self.local.plain(moved):
                            continue
                        forms.append(self.local.wall(moved))
                    for field, allowed, token in ((low, delta >= 0 * SECOND, 'minimum'),
                            (high, delta <= 0 * SECOND, 'maximum'),
                            (copies[0], delta >= 0 * SECOND, 'minimum'),
                            (copies[1], delta <= 0 * SECOND, 'maximum')):
                        for value in forms:
                            result = self.call(field.process, value)
                            what = 'process(%r) with %s %r (utc=%r)' % (value, token, bound, utc)
                            if allowed:
                                self.returned(utc, moved, result, what)
                            elif self.token(result) != [token]:
                                self.fail('%s gave %s, expected the %s error', what,
                                    describe(result), token)
                            elif show(instant) not in result.errors[0]['message']:
                                self.fail('%s: message %r', what, result.errors[0]['message'])

    def skipped(self, wall):
        """A wall clock time which never was."""
        for value in (wall, wall.replace(tzinfo=self.scheme.LOCAL)):
            for field in self.fields.values():
                for phase, serialized in (('inbound', False), ('inbound', True),
                        ('outbound', True)):
                    self.call(field.process, value, phase, serialized)

def run(case, st):
    kind, zone = case[:2]
    before = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        explore(kind, zone, case, Checker(zone, load_scheme(fresh=True), st), st)
    finally:
        if before is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = before
        time.tzset()

DISTANCES = [0, 1, -1, 1799, 1800, -1800, 3599, 3600, -3600, 7200, -7200, 86400]

def explore(kind, zone, case, checker, st):
    if kind == 'year':
        year, month, minutes = case[2:]
        moment = datetime.datetime(year, month[0], 1, tzinfo=UTC)
        i = 0
        while moment.month in month and moment.year == year:
            checker.check(moment, detailed=i % 37 == 0)
            i += 1
            moment += datetime.timedelta(minutes=minutes)
        st.sample('%s: %d instants of %d, months %r' % (zone, i, year, month))
    elif kind == 'changes':
        for i, change in enumerate(checker.local.changes()):
            distances = DISTANCES
            if not case[2] and not 1995 <= change.year <= 2030:
                distances = DISTANCES[:6:2]
            for distance in distances:
                checker.check(change + distance * SECOND,
                    detailed=distance in ((0, -1, 3600) if case[2] else (-1, -3600)))
            before = (change - SECOND).astimezone(checker.local.zone).utcoffset()
            for distance in (-HOUR, -SECOND, 0 * SECOND, SECOND, HOUR):
                checker.skipped((change + before + distance).replace(tzinfo=None))
    elif kind == 'ends':
        for year in (1, 2, 999, 1000, 1582, 1883, 1900, 1901, 1969, 1970, 1999, 2000, 2037, 2038,
                2100, 9998, 9999):
            for month, day, hour in ((1, 1, 0), (1, 1, 13), (2, 28, 23), (3, 1, 0), (7, 4, 12),
                    (12, 31, 12), (12, 31, 23)):
                for minute, micro in ((0, 0), (59, 999999)):
                    moment = datetime.datetime(year, month, day, hour, minute, 59 if micro else 0,
                        micro, tzinfo=UTC)
                    checker.check(moment)
                    checker.check(moment.replace(microsecond=0),
                        detailed=case[2] or hour == 23)
        # the last second before the epoch is how the C library reports failure
        for seconds in (-2, -1, 0, 1):
            moment = datetime.datetime(1970, 1, 1, tzinfo=UTC) + seconds * SECOND
            checker.check(moment, detailed=True)
            for instant in checker.local.instants(moment.replace(tzinfo=None)):
                checker.check(instant, detailed=True)
        edges(checker)
    elif kind == 'fixed':
        for minutes in range(*case[2:]):
            fixed(checker, minutes)
    elif kind == 'local':
        local(checker, case[2])
    else:
        before = datetime.datetime.now(UTC)
        stamps = [checker.scheme.current_timestamp(), checker.scheme.current_timestamp(
            checker.scheme.LOCAL), checker.scheme.current_timestamp(checker.scheme.UTC)]
        after = datetime.datetime.now(UTC)
        st.step()
        st.trace('now')
        for i, stamp in enumerate(stamps):
            if i == 1 and not checker.local.plain(before.replace(microsecond=0)):
                continue
            if not before <= ref.instant(stamp, True) <= after:
                checker.fail('current_timestamp() %d gave %r at %r', i, stamp, before)

def edges(checker):
    """Wall clock times whose instant no datetime can hold."""
    for wall in (datetime.datetime.min, datetime.datetime.max, datetime.datetime(1, 1, 1, 5),
            datetime.datetime(9999, 12, 31, 20)):
        for instant in checker.local.instants(wall):
            field = checker.fields[False]
            for value in (wall, wall.replace(tzinfo=checker.scheme.LOCAL)):
                result = checker.call(field.process, value, 'outbound', True)
                if instant is None:
                    if checker.token(result) != ['overflow']:
                        checker.fail('writing %r gave %s, expected an overflow error', value,
                            describe(result))
                elif result != show(instant):
                    checker.fail('writing %r gave %s, expected %s', value, describe(result),
                        show(instant))

def duplicates(zone):
    yield zone
    yield copy.copy(zone)
    yield copy.deepcopy(zone)
    for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
        yield pickle.loads(pickle.dumps(zone, protocol))

def fixed(checker, minutes):
    """A zone at a fixed offset, and every copy of it."""
    from scheme.timezone import FixedOffsetTimezone
    offset = datetime.timedelta(minutes=minutes)
    sign, size = '-' if minutes < 0 else '+', abs(minutes)
    name = '%s%02d' % (sign, size // 60)
    if size % 60:
        name += ':%02d' % (size % 60)
    checker.st.state('fixed', minutes)
    for given, expected in ((None, name), ('XYZ', 'XYZ')):
        for zone in duplicates(FixedOffsetTimezone(minutes, given)):
            checker.st.step()
            for wall in (datetime.datetime(2020, 2, 29, 12, 30, 15, 7),
                    datetime.datetime(1900, 1, 3), datetime.datetime(9990, 12, 31, 23)):
                value = wall.replace(tzinfo=zone)
                instant = (wall - offset).replace(tzinfo=UTC)
                found = (value.utcoffset(), value.dst(), value.tzname(), ref.instant(value, True),
                    instant.astimezone(zone).replace(tzinfo=None),
                    value.astimezone(UTC), value == instant)
                if found != (offset, datetime.timedelta(0), expected, instant, wall, instant, True):
                    checker.fail('%r in a zone at %d minutes named %r: (offset, dst, name, instant,'
                        ' wall clock, UTC, equal) are %r', wall, minutes, given, found)
                result = checker.call(checker.fields[True].process, value, 'outbound', True)
                if wall.microsecond == 0 and result != show(instant):
                    checker.fail('%r at %d minutes is written %r', wall, minutes, result)
                checker.st.trace('fixed offset')
            shown = repr(zone)
            if given is None:
                if shown != 'FixedOffsetTimezone(%d)' % minutes:
                    checker.fail('the zone at %d minutes is shown as %r', minutes, shown)
            elif shown != given:
                checker.fail('the zone named %r is shown as %r', given, shown)

def local(checker, thorough):
    """What the local zone says of itself through 2023, and of wall clock times at each change."""
    zones = list(duplicates(checker.scheme.LOCAL))
    moments = [datetime.datetime(2023, 1, 1, 0, 30, 7, tzinfo=UTC)]
    while moments[-1].year == 2023:
        moments.append(moments[-1] + (1 if thorough else 7) * HOUR)
    for change in checker.local.changes():
        moments.extend(change + distance * SECOND for distance in DISTANCES)
    for moment in moments:
        expected = moment.astimezone(checker.local.zone)
        wall = expected.replace(tzinfo=None, fold=0)
        checker.st.state(checker.name, 'local', moment)
        for zone in zones:
            checker.st.step()
            found = [moment.astimezone(zone).replace(tzinfo=None)]
            wanted = [wall]
            if checker.local.plain(moment):
                value = wall.replace(tzinfo=zone)
                found += [value.utcoffset(), value.tzname(), value.astimezone(UTC)]
                wanted += [expected.utcoffset(), expected.tzname(), moment]
                if checker.name not in NEGATIVE and moment.year == 2023:
                    found.append(value.dst())
                    wanted.append(expected.dst())
            if found != wanted:
                checker.fail('at %s the local zone says %r, expected %r', moment, found, wanted)
            checker.st.trace('local zone')
    if repr(checker.scheme.LOCAL) != 'LocalTimezone()':
        checker.fail('LOCAL is shown as %r', checker.scheme.LOCAL)
