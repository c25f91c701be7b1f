#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when a property changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F, CAL, RD, WR, FC, DC = 'src/dtfund.hpp', 'src/dtcalendar.hpp', 'src/datetime_read.hpp', 'src/datetime_write.hpp', 'src/dtfund.cpp', 'src/dat.cpp'
P = []


def p(id, title, statement, qtext, why, files, mech, over=('inputs',)):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': qtext},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


p('C01', 'Calendar date to MJD is an exact day count',
  'Every valid proleptic-Gregorian date converts to the Modified Julian Day that counts the days since 1858-11-17 (MJD 0). Consecutive dates have consecutive MJDs, across month, leap-year, century and 400-year boundaries, whichever way of building a day from year, month and day is used.',
  'every year from -4799 to the largest int, every month, every valid day',
  'The tests compare a handful of dates, mostly between 1980 and 2020; an error at a century or far from today is not sampled.',
  [FC, F], [('integer date algorithm', 'dtfund.cpp cal2mjd'), ('modified_julian_day(year, month, day_of_month)', 'dtfund.hpp')])
p('C02', 'Invalid calendar dates are always rejected, valid ones never',
  'Building a day or a datetime from a year, month and day of month throws std::out_of_range exactly when the month is not 1..12 or the day does not exist in that month of that (Gregorian) year. The exception reaches the caller from every constructor; no valid date is refused.',
  'every int month and day, every year from -4800 up, every datetime constructor taking a calendar date',
  'Tests try single invalid dates on one path; the quantifier is over all triples and all constructors (one of which used to terminate the program).',
  [FC, F, CAL], [('range checks', 'dtfund.cpp cal2mjd'), ('constructors', 'dtcalendar.hpp datetime::datetime')])
p('C03', 'MJD to calendar date is the exact inverse',
  'Every MJD converts to a valid calendar date whose MJD it is, so that converting there and back is the identity. The date a datetime reports is the date of its day.',
  'every MJD of the years 0..2e9 (thorough: from -2431000 to 3e9 without appeal to the 400-year period)',
  'Round-trip tests walk over a few dates; the algorithm has several integer divisions whose errors show only on particular days of particular years.',
  [F, FC, CAL], [('modified_julian_day::to_ymd', 'dtfund.cpp'), ('datetime::as_ymd', 'dtcalendar.hpp')])
p('C04', 'Day-of-year conversions agree with the calendar in every year',
  'A year and day of year convert to the MJD of that day, and an MJD converts back to the year and day of year it came from. Converting between calendar dates and year/day-of-year pairs keeps the year and adds up exactly the lengths of the months before, in leap and common years.',
  'every year in the int range (years 0..9999 in the direction from an MJD in the quick tier), every valid day of the year, month and day',
  'The tests stay within 1901..2099, where a simpler rule also works (the original code was wrong outside).',
  [F, FC, CAL], [('ydoy2mjd, to_ydoy, to_ymd', 'dtfund.hpp, dtfund.cpp'), ('datetime::as_ydoy', 'dtcalendar.hpp')])
p('C05', 'Leap-year rule and validity predicates are exact',
  'A year is reported leap exactly when the Gregorian rule says so. Months, days of month, days of year, calendar dates, year/day-of-year dates and GPS weeks report themselves valid exactly when they exist.',
  'every int (long) value of every field, in every combination',
  'Predicates are tested on a few values; off-by-one and sign errors at the edges, and the negative years, are not.',
  [F, FC], [('is_leap, is_valid', 'dtfund.hpp, dtfund.cpp')])
p('C06', 'TAI-UTC is the IERS leap-second table',
  'The TAI-UTC difference is the value of the IERS table, from 10 s in 1972 to 37 s since 2017, changing only at the start of a January 1st or July 1st on which a leap second had been inserted. Asking by year and month, by MJD or with a datetime gives the same answer for the same day.',
  'every month and every day from 1972-01-01 on (years to 1e8)',
  'The tests look up a few dates; a wrong boundary is visible on a single day or month only.',
  [DC, F, CAL], [('leap second tables and search', 'dat.cpp'), ('dat(datetime)', 'dtcalendar.hpp')])
p('C07', 'Every construction denotes the right instant, normalised',
  'However a datetime is built (from an MJD, a calendar date or a day of year; with seconds, milliseconds, microseconds, hours and minutes, or none), it denotes the day plus exactly the given amount of time. The time of day ends up in [0, 1 day) with the excess or deficit, negative amounts included, carried into the day.',
  'all days with |MJD| <= 1e15, any amount of seconds, hours and minutes within the stated bounds, all resolutions and constructors',
  'Unit tests build a few datetimes, usually already within the day; carries, multi-day and negative amounts in each constructor and resolution are not covered.',
  [CAL, F], [('constructors and normalize', 'dtcalendar.hpp datetime')])
p('C08', 'Adding and removing time is exact and reversible',
  'Adding or removing any amount of time, at the resolution of the datetime or a coarser one, moves the datetime by exactly that amount and leaves it normalised, across any number of day boundaries and for negative amounts. Removing what was added restores the datetime; when the amount is of a finer resolution, less than one unit of the datetime is lost, and nothing when the amount is a whole number of units.',
  '|MJD| <= 1e15, any time of day, any amount up to 4e18 units, every pair of resolutions',
  'Tests add some seconds around midnight for a few thousand steps; large, negative and mixed-resolution amounts are not sampled.',
  [CAL, F], [('add_seconds, remove_seconds, add, normalize', 'dtcalendar.hpp')])
p('C09', 'Differences of datetimes are exact and antisymmetric',
  'The difference of two datetimes in seconds (of their resolution, or of the finer one when they differ) is exact and changes sign when they are swapped. Their difference as an interval has whole days and a remainder in [0, 1 day); adding either difference back to the second datetime gives the first.',
  'every pair of datetimes whose difference fits the type, every pair of resolutions',
  'Tests use a few pairs, in one order, on neighbouring days.',
  [CAL, F], [('delta_sec, delta_date, mjd_sec_diff', 'dtcalendar.hpp, dtfund.hpp'), ('datetime_interval', 'dtcalendar.hpp')])
p('C10', 'Comparisons order datetimes and intervals as instants',
  'Each of the six comparison operators on datetimes and on intervals agrees with the order of the instants (durations) they denote. A datetime is earlier than another exactly when their difference is negative, and equal exactly when it is zero.',
  'every pair with |MJD| <= 1e15 and any times of day, at every resolution',
  'Six operators on two classes over pairs whose days and times of day compare in opposite ways; tests try only some pairs on some operators.',
  [CAL], [('comparison operators', 'dtcalendar.hpp datetime, datetime_interval')])
p('C11', 'Fundamental types do exact integer arithmetic and comparison',
  'Years, months, days, day-of-year, hours, minutes, weeks, MJDs and the three kinds of seconds keep the value they are given and compare by it. Increment, decrement, += and -= (with the type itself or an integer), binary + and -, assignment and the literals give exactly the integer result and leave the other operand alone.',
  'every pair of values of each type whose result fits',
  'The operators are generated by shared templates and hand-written copies for eleven types; tests exercise few of them with few values.',
  [F], [('template operators over fundamental types', 'dtfund.hpp')])
p('C12', 'Unit conversions are exact to the resolution of the target',
  'Casting seconds, milliseconds and microseconds (and datetimes) into each other scales by the ratio of the units: to a finer unit exactly and reversibly, to a coarser one dropping only the fraction of a unit. Splitting a time into hours, minutes, seconds and fraction, or into whole days and a rest, gives components in range that add up to it.',
  'every value whose result fits the type, all pairs of units',
  'Tests cast a few small values; overflow for long times and rounding of particular values are not visible there.',
  [F, CAL], [('cast_to, explicit conversions, to_hmsf, to_days, remove_days', 'dtfund.hpp'), ('datetime::cast_to', 'dtcalendar.hpp')])
p('C13', 'GPS week and seconds of week round-trip with datetimes',
  'A GPS week and seconds of week denote the instant that many weeks and seconds after 1980-01-06 00:00, whole days in the seconds going to the day. Converting a datetime to week and seconds of week gives a week count and a second within the week from which the datetime is restored exactly, and the day of week counts from Sunday.',
  'weeks -1e6..1e9, any second within the week or beyond, at every resolution; all days to MJD 7e7 either way',
  'The tests check some weeks; the end of a week, sub-second resolutions and overlong seconds are not sampled.',
  [CAL, F], [('datetime(gps_week, S), as_gps_wsow', 'dtcalendar.hpp'), ('day_of_week', 'dtfund.hpp')])
p('C14', 'Limits are what they claim to be',
  'The stated largest number of days whose difference in units can be represented is the largest such number, and differences up to it are exact. The minimum and maximum day bound every other day; the minimum and maximum datetime are the midnights that begin them.',
  'every day difference up to the stated maximum and every MJD, at every resolution',
  'Extreme values are where arithmetic overflows; tests do not go there.',
  [F, CAL], [('max_days_allowed, mjd_sec_diff, min, max', 'dtfund.hpp, dtcalendar.hpp')])
p('C15', 'Floating-point views of a time denote it to double precision',
  'The fraction of a day, the fractional seconds, the Julian date and the fractional MJD of a time are within rounding of its exact value, and the fraction of a time of day is in [0,1). Datetimes and intervals agree on them.',
  'every time of day at every resolution, longer and negative times to 1e15 units; MJDs to 1e8 for Julian dates, to 1e12 for the fractional MJD',
  'Rounding depends on each of up to 8.64e10 values of the time of day.',
  [F, CAL], [('fractional_days, to_fractional_seconds, resolve_sec, to_julian_day', 'dtfund.hpp'), ('as_mjd', 'dtcalendar.hpp')])
p('C16', 'Dividing an interval is exact to one unit',
  'Dividing an interval by a non-zero integer of either sign gives a normalised interval within one unit of the exact quotient. Dividing a multiple of the divisor is exact.',
  'every divisor, all intervals',
  'Tests divide one interval; the error of the original code was one unit for some values only.',
  [CAL], [('datetime_interval::operator/', 'dtcalendar.hpp')])
p('C17', 'Seconds given as a decimal fraction keep their units',
  'A time built from hours, minutes and fractional seconds (alone or in a datetime) has exactly the units that the decimal denotes when the decimal has no more digits than the resolution. Any finer fraction is cut, so that less than one unit is lost.',
  'every number of units of a day at each resolution, of either sign; nanosecond decimals to 100 s',
  'Whether a decimal survives the multiplication by 1000 or 1000000 depends on its binary rounding; about one in ten values did not.',
  [F, CAL], [('constructors from double', 'dtfund.hpp milliseconds, microseconds, seconds; dtcalendar.hpp datetime')])
p('C18', 'Month names are read and written exactly',
  'A month can be built from its 3-letter or full English name in any mix of upper and lower case and from nothing else: any other string throws std::invalid_argument. The short and long names of each month are the English ones and give the month back.',
  'every byte string of up to 11 characters (24 in the thorough tier)',
  'Tests try a few names; prefixes, longer strings and arbitrary bytes are unlimited.',
  [FC, F], [('month(const char*), short_name, long_name', 'dtfund.cpp')])
p('C19', 'Well-formed date strings are read as the instant they denote',
  'Reading a well-formed date (year, month number or name, day; or year and day of year), optionally followed by a time, gives exactly the instant written, at every resolution, for any delimiters, any field widths and whatever follows the text or happened before. The reported stop position is the last character interpreted.',
  'years 0..99999, all months, days and times, five shapes of field widths, any delimiter and tail bytes, decimals of seconds to 6 digits (12 in the thorough tier), errno initially anything',
  'Tests parse a few strings with one delimiter; fields with leading zeros, other widths and delimiters, decimals and the stop position are not covered.',
  [RD], [('strptime_ymd, strptime_ydoy, strptime_*_hms', 'datetime_read.hpp')])
p('C20', 'Malformed date strings are rejected without reading past the end',
  'A string in which a field is missing, unreadable, does not fit its type or is not finite is rejected with std::invalid_argument, and one that names an impossible calendar date with an exception; a readable one is accepted. No string, of any content and length, makes the reader access memory outside it or do anything else.',
  'every proper prefix and every one-byte edit of well-formed strings, every byte string of a few characters, numbers of up to 20 digits',
  'The space of malformed strings is unbounded; memory errors past the terminator are invisible to tests without instrumentation.',
  [RD, FC], [('strptime_ymd, strptime_ydoy, strptime_*_hms', 'datetime_read.hpp'), ('cal2mjd', 'dtfund.cpp')])
p('C21', 'Formatted text shows exactly the instant',
  'Formatting a datetime as text writes its calendar date, hours, minutes and seconds, zero-padded to YYYY-MM-DD HH:MM:SS with the chosen delimiter in the formats that have fixed fields. The formats with fractional seconds show the seconds with every decimal of the resolution, rounding nothing away.',
  'every date of the years 1000..99999 and every unit of a day, at every resolution, any delimiter',
  'Tests print a few datetimes without comparing the text; the decimals depend on rounding of each of 8.64e10 values.',
  [WR, CAL], [('strftime_ymd_hms, strftime_ymd_hmfs', 'datetime_write.hpp'), ('datetime::stringify', 'dtcalendar.hpp')])
p('C22', 'Mixing up units or kinds of field does not compile',
  'Expressions that combine different kinds of field (a month with a year, a day of month with a day of year) or silently lose resolution are rejected at compile time. Every such expression stays an error.',
  'every expression over the fundamental types',
  'Tests compile some 25 erroneous statements.',
  [F, CAL], [('explicit constructors, enable_if', 'dtfund.hpp, dtcalendar.hpp')], over=('programs',))

p('C23', 'Results depend on the arguments alone',
  'Every conversion, validity query, leap-second query, calculation, comparison, reading and writing of text gives the same result (or the same exception) for the same arguments, whatever calls were made before it, and leaves the objects it only reads unchanged.',
  'every pair of calls, each with any arguments, before the call that is repeated',
  'Tests call each function a few times in one fixed order; a remembered result, a kept stream or a moved cursor shows only after particular earlier calls.',
  [F, FC, CAL, RD, WR], [('all conversions and queries', 'dtfund.cpp, dat.cpp, dtcalendar.hpp'), ('strptime_*', 'datetime_read.hpp'), ('strftime_*', 'datetime_write.hpp')], over=('histories',))

NOTE = ('Bounded: an SMT verdict (z3/cvc5) over all inputs within the bounds of the evidence file, on LLVM IR generated from /repo at each run. '
        'Trusts clang -O0 code generation, the IR executor in engine/ (checked on concrete inputs against the natively compiled code at each run)%s and the solvers.')
EXTRA = {'C18': ', models of the libc string functions (models/libc.cpp)', 'C19': ', models of strtol, strtod and ctype (models/libc.cpp)',
         'C20': ', models of strtol, strtod and ctype (models/libc.cpp)', 'C21': ', a stand-in for the stream headers (models/mock)', 'C23': ', models of libc functions and a stand-in for the stream headers (models/)'}
NA = {'C22': 'a statement about which programs compile: it is decided by the C++ type checker and no code is ever executed, so there is nothing to encode symbolically'}

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    m = {'version': 1,
         'setup_cmd': './setup.sh',
         'checks': [{'property': x['id'], 'quick_cmd': './vp.py check %s --tier quick' % x['id'],
                     'thorough_cmd': './vp.py check %s --tier thorough' % x['id'],
                     'technique': 'symbolic execution of the LLVM IR, SMT (z3, cvc5), counterexamples replayed natively',
                     'level': 'model_checking', 'level_note': NOTE % EXTRA.get(x['id'], '')} for x in P if x['id'] not in NA],
         'not_applicable': [{'property': k, 'reason': r} for k, r in NA.items()],
         'notes': 'See DESIGN.md. known-findings.jsonl lists the defects found and repaired.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
