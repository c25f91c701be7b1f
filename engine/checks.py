"""Which harness files decide which property, and what each check's bounds are."""
CAL = {'harness': 'calendar.cpp'}
BOTH = [('DEBUG',), ()]
# in the quick tier, only with -DDEBUG, as the library's makefiles have it
SLOW = ('C03', 'C19', 'C20', 'C21')

CHECKS = {
    'C01': {'units': [CAL], 'bounds': 'every valid date from -4799-01-01 to the year 2e9'},
    'C02': {'units': [CAL], 'bounds': 'year in [-4800, 2^31-1], month and day any int'},
    'C03': {'units': [CAL], 'bounds': {'quick': 'validity and inverse: every MJD of the years 0..9999, and shifted by whole eras of 400 years to the year 2e9; datetime::as_ymd: any MJD from -2431000 to 7.3e11 and any time of day', 'thorough': 'as quick, with to_ymd on every MJD from -2431000 to 3e9 without the shift'}},
    'C04': {'units': [CAL], 'bounds': {'quick': 'ydoy2mjd: every day of the years -4799..2e9; to_ydoy: every MJD of the years 0..9999, the day of year of the calendar date to MJD 7.3e11; datetime::as_ydoy at any time of day; ymd/ydoy: every int year', 'thorough': 'as quick; to_ydoy: every MJD from -2431000 to 3e9'}},
    'C05': {'units': [CAL], 'bounds': 'none beyond the argument types: every int (long for weeks)'},
}
CHECKS.update({
    'C06': {'units': [{'harness': 'leap.cpp'}], 'bounds': 'years 1972..1e8 (each month, each day); mjd from 41317 on'},
})
INS = {'harness': 'instant.cpp'}
CHECKS.update({
    'C07': {'units': [INS], 'bounds': '|MJD| <= 1e15, seconds any long (<= 4e18 with hours/minutes), |hours| <= 1e6, |minutes| <= 6e7, years -4799..1e6'},
    'C08': {'units': [INS], 'bounds': '|MJD| <= 1e15, any time of day, amounts up to 4e18 units of the finer resolution'},
    'C09': {'units': [INS], 'bounds': 'delta_sec: differences up to 4e18 units; delta_date: |MJD| <= 1e15'},
    'C10': {'units': [INS], 'bounds': '|MJD| <= 1e15, any time of day'},
})
FUN = {'harness': 'fund.cpp'}
CHECKS.update({
    'C11': {'units': [FUN], 'bounds': 'operators: every pair of values whose result fits the type; binary +/-: |values| <= 4e18'},
    'C12': {'units': [FUN], 'bounds': 'casts: every value whose result fits; to_hmsf: non-negative values with hours in int'},
    'C13': {'units': [FUN], 'bounds': 'weeks 0..1e7 with seconds within the week; weeks -1e6..1e9 with any seconds to +-4e18; MJD -7e7..7e7'},
    'C14': {'units': [FUN], 'bounds': 'every day difference up to max_days_allowed; every MJD'},
})
FLT = {'harness': 'float.cpp'}
CHECKS.update({
    'C15': {'units': [FLT], 'bounds': 'any time of day; amounts to +-1e15 units; Julian dates: |MJD| <= 1e8; as_mjd: |MJD| <= 1e12'},
    'C16': {'units': [FLT], 'bounds': 'every non-zero int divisor; any days, any time of day; exact multiples to 4e18 units by 80 divisors and their negatives'},
    'C17': {'units': [FLT], 'bounds': 'seconds with the decimals of the type to +-1 day, and up to 4e12 (s), 4e9 (ms), 1e8 (us); nanosecond decimals up to 100 s; |hours| <= 1e6, |minutes| <= 6e7; datetimes in the years -4799..1e6'},
})
CHECKS.update({
    'C18': {'units': [{'harness': 'month.cpp'}], 'bounds': {'quick': 'every byte string of 0 to 11 characters', 'thorough': 'every byte string of 0 to 24 characters'}},
})
# in these functions, branches are decided by queries as they are reached: text lengths are then concrete
EAGER = r'^_ZNSo|to_chars|to_string|_ZStls|vp_snprintf|vp_run'
FMT = {'harness': 'format.cpp', 'mock': True, 'eager': EAGER}
CHECKS.update({
    'C21': {'units': [FMT], 'bounds': 'years 0..99999 (fractional formats: 1000..99999 in the quick tier), any unit of the day, any delimiter byte; the decimals on one day'},
})
HIS = {'harness': 'history.cpp'}
WRI = {'harness': 'writing.cpp', 'mock': True, 'eager': EAGER}
CHECKS.update({
    'C23': {'units': [HIS, WRI], 'bounds': 'every pair of calls within four groups (calendar and leap seconds; arithmetic and views; reading; writing), the first repeated after a call of itself and one of the other, each with its own arguments: years 1600..2400, MJD -20000..300000 (leap seconds from MJD 61317), days to +-1e6, amounts to +-1e11, texts of fixed shapes with any digits, texts written on 10 days and 50 seconds at any resolution, the call in between also in a year of five digits'},
})
PAR = {'harness': 'parse.cpp'}
CHECKS.update({
    'C19': {'units': [PAR], 'bounds': 'years 0..99999, five shapes of digit counts and leading blanks, any delimiters and tail, times of day and (without a tail) hours, minutes and seconds beyond them; decimals: 0..6 digits (12 in the thorough tier) on one date'},
    'C20': {'units': [PAR], 'bounds': 'every cut and every single byte of the YYYY-MM-DD HH:MM:SS texts (any digits; February and November); every string of up to 4 bytes (6 in the thorough tier); numbers of 10..20 digits in every field; 8 kinds of unreadable seconds; seconds of 13..15 digits'},
})
