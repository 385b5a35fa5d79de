// -*- mode: quint -*-
/** The proleptic Gregorian calendar. A date is the integer yyyymmdd. Definitions
 *  are from the rules of the calendar (400-year cycle), not from any algorithm
 *  of the library. */
module dates {
  pure def isLeap(y: int): bool = (y % 4 == 0) and (y % 100 != 0 or y % 400 == 0)
  pure def yearDays(y: int): int = if (isLeap(y)) 366 else 365
  pure def monthDays(y: int, m: int): int =
    if (m == 2) (if (isLeap(y)) 29 else 28)
    else if (m == 4 or m == 6 or m == 9 or m == 11) 30 else 31

  pure def mk(y: int, m: int, d: int): int = y * 10000 + m * 100 + d
  pure def yearOf(t: int): int = t / 10000
  pure def monthOf(t: int): int = (t / 100) % 100
  pure def dayOf(t: int): int = t % 100
  pure def isDate(t: int): bool = and {
    yearOf(t) >= 1, monthOf(t) >= 1, monthOf(t) <= 12,
    dayOf(t) >= 1, dayOf(t) <= monthDays(yearOf(t), monthOf(t)),
  }

  pure def nextDay(t: int): int =
    if (dayOf(t) < monthDays(yearOf(t), monthOf(t))) t + 1
    else if (monthOf(t) < 12) mk(yearOf(t), monthOf(t) + 1, 1)
    else mk(yearOf(t) + 1, 1, 1)

  /** days before the first of month m */
  pure def daysBefore(y: int, m: int): int =
    if (m == 1) 0 else if (m == 2) 31
    else (if (isLeap(y)) 1 else 0) + (
      if (m == 3) 59 else if (m == 4) 90 else if (m == 5) 120 else if (m == 6) 151
      else if (m == 7) 181 else if (m == 8) 212 else if (m == 9) 243 else if (m == 10) 273
      else if (m == 11) 304 else 334)
  /** 1 on the first of January */
  pure def ordinal(t: int): int = daysBefore(yearOf(t), monthOf(t)) + dayOf(t)
  /** days since 31 December of the year 0 */
  pure def dayNumber(t: int): int = {
    val y = yearOf(t) - 1
    365 * y + y / 4 - y / 100 + y / 400 + ordinal(t)
  }
  /** the date with the given ordinal in year y */
  pure def ofOrdinal(y: int, n: int): int = {
    val m = 1.to(12).fold(1, (a, k) => if (daysBefore(y, k) < n and k > a) k else a)
    mk(y, m, n - daysBefore(y, m))
  }
  pure def ofDayNumber(n: int): int = {
    val n0 = n - 1
    val c4 = n0 / 146097
    val r4 = n0 % 146097
    val c1 = if (r4 == 146096) 3 else r4 / 36524
    val r1 = r4 - c1 * 36524
    val q4 = r1 / 1461
    val r = r1 % 1461
    val q1 = if (r == 1460) 3 else r / 365
    ofOrdinal(400 * c4 + 100 * c1 + 4 * q4 + q1 + 1, r - 365 * q1 + 1)
  }
  pure def plusDays(t: int, n: int): int = ofDayNumber(dayNumber(t) + n)

  /** after 400 years the calendar repeats */
  run cycleTest = all {
    assert(dayNumber(mk(2401, 1, 1)) - dayNumber(mk(2001, 1, 1)) == 146097),
    assert(1.to(400).forall(y => and {
      isLeap(y) == isLeap(y + 400), isLeap(y) == isLeap(y + 400 * 25),
      1.to(12).forall(m => dayNumber(mk(y + 400, m, 1)) == dayNumber(mk(y, m, 1)) + 146097),
    })),
  }

  pure def lesser(a: int, b: int): int = if (a <= b) a else b
  /** the day d of the month n months away from t's month, or its last day */
  pure def monthsAway(t: int, n: int, d: int): int = {
    val k = yearOf(t) * 12 + monthOf(t) - 1 + n
    mk(k / 12, k % 12 + 1, lesser(d, monthDays(k / 12, k % 12 + 1)))
  }
}
