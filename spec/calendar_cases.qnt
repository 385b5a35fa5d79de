// -*- mode: quint -*-
/** Behaviours for replay: a cursor moves through the calendar (day by day over
 *  the ends of months and years, or by jumps), and in every state a batch of
 *  dates, numbers and pairs of dates is to be answered by the library. */
module calendar_cases {
  import dates.* from "./dates"
  import daycount.* from "./daycount"

  /** a number (over 133590 * 100) and the date it belongs to */
  type Point = { num: int, date: int, leap: bool }
  /** a pair of dates and its counts; act is over 133590 */
  type Pair = { a: int, b: int, us: int, eu: int, days: int, act: int }

  var op: str
  var cur: int                 // cursor
  var era: int                 // all dates of this state are meant this many times 400 years later
  var points: List[Point]
  var pairs: List[Pair]

  pure def exact(t: int): Point = { num: fracOf(t) * 100, date: t, leap: isLeap(yearOf(t)) }
  /** q hundredths of the way from t to the next date; q is never 50 */
  pure def between(t: int, q: int): Point =
    { num: fracOf(t) * 100 + q * (fracOf(nextDay(t)) - fracOf(t)), date: if (q < 50) t else nextDay(t),
      leap: isLeap(if (q < 50) yearOf(t) else yearOf(nextDay(t))) }
  pure def pair(a: int, b: int): Pair =
    { a: a, b: b, us: us360(a, b), eu: eu360(a, b), days: days(a, b), act: actact(a, b) }
  pure def follow(t: int, n: int): List[int] =
    range(1, n).foldl([t], (l, i) => l.append(nextDay(l[i - 1])))

  /** years of every kind */
  action someDate(use: int => bool): bool = {
    nondet z = Set(0, 1, 2, 3, 4).oneOf()
    nondet y0 = 1.to(9996).oneOf()
    nondet y1 = 1850.to(2150).oneOf()
    nondet y2 = Set(1, 4, 100, 400, 1600, 1700, 1800, 1899, 1900, 1996, 1999, 2000, 2001, 2004, 2023, 2024, 2025, 2100, 2400, 9996).oneOf()
    nondet m = 1.to(12).oneOf()
    nondet mz = Set(0, 0, 1, 2, 3).oneOf()
    nondet d = 1.to(31).oneOf()
    val y = if (z == 0) y0 else if (z <= 2) y1 else y2
    val mm = if (mz == 1) 2 else if (mz == 2) 12 else if (mz == 3) 1 else m
    use(mk(y, mm, lesser(d, monthDays(y, mm))))
  }

  /** the calendar repeats after 400 years (a theorem of dates.qnt): most behaviours are
   *  in the era of the cursor, some long before or after it */
  action someEra(use: int => bool): bool = {
    nondet k = 0.to(19).oneOf()
    nondet j = Set(-640, -64, -26, -25, -6, -5, -1, 1, 8, 64, 620).oneOf()
    nondet i = (-26).to(8).oneOf()
    use(if (k < 12) 0 else if (k < 16) i else j)
  }

  // --------------------------------------------------------- C17: date <-> number

  action look(t: int, name: str, e: int): bool = {
    nondet q = 0.to(47).oneOf()
    nondet r = 53.to(99).oneOf()
    val l = follow(t, 40)
    all {
      op' = name, cur' = l[39], era' = e, pairs' = [],
      points' = l.foldl([], (a, x) => a.append(exact(x)).append(between(x, q)).append(between(x, r))
                                       .append(between(x, 48)).append(between(x, 52))),
    }
  }
  action initNum = someDate(t => someEra(e => look(t, "Jump", e)))
  action stepNum = any {
    someDate(t => look(t, "Jump", 0)), someDate(t => someEra(e => look(t, "Jump", e))), look(cur, "Walk", era),
  }

  /** a whole Gregorian cycle of 400 years, every day of it */
  action initCycle = all { op' = "Start", cur' = 20000101, era' = 0, pairs' = [], points' = [exact(20000101)] }
  action stepCycle = {
    val l = follow(cur, 41)
    all {
      op' = "Cycle", cur' = l[40], era' = 0, pairs' = [],
      points' = l.foldl([], (a, x) => a.append(exact(x)).append(between(x, 48)).append(between(x, 52))),
    }
  }

  // ------------------------------------------------------------ C18, C19: pairs

  pure val DAYS: List[int] = [1, 2, 14, 15, 16, 27, 28, 29, 30, 31]
  pure def monthDates(y: int, m: int): List[int] =
    DAYS.foldl([], (l, d) => if (d <= monthDays(y, m)) l.append(mk(y, m, d)) else l)
  pure def crossed(l: List[int], r: List[int]): List[Pair] =
    l.foldl([], (a, x) => r.foldl(a, (c, y) => c.append(pair(x, y))))

  action meet(t: int, u: int, name: str): bool = all {
    op' = name, cur' = u, era' = era, points' = [],
    pairs' = crossed(monthDates(yearOf(t), monthOf(t)), monthDates(yearOf(u), monthOf(u)))
               .append(pair(t, u)).append(pair(u, t)),
  }
  action initPairs = someDate(t => someEra(e => all { op' = "Start", cur' = t, era' = e, points' = [], pairs' = [pair(t, t)] }))
  /** the other month is anywhere */
  action far = someDate(t => meet(cur, t, "Far"))
  /** within a few years */
  action near = {
    nondet n = (-49).to(49).oneOf()
    val u0 = monthsAway(cur, n, 28)
    val u = if (yearOf(u0) < 1) cur else u0
    meet(cur, u, "Near")
  }
  action reversed = {
    nondet n = (-25).to(25).oneOf()
    val u0 = monthsAway(cur, n, 31)
    val u = if (yearOf(u0) < 1) cur else u0
    meet(u, cur, "Back")
  }
  /** February against February */
  action februaries = {
    nondet n = (-9).to(9).oneOf()
    val y0 = yearOf(cur) + n
    val y = if (y0 < 1) 4 else y0
    meet(mk(yearOf(cur), 2, monthDays(yearOf(cur), 2)), mk(y, 2, monthDays(y, 2)), "Feb")
  }
  /** a run of consecutive days against the cursor: nothing is skipped */
  action run1 = {
    nondet n = Set(0, 1, 27, 28, 29, 30, 59, 360, 364, 365, 366, 1460, 36524).oneOf()
    val u = plusDays(cur, n)
    all {
      op' = "Run", cur' = u, era' = era, points' = [],
      pairs' = follow(u, 40).foldl([], (a, x) => a.append(pair(cur, x)).append(pair(x, cur))),
    }
  }
  action stepPairs = any { far, near, near, reversed, februaries, run1, run1 }

  /** every pair of months of a leap year and a common year with all days in question */
  action initSweep = all { op' = "Start", cur' = 0, era' = 0, points' = [], pairs' = [] }
  action stepSweep = {
    val k = cur / 24
    val n = cur % 24
    all {
      cur < 576,
      op' = "Sweep", cur' = cur + 1, era' = 0, points' = [],
      pairs' = crossed(monthDates(2023 + k / 12, k % 12 + 1), monthDates(2023 + n / 12, n % 12 + 1)),
    }
  }

  // ------------------------------------------------------------------ invariants

  val inv: bool = and {
    pairs.foldl(true, (ok, p) => ok and and {
      isDate(p.a), isDate(p.b),
      p.days == -days(p.b, p.a),
      p.eu == -eu360(p.b, p.a),
      (p.a <= p.b) iff (p.days >= 0),
      (p.a <= p.b) iff (p.act >= 0),
      // the 30/360 counts stay near the months between the dates
      p.us <= 360 * (yearOf(p.b) - yearOf(p.a)) + 30 * (monthOf(p.b) - monthOf(p.a)) + 30,
      p.us >= 360 * (yearOf(p.b) - yearOf(p.a)) + 30 * (monthOf(p.b) - monthOf(p.a)) - 30,
      p.us - p.eu <= 2, p.eu - p.us <= 2,
    }),
    points.foldl(true, (ok, x) => ok and isDate(x.date)),
  }
}
