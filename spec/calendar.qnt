// -*- mode: quint -*-
/** The calendar as a machine that walks from day to day, and the day counts built
 *  on it. `today` advances one date at a time while `elapsed` counts the days and
 *  `frac` accumulates the actual/actual weight of every day passed: the closed
 *  formulas of the specification must agree with the walk (checked exhaustively
 *  by TLC over a whole 400-year cycle), and the library must agree with both
 *  (replayed). */
module calendar {
  import dates.* from "./dates"
  import daycount.* from "./daycount"

  // ------------------------------------------------------------- the day walk

  var today: int
  var start: int
  var elapsed: int     // days walked
  var weight: int      // weight of the days walked, times 366 * 365

  action walkInit = all { start' = 20000101, today' = 20000101, elapsed' = 0, weight' = 0 }
  action walkFrom = {
    nondet y = 1.to(9996).oneOf()
    nondet m = 1.to(12).oneOf()
    nondet d = 1.to(28).oneOf()
    all { start' = mk(y, m, d), today' = mk(y, m, d), elapsed' = 0, weight' = 0 }
  }
  action walk = {
    val t = nextDay(today)
    all {
      elapsed < 146097,
      start' = start, today' = t, elapsed' = elapsed + 1,
      weight' = weight + (if (isLeap(yearOf(t))) 365 else 366),
    }
  }
  val walkInv: bool = and {
    isDate(today),
    days(start, today) == elapsed,
    ofDayNumber(dayNumber(today)) == today,
    ofOrdinal(yearOf(today), ordinal(today)) == today,
    actact(start, today) == weight,
    fracOf(nextDay(today)) > fracOf(today),
    us360(today, today) == 0, eu360(today, today) == 0,
    // 30/360 never strays more than two days (European: three) from a step of a day
    us360(today, nextDay(today)) >= 0, us360(today, nextDay(today)) <= 3,
    eu360(today, nextDay(today)) >= 0, eu360(today, nextDay(today)) <= 3,
  }
}
