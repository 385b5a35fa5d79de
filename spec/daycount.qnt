// -*- mode: quint -*-
/** The day count conventions, as their rules state them. */
module daycount {
  import dates.* from "./dates"

  // ------------------------------------------------------- 30/360 conventions

  pure def lastOfFeb(t: int): bool = monthOf(t) == 2 and dayOf(t) == monthDays(yearOf(t), 2)
  pure def count360(a: int, da: int, b: int, db: int): int =
    360 * (yearOf(b) - yearOf(a)) + 30 * (monthOf(b) - monthOf(a)) + db - da

  /** European: a 31st counts as a 30th */
  pure def eu360(a: int, b: int): int = count360(a, lesser(dayOf(a), 30), b, lesser(dayOf(b), 30))

  /** US (NASD) */
  pure def us360(a: int, b: int): int = {
    val da = if (lastOfFeb(a)) 30 else dayOf(a)
    val db0 = if (lastOfFeb(a) and lastOfFeb(b)) 30 else dayOf(b)
    val db = if (db0 == 31 and da >= 30) 30 else db0
    count360(a, lesser(da, 30), b, db)
  }

  // -------------------------------------------------------------- actual counts

  pure def days(a: int, b: int): int = dayNumber(b) - dayNumber(a)
  /** actual/actual times 366 * 365 (every day weighs 365 or 366 of these) */
  pure def actact(a: int, b: int): int = fracOf(b) - fracOf(a)
  /** date as a number, times 366 * 365 */
  pure def fracOf(t: int): int =
    133590 * yearOf(t) + ordinal(t) * (if (isLeap(yearOf(t))) 365 else 366)
}
