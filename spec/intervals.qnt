// -*- mode: quint -*-
/** What holds of lists and sets of reporting periods: pure functions. */
module intervals {
  import dates.* from "./dates"
  type Period = (int, int)

  // ------------------------------------------------------------------ meaning

  pure def accepted(l: List[Period]): bool = and {
    l.indices().forall(i => l[i]._1 <= l[i]._2),
    l.indices().forall(i => i > 0 implies l[i]._1 == l[i - 1]._2),
  }
  pure def asSet(l: List[Period]): Set[Period] = l.indices().map(i => l[i])
  /** the periods in order of their start, then of their end, each once */
  pure def before(p: Period, q: Period): bool = p._1 < q._1 or (p._1 == q._1 and p._2 < q._2)
  pure def insert(l: List[Period], p: Period): List[Period] =
    l.select(q => before(q, p)).append(p).concat(l.select(q => before(p, q)))
  pure def sorted(l: List[Period]): List[Period] = l.foldl([], (a, p) => insert(a, p))

  pure def annual(p: Period): bool = dayNumber(p._2) - dayNumber(p._1) > 120

  pure def latest(s: Set[Period]): int = s.fold(0, (m, p) => if (p._2 > m) p._2 else m)
  pure def quarterTo(t: int, d: int): Period = (monthsAway(t, -3, d), t)
  pure def yearTo(t: int, d: int): Period = (monthsAway(t, -12, d), t)
  /** latest period first */
  pure def chain(s: Set[Period]): List[Period] = {
    val e = latest(s)
    val d = dayOf(e)
    if (s == Set()) []
    else range(0, 100).foldl(([], e, true), (a, i) =>
      if (not(a._3)) a
      else if (quarterTo(a._2, d).in(s)) (a._1.append(quarterTo(a._2, d)), monthsAway(a._2, -3, d), true)
      else if (yearTo(a._2, d).in(s)) (a._1.append(yearTo(a._2, d)), monthsAway(a._2, -12, d), true)
      else (a._1, a._2, false))._1
  }
}
