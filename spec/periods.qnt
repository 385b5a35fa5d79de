// -*- mode: quint -*-
/** Reporting periods (pairs of dates): sequences, collections of dates, the split
 *  into annual and interim ones, and the unbroken chain back from the latest end.
 *  The state is a list of periods that grows, shrinks and is disturbed step by
 *  step; what the library must answer about it is part of the state. */
module periods {
  import dates.* from "./dates"
  import intervals.* from "./intervals"

  // -------------------------------------------------------------------- state

  type Verdict = { list: List[Period], ok: bool, chain: List[Period] }

  type Answer = { ok: bool, keysOk: bool, annual: Set[Period], interim: Set[Period], chain: List[Period] }

  /** what the library has to say about a list (as a sequence, and as a set of periods) */
  pure def answer(l: List[Period]): Answer = {
    ok: accepted(l), keysOk: accepted(sorted(l)),
    annual: asSet(l).filter(p => annual(p)), interim: asSet(l).filter(p => not(annual(p))),
    chain: chain(asSet(l)),
  }

  var list: List[Period]
  var ans: Answer
  var tip: int                 // where the list is being continued
  var dates: Set[int]          // the collected dates
  var collect: bool            // the last step collected dates ...
  var refused: bool            // ... or was refused
  var op: str
  var batch: List[Verdict]     // further lists to be judged

  // ------------------------------------------------------------------ actions

  action someDate(use: int => bool): bool = {
    nondet y = Set(1904, 1999, 2000, 2001, 2019, 2023, 2024, 2025, 2096, 2100).oneOf()
    nondet m = 1.to(12).oneOf()
    nondet z = Set(0, 1, 1, 2).oneOf()
    nondet d = 1.to(31).oneOf()
    use(mk(y, m, if (z == 1) monthDays(y, m) else if (z == 2) 28 else lesser(d, monthDays(y, m))))
  }
  action go(name: str, l: List[Period], t: int): bool = all {
    op' = name, list' = l, ans' = answer(l), tip' = t, dates' = dates, collect' = false, refused' = false, batch' = [],
  }
  action init = someDate(t => all {
    op' = "Start", list' = [], ans' = answer([]), tip' = t, dates' = Set(), collect' = false, refused' = false, batch' = [],
  })

  // --- C12: forward sequences

  action join = {
    nondet n = Set(0, 0, 1, 30, 89, 90, 91, 365, 366).oneOf()
    go("Join", list.append((tip, plusDays(tip, n))), plusDays(tip, n))
  }
  action gap = {
    nondet n = Set(-366, -30, -1, 1, 2, 31, 365).oneOf()
    nondet m = Set(0, 1, 90, 365).oneOf()
    val s = plusDays(tip, n)
    go("Gap", list.append((s, plusDays(s, m))), plusDays(s, m))
  }
  action backwards = {
    nondet n = Set(1, 2, 90, 365).oneOf()
    nondet stay = Set(true, false).oneOf()
    go("Backwards", list.append((tip, plusDays(tip, -n))), if (stay) tip else plusDays(tip, -n))
  }
  /** repeat, drop or swap */
  action disturb = {
    nondet k = 1.to(3).oneOf()
    nondet i = list.indices().oneOf()
    all {
      list.length() > 0,
      go("Disturb",
        if (k == 1) list.append(list[i])
        else if (k == 2) list.slice(0, i).concat(list.slice(i + 1, list.length()))
        else if (i > 0) list.replaceAt(i, list[i - 1]).replaceAt(i - 1, list[i]) else list,
        tip),
    }
  }
  action repair = go("Repair", list.select(p => p._1 <= p._2), tip)
  action collectDates = {
    val bad = list.foldl(false, (b, p) => b or p._1 > p._2)
    all {
      op' = "Collect", list' = list, ans' = ans, tip' = tip, collect' = true, refused' = bad, batch' = [],
      dates' = if (bad) dates else list.foldl(dates, (s, p) => s.union(Set(p._1, p._2))),
    }
  }
  /** all lists of up to three periods over three dates */
  action sweep = someDate(t => {
    val ds = Set(t, plusDays(t, 1), plusDays(t, 90))
    val ps = tuples(ds, ds)
    val ls = ps.map(p => [p]).union(tuples(ps, ps).map(q => [q._1, q._2]))
               .union(tuples(ps, ps, ps).map(q => [q._1, q._2, q._3]))
    all {
      op' = "Sweep", list' = list, ans' = ans, tip' = tip, dates' = dates, collect' = false, refused' = false,
      batch' = ls.fold([], (a, l) => a.append({ list: l, ok: accepted(l), chain: [] })),
    }
  })
  action stepSeq = any { join, join, join, join, gap, backwards, disturb, repair, collectDates }
  action stepSweep = sweep

  // --- C13: lengths around 120 days

  action addLength = {
    nondet n = Set(0, 1, 89, 91, 118, 119, 119, 120, 120, 121, 121, 122, 364, 365, 366, 731, 3652, 3661, 20000).oneOf()
    someDate(t => go("Length", insert(list, (t, plusDays(t, n))), t))
  }
  action addSpan = {
    nondet n = 0.to(400).oneOf()
    go("Length", insert(list, (tip, plusDays(tip, n))), plusDays(tip, n))
  }
  action dropOne = {
    nondet i = list.indices().oneOf()
    all { list.length() > 0, go("Drop", list.slice(0, i).concat(list.slice(i + 1, list.length())), tip) }
  }
  action stepSplit = any { addLength, addLength, addLength, addSpan, addSpan, dropOne }

  // --- C14: backwards from a latest end; day of the month as that of the latest

  pure def anchor(l: List[Period], t: int): int = if (l == []) dayOf(t) else dayOf(latest(asSet(l)))
  action quarter = { val p = quarterTo(tip, anchor(list, tip)) go("Quarter", insert(list, p), p._1) }
  action year = { val p = yearTo(tip, anchor(list, tip)) go("Year", insert(list, p), p._1) }
  /** both end at the tip; the list goes on from either */
  action both = {
    nondet on = Set(true, false).oneOf()
    val q = quarterTo(tip, anchor(list, tip))
    val y = yearTo(tip, anchor(list, tip))
    go("Both", insert(insert(list, q), y), if (on) q._1 else y._1)
  }
  action quarters = {
    nondet n = Set(4, 4, 8, 30, 104).oneOf()
    val d = anchor(list, tip)
    val r = range(0, n).foldl((list, tip), (a, i) =>
      (insert(a._1, quarterTo(a._2, d)), monthsAway(a._2, -3, d)))
    all { yearOf(tip) > 1500, go("Quarters", r._1, r._2) }
  }
  action years = {
    nondet n = Set(4, 13, 30, 104).oneOf()
    val d = anchor(list, tip)
    val r = range(0, n).foldl((list, tip), (a, i) =>
      (insert(a._1, yearTo(a._2, d)), monthsAway(a._2, -12, d)))
    all { yearOf(tip) > 1500, go("Years", r._1, r._2) }
  }
  /** a period that almost fits */
  action nearMiss = {
    nondet k = 1.to(6).oneOf()
    val d = anchor(list, tip)
    val q = quarterTo(tip, d)
    val y = yearTo(tip, d)
    val p = if (k == 1) (plusDays(q._1, -1), tip) else if (k == 2) (plusDays(q._1, 1), tip)
            else if (k == 3) (plusDays(y._1, -1), tip) else if (k == 4) (plusDays(y._1, 1), tip)
            else if (k == 5) (monthsAway(tip, -6, d), tip) else (q._1, plusDays(tip, -1))
    go("NearMiss", insert(list, p), tip)
  }
  action skip = {
    nondet n = Set(-1, -3, -6, -12).oneOf()
    go("Skip", list, monthsAway(tip, n, anchor(list, tip)))
  }
  /** a later period: the chain now starts there */
  action later = {
    nondet k = Set(3, 3, 12, 12, 6).oneOf()
    nondet n = Set(0, 0, 0, 1).oneOf()
    val e = latest(asSet(list))
    val s = plusDays(e, n)
    all { list != [], go("Later", insert(list, (s, monthsAway(s, k, dayOf(s)))), tip) }
  }
  pure def choices(t: int): Set[Period] = {
    val d = dayOf(t)
    val a3 = monthsAway(t, -3, d)
    val a12 = monthsAway(t, -12, d)
    Set(quarterTo(t, d), yearTo(t, d), quarterTo(a3, d), yearTo(a3, d), quarterTo(a12, d), yearTo(a12, d),
        quarterTo(monthsAway(t, -6, d), d), (plusDays(a3, 1), t), (monthsAway(t, -1, d), t))
  }
  /** every subset of nine periods around one date */
  action subsets = someDate(t => all {
    op' = "Subsets", list' = list, ans' = ans, tip' = tip, dates' = dates, collect' = false, refused' = false,
    batch' = choices(t).powerset().fold([], (a, s) =>
      a.append({ list: s.fold([], (b, p) => b.append(p)), ok: false, chain: chain(s) })),
  })
  action stepChain = any { quarter, quarter, year, year, both, both, quarters, years, nearMiss, nearMiss, skip, later, dropOne }
  action stepSubsets = subsets

  // ------------------------------------------------------------------ invariants

  val theChain: List[Period] = ans.chain
  val chainInv: bool = and {
    asSet(theChain).subseteq(asSet(list)),
    theChain.indices().forall(i => i > 0 implies theChain[i]._2 == theChain[i - 1]._1),
    theChain.length() > 0 implies theChain[0]._2 == latest(asSet(list)),
    theChain.length() <= 100,
    // nothing fits on
    theChain.length() < 100 and list != [] implies {
      val d = dayOf(latest(asSet(list)))
      val t = if (theChain == []) latest(asSet(list)) else theChain[theChain.length() - 1]._1
      and { not(quarterTo(t, d).in(asSet(list))), not(yearTo(t, d).in(asSet(list))) }
    },
  }
  /** a list that is accepted telescopes: it spans exactly its pieces */
  val seqInv: bool = ans.ok and list.length() > 0 implies
    list.foldl(0, (n, p) => n + dayNumber(p._2) - dayNumber(p._1)) ==
      dayNumber(list[list.length() - 1]._2) - dayNumber(list[0]._1)
  val datesInv: bool = collect and not(refused) implies asSet(list).forall(p => p._1.in(dates) and p._2.in(dates))
  val splitInv: bool = and {
    ans.annual.union(ans.interim) == asSet(list),
    ans.annual.intersect(ans.interim) == Set(),
  }
  val inv: bool = seqInv and datesInv and splitInv and chainInv
}
