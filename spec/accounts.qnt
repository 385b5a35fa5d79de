// -*- mode: quint -*-
/** A set of accounts with a history: statements are entered, put, recalculated,
 *  taxed and cleaned, cash flows derived, reports assembled, taken apart and
 *  recalculated, and the accounts restricted to some of their periods. */
module accounts {
  import chart.* from "./chart"
  import dates.* from "./dates"
  import intervals.* from "./intervals"
  import semantics.* from "./semantics"
  import books.* from "./books"
  import table.* from "./table"

  type Op = { name: str, kind: str, date: int, per: Period, line: str, amount: int, refused: bool, rates: Rates }

  var scale: int
  var uni: List[int]               // five dates, three months apart, latest first
  var books: Books
  var op: Op
  var asked: List[Report]          // what the last step asked for: reports ...
  var taken: List[{ parts: Parts, whole: List[Report] }]   // ... parts put together ...
  var chosen: List[Period]         // ... a selection of periods ...
  var sub: List[Books]             // ... the accounts restricted to it ...
  var shown: List[Section]         // ... and the table

  pure val NO: Rates = { corp: 0, gross: 0, rev: 0 }
  pure def o(name: str): Op =
    { name: name, kind: "", date: 0, per: (0, 0), line: "", amount: 0, refused: false, rates: NO }

  pure def bound(z: int): int = if (z == 0) 14 else if (z == 1) 3000000 else 2000000000
  /** of a draw r in 0..999999: nothing, or the amount on a scale z */
  pure def amountFrom(z: int, r: int): int = 256 * (if (r % 9 == 0) 0 else if (z == 0) r % 29 - 14 else if (z == 1) r - 500000 else (r - 500000) * 4001)

  pure val KEY_PL: Set[str] = Set("OperatingRevenue", "CostMaterial", "Salaries", "Depreciation", "TaxDepreciation",
    "InterestExpense", "TaxesCurrent", "Dividends")
  pure val KEY_BS: Set[str] = Set("Cash", "RawMaterials", "LongTermBorrowings", "RetainedEarnings", "AccumulatedDepreciation")
  pure val KEY_CF: Set[str] = Set("OtherCashFlowOperations", "DonorContribution")

  pure def quarterOf(u: List[int], i: int): Period = (u[i + 1], u[i])
  /** four quarters, the year, a half year, a day, an odd period, and one that ends before it begins */
  pure def periodsOf(u: List[int]): List[Period] = [
    quarterOf(u, 0), quarterOf(u, 1), quarterOf(u, 2), quarterOf(u, 3), (u[4], u[0]), (u[2], u[0]), (u[3], u[3]), (u[4], plusDays(u[2], 1)), (u[0], u[1])
  ]
  pure val N: int = 8

  // ------------------------------------------------------------------- loading

  /** a random statement: key lines often, others seldom */
  pure def stmtOf(z: int, kind: str, i: int, pres: (int, str) -> int, amt: (int, str) -> int): Stmt = {
    val lines = linesOf(kind)
    val dense = pres.get((i, "Cash")) == 5
    val key = if (kind == "BS") KEY_BS else if (kind == "PL") KEY_PL else KEY_CF
    lines.filter(k => if (k.in(key) or dense) pres.get((i, k)) < 6 else pres.get((i, k)) == 0)
         .mapBy(k => amountFrom(z, amt.get((i, k))))
  }

  pure val LINES: Set[str] = BS.union(PL).union(CF)
  pure val SLOTS: Set[int] = 0.to(8)

  action init = {
    nondet sc = Set(-20, -17, 0).oneOf()
    nondet z = Set(0, 1, 1, 2).oneOf()
    nondet y = Set(2000, 2019, 2023, 2024, 2025).oneOf()
    nondet m = 1.to(12).oneOf()
    nondet d = Set(1, 15, 28, 29, 30, 31).oneOf()
    nondet pres = tuples(SLOTS, LINES).setOfMaps(0.to(9)).oneOf()
    nondet amt = tuples(SLOTS, LINES).setOfMaps(0.to(999999)).oneOf()
    nondet bi = 0.to(4).powerset().oneOf()
    nondet bj = 0.to(4).powerset().oneOf()
    nondet pi = 0.to(N).powerset().oneOf()
    nondet ci = 0.to(N).powerset().oneOf()
    nondet oi = 0.to(N).powerset().oneOf()
    nondet plain = 0.to(N).powerset().oneOf()
    nondet rs = tuples(SLOTS, Set(1, 2, 3)).setOfMaps(0.to(128)).oneOf()
    nondet ds = 0.to(4).powerset().oneOf()
    nondet cur = Set("INR", "USD", "NGN", "EUR", "GBP", "CNY", "MZN", "ZAR").oneOf()
    nondet con = Set(true, false).oneOf()
    nondet off = tuples((-4).to(4), 0.to(4).powerset()).oneOf()
    val t = mk(y, m, lesser(d, monthDays(y, m)))
    val u = range(0, 5).foldl([], (l, i) => l.append(monthsAway(t, -3 * i, dayOf(t))))
    val ps = periodsOf(u)
    all {
      scale' = sc, uni' = u, op' = o("Load"), asked' = [], taken' = [], chosen' = [], sub' = [], shown' = [],
      books' = {
        currency: cur, consolidated: con, dates: ds.map(i => u[i]),
        bs: bi.union(bj).map(i => (if (absI(off._1) == 1 and i.in(off._2)) plusDays(u[i], off._1) else u[i], stmtOf(z, "BS", i, pres, amt))).setToMap(),
        pl: pi.map(i => (ps[i], stmtOf(z, "PL", i, pres, amt))).setToMap(),
        cf: ci.map(i => (ps[i], stmtOf(z, "CF", i, pres, amt))).setToMap(),
        ot: oi.union(pi.exclude(plain)).map(i => (ps[i],
          if (i.in(pi))
            Map("CorporateTaxRate" -> rs.get((i, 1)), "GrossProfitTaxRate" -> rs.get((i, 2)) / 2, "RevenueTaxRate" -> rs.get((i, 3)) / 2,
                "CurrentRatio" -> 300 + i)
          else Map("AcidRatio" -> rs.get((i, 1)) + 1))).setToMap(),
      },
    }
  }

  // ------------------------------------------------------------------- actions

  action now(p: Op, b: Books): bool = all {
    scale' = scale, uni' = uni, op' = p, books' = b, asked' = [], taken' = [], chosen' = [], sub' = [], shown' = [],
  }
  action ask(p: Op, rs: List[Report], ts: List[{ parts: Parts, whole: List[Report] }], ch: List[Period], s: List[Books]): bool = all {
    scale' = scale, uni' = uni, op' = p, books' = books, asked' = rs, taken' = ts, chosen' = ch, sub' = s, shown' = [],
  }

  pure def withBs(b: Books, d: int, k: str, v: int): Books = { ...b, bs: b.bs.put(d, b.bs.get(d).put(k, v)) }
  pure def withPl(b: Books, p: Period, k: str, v: int): Books = { ...b, pl: b.pl.put(p, b.pl.get(p).put(k, v)) }
  pure def withCf(b: Books, p: Period, k: str, v: int): Books = { ...b, cf: b.cf.put(p, b.cf.get(p).put(k, v)) }

  /** put_balance_sheet and so on; `stale` enters a derived line directly */
  action putBs(name: str, lines: Set[str], bad: bool): bool = {
    nondet d = books.bs.keys().oneOf()
    nondet k = lines.oneOf()
    nondet z = Set(0, 1, 1, 2).oneOf()
    nondet r = 0.to(999999).oneOf()
    val v = amountFrom(z, r)
    all { books.bs.keys() != Set(),
      now({ ...o(name), kind: "BS", date: d, line: k, amount: v, refused: bad }, if (bad) books else withBs(books, d, k, v)) }
  }
  action putPl(name: str, lines: Set[str], bad: bool): bool = {
    nondet p = books.pl.keys().oneOf()
    nondet k = lines.oneOf()
    nondet z = Set(0, 1, 1, 2).oneOf()
    nondet r = 0.to(999999).oneOf()
    val v = amountFrom(z, r)
    all { books.pl.keys() != Set(),
      now({ ...o(name), kind: "PL", per: p, line: k, amount: v, refused: bad }, if (bad) books else withPl(books, p, k, v)) }
  }
  action putCf(name: str, lines: Set[str], bad: bool): bool = {
    nondet p = books.cf.keys().oneOf()
    nondet k = lines.oneOf()
    nondet z = Set(0, 1, 1, 2).oneOf()
    nondet r = 0.to(999999).oneOf()
    val v = amountFrom(z, r)
    all { books.cf.keys() != Set(),
      now({ ...o(name), kind: "CF", per: p, line: k, amount: v, refused: bad }, if (bad) books else withCf(books, p, k, v)) }
  }
  /** lines that some statement has already */
  pure def used(ss: Set[Stmt], lines: Set[str]): Set[str] = {
    val l = ss.fold(Set(), (a, x) => a.union(x.keys())).intersect(lines)
    if (l == Set()) lines else l
  }
  action enterOne = any {
    putBs("Put", BS_ENTERED, false), putPl("Put", PL_ENTERED, false), putPl("Put", KEY_PL, false), putCf("Put", CF_ENTERED, false),
    putBs("Put", used(books.bs.keys().map(d => books.bs.get(d)), BS_ENTERED), false),
    putPl("Put", used(books.pl.keys().map(d => books.pl.get(d)), PL_ENTERED), false),
    putCf("Put", used(books.cf.keys().map(d => books.cf.get(d)), CF_ENTERED), false),
  }
  action putDerived = any { putBs("Put", BS_DERIVED, true), putPl("Put", PL_DERIVED, true), putCf("Put", CF_DERIVED, true) }
  action stale = any { putBs("Stale", BS_DERIVED, false), putPl("Stale", PL_DERIVED, false), putCf("Stale", CF_DERIVED, false) }

  /** a statement at another date or period: a copy of one that is there, or an empty one */
  action newBs = {
    nondet i = 0.to(4).oneOf()
    nondet d = books.bs.keys().oneOf()
    nondet none = Set(true, false).oneOf()
    nondet off = (-4).to(4).oneOf()
    val t = if (absI(off) == 1) plusDays(uni[i], off) else uni[i]      // also a day early or late
    all { books.bs.keys() != Set(),
      now({ ...o("Enter"), kind: "BS", date: t }, { ...books, bs: books.bs.put(t, if (none) Map() else books.bs.get(d)) }) }
  }
  action newPl = {
    nondet i = 0.to(N).oneOf()
    nondet p = books.pl.keys().oneOf()
    nondet none = Set(true, false, false).oneOf()
    all { books.pl.keys() != Set(),
      now({ ...o("Enter"), kind: "PL", per: periodsOf(uni)[i] },
          { ...books, pl: books.pl.put(periodsOf(uni)[i], if (none) Map() else books.pl.get(p)) }) }
  }
  action firstPl = {
    nondet i = 0.to(N).oneOf()
    all { books.pl.keys() == Set(),
      now({ ...o("Enter"), kind: "PL", per: periodsOf(uni)[i] },
          { ...books, pl: books.pl.put(periodsOf(uni)[i], Map("OperatingRevenue" -> 256000)) }) }
  }
  action dropBs = {
    nondet d = books.bs.keys().oneOf()
    all { books.bs.keys().size() > 2,
      now({ ...o("Enter"), kind: "BS", date: d }, { ...books, bs: books.bs.keys().exclude(Set(d)).mapBy(x => books.bs.get(x)) }) }
  }
  /** rates and another ratio for one period */
  action otherRates = {
    nondet i = 0.to(N).oneOf()
    nondet rs = tuples(0.to(128), 0.to(64), 0.to(64)).oneOf()
    nondet k = Set("CurrentRatio", "AcidRatio", "DaysOfInventory", "InventoryTurnoverRatio").oneOf()
    nondet gone = TAX_RATES.union(Set("ratios")).powerset().oneOf()
    nondet some = 0.to(4).oneOf()
    val p = periodsOf(uni)[i]
    val all4 = Map("CorporateTaxRate" -> rs._1, "GrossProfitTaxRate" -> rs._2, "RevenueTaxRate" -> rs._3, k -> 1000 + i)
    // all rates and another ratio, now and then only some of them or none at all
    val given = if (some > 1) all4.keys() else if (some == 1) Set()
      else all4.keys().filter(x => not((if (x == k) "ratios" else x).in(gone)))
    now({ ...o("Enter"), kind: "OT", per: p }, { ...books, ot: books.ot.put(p, given.mapBy(x => all4.get(x))) })
  }

  action recalculate = now(o("CalcElements"), calcElements(scale, books))
  action removeCalculatedLines = now(o("RemoveCalc"), removeCalculated(scale, books))
  action cashFlows = all {
    flowing(books).forall(p => hasRates(books, p)),
    now(o("CalcCashFlow"), calcCashFlow(scale, books)),
  }
  /** a rate is not given for a period, the minimum tax of which is high or the profit */
  action partRates = {
    nondet p = books.pl.keys().oneOf()
    nondet gone = TAX_RATES.powerset().oneOf()
    nondet v = Set(0, 256000000, -256000000).oneOf()
    val ot = if (p.in(books.ot.keys())) books.ot.get(p) else Map("GrossProfitTaxRate" -> 40)
    all { books.pl.keys() != Set(),
      now({ ...o("Enter"), kind: "OT", per: p }, { ...books,
        pl: if (v == 0) books.pl else books.pl.put(p, books.pl.get(p).put("OperatingRevenue", v)),
        ot: books.ot.put(p, keepOnly(ot, (k, x) => not(k.in(gone)))) }) }
  }
  action rates = {
    nondet rs = tuples(0.to(128), 0.to(64), 0.to(64)).oneOf()
    nondet none = Set(0, 1, 2).powerset().oneOf()
    nondet keep = 1.to(3).oneOf()
    nondet steep = 1.to(12).oneOf()           // seldom a rate of 100 % and more
    val r = { corp: if (0.in(none) and keep == 1) 0 else if (steep == 1) 2 * rs._1 + 150 else rs._1,
              gross: if (1.in(none)) 0 else if (steep == 2) 4 * rs._2 + 150 else rs._2,
              rev: if (2.in(none) and keep != 2) 0 else if (steep == 3) 4 * rs._3 + 150 else rs._3 }
    now({ ...o("SetTaxRates"), rates: r }, setTaxRates(books, r))
  }
  action tax = all {
    books.pl.keys().forall(p => p.in(books.ot.keys())),
    now(o("CalcTax"), calcTax(scale, books)),
  }
  /** a period that ends before it begins: refused */
  action collect = {
    val bad = books.pl.keys().exists(p => p._1 > p._2)
    now({ ...o("SetDates"), refused: bad }, if (bad) books else { ...books, dates: collected(books) })
  }

  action report1 = {
    nondet i = 0.to(N).oneOf()
    nondet odd = 1.to(5).oneOf()
    val p0 = periodsOf(uni)[i]
    val p = if (odd == 1) (p0._2, p0._1) else if (odd == 2) (p0._1, plusDays(p0._2, 1)) else p0
    ask({ ...o("Report"), per: p }, report(books, p), [], [], [])
  }
  action reportAll = ask(o("Reports"), reports(books), [], [], [])
  pure def hollow(l: List[Stmt]): List[Stmt] = if (l == []) [] else [Map()]
  /** apart and together again, with some parts missing and some dates wrong */
  action together = {
    nondet p = books.pl.keys().oneOf()
    nondet gone = 1.to(4).powerset().oneOf()
    nondet keepAll = Set(true, false).oneOf()
    nondet empty = 1.to(5).powerset().oneOf()
    nondet full = 1.to(3).oneOf()
    nondet j = Set(0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11).oneOf()
    nondet s = Set(-365, -1, 1, 31).oneOf()
    all {
      books.pl.keys() != Set(),
      {
        val r0 = report(books, p)[0]
        val r1 = if (keepAll) r0 else { ...r0,
          b0: if (1.in(gone)) [] else r0.b0, b1: if (2.in(gone)) [] else r0.b1,
          cf: if (3.in(gone)) [] else r0.cf, ot: if (4.in(gone)) [] else r0.ot }
        // now and then a statement without lines
        val r = if (full > 1) r1 else { ...r1,
          b0: if (1.in(empty)) hollow(r1.b0) else r1.b0, b1: if (2.in(empty)) hollow(r1.b1) else r1.b1,
          cf: if (3.in(empty)) hollow(r1.cf) else r1.cf, ot: if (4.in(empty)) hollow(r1.ot) else r1.ot,
          pl: if (5.in(empty)) Map() else r1.pl }
        val w = split(r)
        val q = { ...w,
          b0: if (w.b0 == []) [] else if (j == 1) [(plusDays(w.b0[0]._1, s), w.b0[0]._2)]
              else if (j == 9) [(p._2, w.b0[0]._2)] else w.b0,
          b1: if (w.b1 == []) [] else if (j == 2) [(plusDays(w.b1[0]._1, s), w.b1[0]._2)]
              else if (j == 9) [(p._1, w.b1[0]._2)] else w.b1,
          pl: if (j == 3) ((plusDays(p._1, s), p._2), r.pl) else if (j == 4) ((p._1, plusDays(p._2, s)), r.pl)
              else if (j == 10) ((p._2, p._1), r.pl) else w.pl,
          cf: if (w.cf == []) [] else if (j == 5) [((plusDays(p._1, s), p._2), w.cf[0]._2)]
              else if (j == 6) [((p._1, plusDays(p._2, s)), w.cf[0]._2)] else w.cf,
          ot: if (w.ot == []) [] else if (j == 7) [((plusDays(p._1, s), p._2), w.ot[0]._2)]
              else if (j == 8) [((p._1, plusDays(p._2, s)), w.ot[0]._2)]
              else if (j == 11) [((p._2, p._1), w.ot[0]._2)] else w.ot,
        }
        ask({ ...o("Together"), per: p }, [r], [{ parts: q, whole: assemble(q) }], [], [])
      },
    }
  }
  action recalcReport1 = {
    nondet p = books.pl.keys().oneOf()
    all {
      books.pl.keys() != Set(),
      hasRates(books, p),
      ask({ ...o("RecalcReport"), per: p }, [recalcReport(scale, report(books, p)[0])], [], [], []),
    }
  }

  action restrictTo = {
    nondet is = 0.to(N).powerset().oneOf()
    nondet odd = Set(true, false, false).oneOf()
    val ps0 = is.map(i => periodsOf(uni)[i])
    val ps = if (odd) ps0.union(Set((uni[3], plusDays(uni[1], 3)))) else ps0
    ask(o("FromPeriods"), [], [], inOrder(ps), [restrict(books, ps)])
  }
  action restrictPl = ask(o("ConsecutivePl"), [], [], chain(books.pl.keys()), [restrict(books, asSet(chain(books.pl.keys())))])
  action restrictCf = ask(o("ConsecutiveCf"), [], [], chain(books.cf.keys()), [restrict(books, asSet(chain(books.cf.keys())))])

  action show = all {
    scale' = scale, uni' = uni, books' = books, asked' = [], taken' = [], chosen' = [], sub' = [],
    op' = o("Show"), shown' = tableOf(scale, books),
  }

  /** printed for people: op.amount is the power of 1000 in which */
  action printed = all {
    scale' = scale, uni' = uni, books' = books, asked' = [], taken' = [], chosen' = [], sub' = [],
    op' = { ...o("Print"), amount: printUnit(scale, books) }, shown' = tableOf(scale, books),
  }
  /** a total at or near a power of ten, or none */
  action brink = {
    nondet d = books.bs.keys().union(Set(0)).oneOf()
    nondet p = books.pl.keys().union(Set((0, 0))).oneOf()
    nondet sheet = Set(true, false).oneOf()
    nondet k = 0.to(14).oneOf()
    nondet lead = Set(1, 2, 5, 9).oneOf()
    nondet h = (-3).to(3).oneOf()
    nondet sign = (-2).to(6).oneOf()
    val e = if (scale == 0) k else k % 10
    val v0 = (10^e * (if (h == 0) lead else 1) * 2 + h) * 2^(7 - scale)
    val v = if (sign == 0) 0 else if (sign < 0) -v0 else v0
    if (sheet) all { d != 0, now({ ...o("Stale"), kind: "BS", date: d, line: "Assets", amount: v }, withBs(books, d, "Assets", v)) }
    else all { p != (0, 0), now({ ...o("Stale"), kind: "PL", per: p, line: "Revenue", amount: v }, withPl(books, p, "Revenue", v)) }
  }
  /** all sheets or all profit and loss statements are gone */
  action bare = {
    nondet w = 1.to(3).oneOf()
    now(o("Enter"), { ...books, bs: if (w == 1) books.bs else Map(), pl: if (w == 2) books.pl else Map() })
  }
  action restock = all {
    books.bs.keys() == Set(),
    now(o("Enter"), { ...books, bs: Set(0, 2).map(i => (uni[i], Map("Cash" -> 256000 * (i + 1), "RetainedEarnings" -> 512))).setToMap() }),
  }

  pure def yearsBack(d: int, n: int): int = mk(yearOf(d) - n, monthOf(d), lesser(dayOf(d), monthDays(yearOf(d) - n, monthOf(d))))
  pure def spanBack(p: Period, n: int): Period = (yearsBack(p._1, n), yearsBack(p._2, n))
  pure def larger(m: Stmt, i: int): Stmt = m.keys().mapBy(l => m.get(l) * (i + 1))
  pure def keep(m: a -> Stmt, k: a, v: Stmt): a -> Stmt = if (k.in(m.keys())) m else m.put(k, v)
  pure def again(n: int, f: (int, int -> Stmt) => int -> Stmt): int -> Stmt = range(0, n + 1).foldl(Map(), (m, i) => f(i, m))
  pure def againP(n: int, f: (int, Period -> Stmt) => Period -> Stmt): Period -> Stmt = range(0, n + 1).foldl(Map(), (m, i) => f(i, m))
  /** every statement again, some years back, a little larger */
  action broaden = {
    nondet n = 1.to(3).oneOf()
    nondet k = 1.to(3).oneOf()
    all {
      books.bs.keys().size() + books.pl.keys().size() + books.cf.keys().size() < 24,
      now(o("Enter"), { ...books,
        bs: again(n, (i, m) => books.bs.keys().fold(m, (a, d) => keep(a, yearsBack(d, i * k), larger(books.bs.get(d), i)))),
        pl: againP(n, (i, m) => books.pl.keys().fold(m, (a, p) => keep(a, spanBack(p, i * k), larger(books.pl.get(p), i)))),
        cf: againP(n, (i, m) => books.cf.keys().fold(m, (a, p) => keep(a, spanBack(p, i * k), larger(books.cf.get(p), i)))),
        ot: againP(n, (i, m) => books.ot.keys().fold(m, (a, p) => keep(a, spanBack(p, i * k), books.ot.get(p)))),
      }),
    }
  }

  /** a few of its lines */
  pure def brief(m: Stmt, i: int): Stmt = m.keys().intersect(Set("Revenue", "OperatingRevenue", "Salaries", "Assets", "Cash", "RetainedEarnings")).mapBy(l => m.get(l) * i)
  /** a long record: some statement again in each of many years back, once four times as large */
  action longAgo = {
    nondet p = books.pl.keys().union(Set((0, 0))).oneOf()
    nondet d = books.bs.keys().union(Set(0)).oneOf()
    nondet n = Set(8, 13, 13, 22).oneOf()
    nondet big = 1.to(13).oneOf()
    nondet part = 1.to(2).oneOf()
    nondet rare = 0.to(2).oneOf()
    all {
      rare == 0, books.bs.keys().size() + books.pl.keys().size() < 8,
      now(o("Enter"), { ...books,
        bs: if (d == 0 or part == 1) books.bs else range(1, n + 1).foldl(books.bs, (m, i) => keep(m, yearsBack(d, i), brief(books.bs.get(d), if (i == big) 4 else 1))),
        pl: if (p == (0, 0) or part == 2) books.pl else range(1, n + 1).foldl(books.pl, (m, i) => keep(m, spanBack(p, i), brief(books.pl.get(p), if (i == big) 4 else 1))),
      }),
    }
  }

  action history = any { enterOne, newBs, newPl, firstPl, dropBs, otherRates, stale }
  action stepPut = any {                     // C10
    longAgo, enterOne, enterOne, putDerived, history, recalculate, cashFlows, cashFlows, rates, tax, removeCalculatedLines, collect,
  }
  action stepEdits = any {                   // C02
    enterOne, enterOne, putDerived, putDerived, history, recalculate,
  }
  action stepTax = any {                     // C07
    tax, tax, longAgo, rates, partRates, partRates, enterOne, history, recalculate, removeCalculatedLines,
  }
  action stepClean = any { removeCalculatedLines, removeCalculatedLines, longAgo, enterOne, history, recalculate, cashFlows, rates, tax }   // C08
  action stepReports = any {                 // C11
    report1, report1, reportAll, together, together, together, recalcReport1, recalcReport1, history, cashFlows, rates, tax, bare, restock, longAgo,
  }
  action stepRestrict = any {                // C14
    restrictTo, restrictPl, restrictPl, restrictCf, history, bare, restock, broaden, longAgo, newPl, cashFlows, rates,
  }

  action stepTable = any {                   // C16
    show, show, history, broaden, longAgo, newPl, recalculate, cashFlows, rates, tax, removeCalculatedLines,
  }

  action stepPrint = any {                   // C36
    printed, printed, printed, brink, brink, brink, all { op.name == "Print", bare }, restock, history, recalculate, rates,
    longAgo,
  }

  // ----------------------------------------------------------------- invariants

  val reportsInv: bool = and {
    op.name == "Reports" implies and {
      asked.length() == books.pl.keys().size(),
      asked.indices().forall(i => and {
        i > 0 implies before(asked[i - 1].period, asked[i].period),
        asked[i].pl == books.pl.get(asked[i].period),
      }),
    },
    // taking a report apart and putting it together again gives it back
    asked.indices().forall(i => assemble(split(asked[i])) == [asked[i]]),
    // what is assembled consists of the parts
    taken.indices().forall(i => taken[i].whole != [] implies split(taken[i].whole[0]) == taken[i].parts),
    // recalculating the report is the report of the recalculated accounts
    op.name == "RecalcReport" implies {
      val b = calcElements(scale, books)
      val r = asked[0]
      val w = report(b, op.per)[0]
      and {
        r.b0 == w.b0, r.b1 == w.b1, r.pl == w.pl, r.ot == w.ot,
        r.b0 != [] and r.b1 != [] implies
          [r] == report(calcCashFlow(scale, { ...b, pl: Map(op.per -> b.pl.get(op.per)) }), op.per),
      }
    },
  }
  val restrictInv: bool = sub.indices().forall(i => and {
    sub[i].pl.keys() == books.pl.keys().intersect(asSet(chosen)),
    sub[i].pl.keys().forall(p => sub[i].pl.get(p) == books.pl.get(p)),
    sub[i].bs.keys().forall(d => d.in(sub[i].dates) and sub[i].bs.get(d) == books.bs.get(d)),
    op.name == "ConsecutivePl" implies sub[i].pl.keys() == asSet(chosen),
    op.name == "ConsecutiveCf" implies sub[i].cf.keys() == asSet(chosen),
  })
  val calcInv: bool = and {
    op.name == "CalcElements" implies and {
      books.bs.keys().forall(d => isRecalculated(scale - 8, BS_ROWS, books.bs.get(d))),
      books.pl.keys().forall(p => isRecalculated(scale - 8, PL_ROWS, books.pl.get(p))),
      books.cf.keys().forall(p => isRecalculated(scale - 8, CF_ROWS, books.cf.get(p))),
    },
    op.name == "CalcCashFlow" implies flowing(books).forall(p => p.in(books.cf.keys())),
    // never below the minimum tax, never below zero with rates and revenue that are not negative
    op.name == "CalcTax" implies books.pl.keys().forall(p =>
      256 * amountOf(books.pl.get(p), "TaxesCurrent") >=
        ratesOf(books.ot.get(p)).rev * amountOf(books.pl.get(p), "Revenue")),
    op.name == "RemoveCalc" implies books.pl.keys().forall(p => books.pl.get(p).keys().intersect(PL_DERIVED) == Set()),
  }
  val tableInv: bool = shown.indices().forall(i => shown[i].rows.indices().forall(j =>
    shown[i].rows[j].cells.length() == shown[i].spans.length()))
  val printInv: bool = op.name == "Print" implies rightUnit(largestTotal(scale, books), op.amount)
  val inv: bool = printInv and reportsInv and restrictInv and calcInv and tableInv
}
