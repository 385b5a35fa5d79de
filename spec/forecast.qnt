// -*- mode: quint -*-
/** A forecast rolled forward period by period. Each period's profit and loss and
 *  closing balance sheet are entered, the tax computed, the retained contribution
 *  carried into equity, the cash flow derived, and closing cash set to opening cash
 *  plus net cash flow. Closed periods are posted to, revised and rolled again.
 *  Amounts are in units of 2^-8, entered ones multiples of 256. */
module forecast {
  import chart.* from "./chart"
  import dates.* from "./dates"
  import semantics.* from "./semantics"
  import books.* from "./books"

  /** what is entered for a period: all but tax, cash and retained earnings */
  type Entry = { pl: Stmt, bs: Stmt, rates: Rates }
  type Op = { name: str, at: int, entry: Entry, deb: str, crd: str, amount: int }

  var day: List[int]           // the dates of the balance sheets
  var opening: Stmt
  var entries: List[Entry]     // of the periods entered so far
  var books: Books
  var at: int                  // the period that is being rolled
  var phase: int               // 0 to enter, 1 to tax, 2 to carry, 3 to derive, 4 to close, 5 closed
  var op: Op
  var whole: List[Stmt]        // the cash flow over all periods, when it was asked for

  pure val NONE: Entry = { pl: Map(), bs: Map(), rates: { corp: 0, gross: 0, rev: 0 } }
  pure def o(name: str, i: int): Op = { name: name, at: i, entry: NONE, deb: "", crd: "", amount: 0 }

  pure val FREE_BS: Set[str] = BS_ENTERED.exclude(Set("Cash", "RetainedEarnings"))
  pure val FREE_PL: Set[str] = PL_ENTERED.exclude(Set("TaxesCurrent"))
  pure val KEY: Set[str] = Set("OperatingRevenue", "CostMaterial", "Salaries", "Depreciation", "TaxDepreciation", "InterestExpense",
    "Dividends", "GrossSalesPPE", "AccAmortSalesPPE", "SalesAmountPPE", "NetIncomeDiscontinuedOps",
    "PlantPropertyEquipment", "AccumulatedDepreciation", "RawMaterials", "LongTermBorrowings", "CurrentPayables", "CommonStock")
  pure val FREE: Set[str] = FREE_BS.union(FREE_PL)

  pure def drawn(z: int, r: int): int =
    256 * (if (r % 9 == 0) 0 else if (z == 0) r % 29 - 14 else if (z == 1) r - 500000 else if (z == 2) r else (r - 500000) * 4001)
  pure def stmtOf(lines: Set[str], dense: bool, z: int, pres: str -> int, amt: str -> int): Stmt =
    lines.filter(l => if (dense or l.in(KEY)) pres.get(l) < 6 else pres.get(l) == 0).mapBy(l => drawn(z, amt.get(l)))
  /** some lines as they were, the others anew */
  pure def mixed(old: Stmt, new: Stmt, pres: str -> int): Stmt =
    old.keys().filter(l => pres.get(l) % 2 == 0).union(new.keys()).mapBy(l =>
      if (l.in(old.keys()) and pres.get(l) % 2 == 0) old.get(l) else new.get(l))

  pure def span(d: List[int], i: int): (int, int) = (d[i], d[i + 1])
  pure def rateStmt(r: Rates): Stmt = Map("CorporateTaxRate" -> r.corp, "GrossProfitTaxRate" -> r.gross, "RevenueTaxRate" -> r.rev)

  // ------------------------------------------------------- the steps, on the books

  pure def entered1(b: Books, d: List[int], i: int, e: Entry): Books = { ...b,
    pl: b.pl.put(span(d, i), e.pl), bs: b.bs.put(d[i + 1], e.bs), ot: b.ot.put(span(d, i), rateStmt(e.rates)) }
  pure def taxed(b: Books): Books = calcElements(0, calcTax(0, b))
  pure def carried(b: Books, d: List[int], i: int): Books = { ...b, bs: b.bs.put(d[i + 1], b.bs.get(d[i + 1]).put("RetainedEarnings",
    amountOf(b.bs.get(d[i]), "RetainedEarnings") + amountOf(b.pl.get(span(d, i)), "ContributionRetainedEarnings"))) }
  pure def derived1(b: Books): Books = calcCashFlow(0, calcElements(0, b))
  pure def closed(b: Books, d: List[int], i: int): Books = calcElements(0, { ...b, bs: b.bs.put(d[i + 1], b.bs.get(d[i + 1]).put("Cash",
    amountOf(b.bs.get(d[i]), "Cash") + amountOf(b.cf.get(span(d, i)), "NetCashFlow"))) })

  pure val EMPTY: Books = { currency: "NGN", consolidated: true, dates: Set(), bs: Map(), pl: Map(), cf: Map(), ot: Map() }
  /** the books made from what was entered, once through */
  pure def fresh(d: List[int], op0: Stmt, es: List[Entry]): Books =
    range(0, es.length()).foldl({ ...EMPTY, bs: Map(d[0] -> op0) }, (b, i) =>
      closed(derived1(carried(taxed(entered1(b, d, i, es[i])), d, i)), d, i))

  // --------------------------------------------------------------------- the machine

  action init = {
    nondet n = Set(1, 3, 4, 5, 6).oneOf()
    nondet months = Set(1, 3, 6, 12).oneOf()
    nondet y = Set(1999, 2019, 2023, 2024).oneOf()
    nondet m = 1.to(12).oneOf()
    nondet dd = Set(1, 16, 28, 31).oneOf()
    nondet z = Set(0, 1, 2, 3).oneOf()
    nondet dense = 0.to(4).oneOf()
    nondet pres = FREE.setOfMaps(0.to(9)).oneOf()
    nondet amt = FREE.setOfMaps(0.to(999999)).oneOf()
    nondet c = 0.to(999999).oneOf()
    nondet balanced = 0.to(2).oneOf()
    val d0 = mk(y, m, lesser(dd, monthDays(y, m)))
    val ds = range(0, n + 1).foldl([], (l, i) => l.append(monthsAway(d0, months * i, dayOf(d0))))
    val s0 = stmtOf(FREE_BS, dense == 0, z, pres, amt).put("Cash", drawn(z, c))
    val s = if (balanced == 0) s0 else s0.put("RetainedEarnings", imbalance(s0))
    all {
      day' = ds, opening' = s, entries' = [], books' = { ...EMPTY, bs: Map(d0 -> s) }, at' = 0, phase' = 0,
      op' = { ...o("Open", 0), entry: { ...NONE, bs: s } }, whole' = [],
    }
  }

  action go(p: Op, b: Books, es: List[Entry], i: int, ph: int, w: List[Stmt]): bool = all {
    day' = day, opening' = opening, entries' = es, books' = b, at' = i, phase' = ph, op' = p, whole' = w,
  }

  /** figures for period i, on the sheet before them or anew */
  pure def figures(prev: Stmt, z: int, dense: bool, pres: str -> int, amt: str -> int, rs: (int, int, int), keep: bool): Entry = {
    val f = stmtOf(FREE_BS, dense, z, pres, amt)
    { pl: stmtOf(FREE_PL, dense, z, pres, amt), bs: if (keep) mixed(prev, f, pres) else f,
      rates: { corp: rs._1, gross: rs._2, rev: rs._3 } }
  }
  action enter = {
    nondet z = Set(0, 1, 2, 3).oneOf()
    nondet dense = 0.to(9).oneOf()
    nondet pres = FREE.setOfMaps(0.to(9)).oneOf()
    nondet amt = FREE.setOfMaps(0.to(999999)).oneOf()
    nondet rs = tuples(0.to(128), Set(0, 0, 5, 40), Set(0, 3, 60)).oneOf()
    nondet keep = Set(true, false).oneOf()
    val e = figures(if (at == 0) keepOnly(opening, (l, v) => l.in(FREE_BS)) else entries[at - 1].bs, z, dense == 0, pres, amt, rs, keep)
    go({ ...o("Enter", at), entry: e }, entered1(books, day, at, e), entries.append(e), at, 1, [])
  }
  /** figures that are there already */
  action resume = go(o("Resume", at), books, entries, at, 1, [])
  action roll = any {
    all { phase == 1, go(o("Tax", at), taxed(books), entries, at, 2, []) },
    all { phase == 2, go(o("Carry", at), carried(books, day, at), entries, at, 3, []) },
    all { phase == 3, go(o("Derive", at), derived1(books), entries, at, 4, []) },
    all { phase == 4, go(o("Close", at), closed(books, day, at), entries, at, 5, []) },
  }
  action onward = all { phase == 5, at + 2 < day.length(), go(o("Next", at + 1), books, entries, at + 1, 0, []) }
  /** computing anything once more */
  action again = all { phase == 5, at + 1 == entries.length(), go(o("Again", at), derived1(taxed(books)), entries, at, 5, []) }
  /** a transaction on the closing sheet: the cash flow has to be derived again */
  action post2 = {
    nondet dbt = FREE_BS.oneOf()
    nondet crd = FREE_BS.oneOf()
    nondet z = Set(0, 1, 2).oneOf()
    nondet r = 0.to(999999).oneOf()
    val v = drawn(z, r)
    all {
      go({ ...o("Post", at), deb: dbt, crd: crd, amount: v },
         { ...books, bs: books.bs.put(day[at + 1], transactOne(books.bs.get(day[at + 1]), dbt, crd, v)) },
         entries.replaceAt(at, { ...entries[at], bs: transactOne(entries[at].bs, dbt, crd, v) }), at, 3, []),
    }
  }
  /** other figures for an earlier period, from which everything is rolled again */
  action revise = {
    nondet i = Set(0, at - at / 2).oneOf()
    nondet z = Set(0, 1, 2, 3).oneOf()
    nondet pres = FREE.setOfMaps(0.to(9)).oneOf()
    nondet amt = FREE.setOfMaps(0.to(999999)).oneOf()
    nondet rs = tuples(0.to(128), Set(0, 0, 5, 40), Set(0, 3, 60)).oneOf()
    nondet keep = Set(true, false).oneOf()
    all {
      {
        val e = figures(entries[i].bs, z, false, pres, amt, rs, keep)
        go({ ...o("Revise", i), entry: e }, entered1(books, day, i, e), entries.replaceAt(i, e), i, 1, [])
      },
    }
  }
  /** one figure of the closed period put right, all that was computed left as it was */
  action amend = {
    nondet l = FREE_PL.oneOf()
    nondet k = KEY.intersect(FREE_PL).oneOf()
    nondet key = Set(true, false).oneOf()
    nondet z = Set(0, 1, 2).oneOf()
    nondet r = 0.to(999999).oneOf()
    val line = if (key) k else l
    val v = drawn(z, r)
    all {
      go({ ...o("Amend", at), deb: line, amount: v },
         { ...books, pl: books.pl.put(span(day, at), books.pl.get(span(day, at)).put(line, v)) },
         entries.replaceAt(at, { ...entries[at], pl: entries[at].pl.put(line, v) }), at, 1, []),
    }
  }
  /** one cash flow over all periods so far */
  action over = all {
    phase == 5, at + 1 == entries.length(),
    {
      val ps = range(0, at + 1)
      val pl = PL_ENTERED.filter(l => ps.foldl(false, (a, i) => a or l.in(books.pl.get(span(day, i)).keys()))).mapBy(l =>
        ps.foldl(0, (a, i) => a + amountOf(books.pl.get(span(day, i)), l)))
      val p = (day[0], day[at + 1])
      val b = derived1({ ...books, pl: books.pl.put(p, pl), ot: books.ot.put(p, rateStmt(entries[at].rates)) })
      go({ ...o("Over", at), entry: { ...NONE, pl: pl, rates: entries[at].rates } }, books, entries, at, 5, [b.cf.get(p)])
    },
  }
  action step =
    if (phase == 0) { if (at < entries.length()) resume else enter }
    else if (phase < 5) roll
    else if (at + 1 < entries.length()) any { onward, onward, onward, post2, amend }
    else any { onward, onward, onward, again, post2, revise, amend, over }

  // ---------------------------------------------------------------------- invariants

  val inv: bool = and {
    // every closed sheet is out of balance by as much as the opening one, and cash is what flowed
    range(0, if (phase == 5) at + 1 else at).foldl(true, (a, i) => a and
      imbalance(books.bs.get(day[i + 1])) == imbalance(opening) and
      amountOf(books.bs.get(day[i + 1]), "Cash") - amountOf(books.bs.get(day[i]), "Cash") == amountOf(books.cf.get(span(day, i)), "NetCashFlow")),
    // however it came about
    phase == 5 and at + 1 == entries.length() implies {
      val f = fresh(day, opening, entries)
      f.bs.keys().forall(d => recalc(-8, BS_ROWS, f.bs.get(d)) == recalc(-8, BS_ROWS, books.bs.get(d)))
      and f.pl == books.pl and f.cf == books.cf
    },
    // one flow over all is the flows of the periods
    whole.indices().forall(w => CF_ENTERED.exclude(Set("CashFlowTaxShield")).union(Set("NetCashFlow")).forall(l =>
      amountOf(whole[w], l) == range(0, at + 1).foldl(0, (a, i) => a + amountOf(books.cf.get(span(day, i)), l)))),
  }
}
