// -*- mode: quint -*-
/** Two balance sheets, a profit and loss statement between them, and the cash
 *  flow statement derived from the three. The statements change by edits,
 *  transactions, recalculations and by rolling on to the next period, so cash
 *  flows are derived from statements with history (stale totals, vanished lines,
 *  balanced and unbalanced sheets). */
module cashflow {
  import chart.* from "./chart"
  import semantics.* from "./semantics"

  type Op = { name: str, which: str, line: str, other: str, amount: int }

  var scale: int
  var b0: Stmt        // opening balance sheet, units 2^scale
  var b1: Stmt        // closing balance sheet, units 2^scale
  var pl: Stmt        // profit and loss, units 2^scale
  var rates: Rates    // units 2^-8
  var cf: Stmt        // cash flow, units 2^(scale-8)
  var op: Op

  pure def bound(z: int): int = if (z == 3) 0 else if (z == 0) 14 else if (z == 1) 3000000 else 2000000000
  pure def o(name: str): Op = { name: name, which: "", line: "", other: "", amount: 0 }

  // ---------------------------------------------------------------- loading

  pure def steeper(n: int, r: Rates): Rates =
    if (n == 0) { ...r, corp: 250 + r.corp } else if (n == 1) { ...r, gross: 200 + 4 * r.gross }
    else if (n == 2) { ...r, rev: 200 + 4 * r.rev } else r

  action load(nonNeg: bool): bool = {
    nondet sc = Set(-20, -17, 0, 30).oneOf()
    nondet z = Set(0, 1, 1, 2).oneOf()
    nondet full = Set(true, false).oneOf()
    nondet bks = BS_ENTERED.powerset().oneOf()
    nondet pks = PL_ENTERED.powerset().oneOf()
    nondet stale = PL_DERIVED.powerset().oneOf()
    nondet f = BS_ENTERED.setOfMaps((-bound(z)).to(bound(z))).oneOf()
    nondet g = BS_ENTERED.setOfMaps((-bound(z)).to(bound(z))).oneOf()
    nondet small = BS_ENTERED.setOfMaps((-13).to(13)).oneOf()
    nondet moved = BS_ENTERED.powerset().oneOf()
    nondet little = BS_ENTERED.powerset().oneOf()
    nondet h = PL.setOfMaps((-bound(z)).to(bound(z))).oneOf()
    nondet rs = tuples(0.to(256), 0.to(64), 0.to(64)).oneOf()
    nondet steep = 0.to(11).oneOf()            // seldom rates of 100 % and more
    nondet odd = tuples(Set(0, 1, 2).powerset(), Set(true, false)).oneOf()
    nondet rec = Set(true, false).oneOf()
    nondet only = tuples(BS_ENTERED.powerset(), BS_ENTERED.powerset(), 0.to(9)).oneOf()
    val bk = if (full) BS_ENTERED else bks
    // lines may be on one sheet only; a sheet or the profit and loss may be empty
    val bk0 = if (only._3 == 0) Set() else if (only._3 < 4) bk.exclude(only._1) else bk
    val bk1 = if (only._3 == 1) Set() else if (only._3 > 1 and only._3 < 5) bk.exclude(only._2) else bk
    val pk = if (only._3 == 9) Set() else (if (full) PL_ENTERED else pks).union(stale)
    val plx = pk.mapBy(k => if (nonNeg and k.in(Set("InterestExpense", "CostDebt"))) absI(h.get(k)) else h.get(k))
    val s0 = bk0.mapBy(k => f.get(k))
    val s1 = bk1.mapBy(k => if (k.in(little)) f.get(k) + small.get(k) else if (k.in(moved)) g.get(k) else f.get(k))
    all {
      scale' = sc, b0' = s0, b1' = s1,
      pl' = if (rec) recalc(sc, PL_ROWS, plx) else plx,
      rates' = steeper(steep, { corp: if (0.in(odd._1)) 0 else rs._1, gross: if (1.in(odd._1)) 0 else rs._2,
                 rev: if (2.in(odd._1)) 0 else rs._3 }),
      cf' = Map(), op' = o("Load"),
    }
  }

  // ---------------------------------------------------------------- actions

  action keepAll = all { scale' = scale, b0' = b0, b1' = b1, pl' = pl, rates' = rates, cf' = cf }

  action setBs(closing: bool): bool = {
    nondet k = BS_ENTERED.oneOf()
    nondet z = 0.to(3).oneOf()
    nondet v = (-bound(z)).to(bound(z)).oneOf()
    all {
      scale' = scale, rates' = rates, pl' = pl, cf' = cf,
      b0' = if (closing) b0 else b0.put(k, v),
      b1' = if (closing) b1.put(k, v) else b1,
      op' = { name: "SetBs", which: if (closing) "b1" else "b0", line: k, other: "", amount: v },
    }
  }
  action setPl(nonNeg: bool): bool = {
    nondet k = PL_ENTERED.oneOf()
    nondet z = 0.to(3).oneOf()
    nondet v0 = (-bound(z)).to(bound(z)).oneOf()
    val v = if (nonNeg and k.in(Set("InterestExpense", "CostDebt"))) absI(v0) else v0
    all {
      scale' = scale, rates' = rates, b0' = b0, b1' = b1, cf' = cf, pl' = pl.put(k, v),
      op' = { name: "SetPl", which: "pl", line: k, other: "", amount: v },
    }
  }
  action transact: bool = {
    nondet d = BS_ENTERED.oneOf()
    nondet c = BS_ENTERED.oneOf()
    nondet z = 0.to(3).oneOf()
    nondet v = (-bound(z)).to(bound(z)).oneOf()
    all {
      scale' = scale, rates' = rates, b0' = b0, pl' = pl, cf' = cf, b1' = transactOne(b1, d, c, v),
      op' = { name: "Transact", which: "b1", line: d, other: c, amount: v },
    }
  }
  /** the closing sheet becomes the opening one: a period of transactions begins */
  action roll: bool = all {
    scale' = scale, rates' = rates, b0' = b1, b1' = b1, pl' = pl, cf' = cf, op' = o("Roll"),
  }
  action recalcBs: bool = all {
    scale' = scale, rates' = rates, b0' = recalc(scale, BS_ROWS, b0), b1' = recalc(scale, BS_ROWS, b1),
    pl' = pl, cf' = cf, op' = o("RecalcBs"),
  }
  action recalcPl: bool = all {
    scale' = scale, rates' = rates, b0' = b0, b1' = b1, pl' = recalc(scale, PL_ROWS, pl), cf' = cf, op' = o("RecalcPl"),
  }
  action setRates: bool = {
    nondet rs = tuples(0.to(256), 0.to(64), 0.to(64)).oneOf()
    nondet steep = 0.to(11).oneOf()
    all {
      scale' = scale, b0' = b0, b1' = b1, pl' = pl, cf' = cf,
      rates' = steeper(steep, { corp: rs._1, gross: rs._2, rev: rs._3 }), op' = o("SetRates"),
    }
  }
  action derive: bool = all {
    scale' = scale, rates' = rates, b0' = b0, b1' = b1, pl' = pl,
    cf' = deriveCf(scale, b0, b1, pl, rates), op' = o("Derive"),
  }
  action totals: bool = all {
    op.name == "Derive",
    scale' = scale, rates' = rates, b0' = b0, b1' = b1, pl' = pl,
    cf' = recalc(scale - 8, CF_ROWS, cf), op' = o("Totals"),
  }

  action init = load(false)
  action step = if (op.name == "Derive") totals else any {
    setBs(true), setBs(false), setPl(false), transact, transact, roll, recalcBs, recalcPl, setRates, derive, derive, derive
  }
  /** C06: interest and rates not negative; totals mostly fresh */
  action initShield = load(true)
  action stepShield = if (op.name == "Derive") totals else any {
    setBs(true), setPl(true), setPl(true), recalcPl, recalcPl, setRates, derive, derive, derive
  }

  // -------------------------------------------------------------- invariants

  val dCash: int = amountOf(b1, "Cash") - amountOf(b0, "Cash")
  val dImbalance: int = imbalance(b1) - imbalance(b0)
  /** 21 assigned lines and 3 subtotals of at most 1e-5 each may vanish */
  val slack: int = if (scale >= 0) 0 else 25 * minSignificant(scale - 8)

  /** the cash flow articulates with the balance sheets */
  val reconciles: bool =
    op.name == "Totals" implies absI(amountOf(cf, "NetCashFlow") - 256 * (dCash - dImbalance)) <= slack
  val freeCashFlows: bool =
    op.name == "Totals" implies
      absI(amountOf(cf, "FreeCashFlowFirm") - amountOf(cf, "FreeCashFlowEquity") - amountOf(cf, "CashFlowDebt")
           + amountOf(cf, "CashFlowTaxShield")) <= slack
  val shieldBounds: bool =
    op.name == "Derive" and interestOf(pl) >= 0 implies and {
      amountOf(cf, "CashFlowTaxShield") >= 0,
      amountOf(cf, "CashFlowTaxShield") <= rates.corp * interestOf(pl),
    }
  val inv: bool = reconciles and freeCashFlows and shieldBounds
}
