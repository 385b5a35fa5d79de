// -*- mode: quint -*-
/** A set of accounts: statements by date and by period, tax rates and ratios by
 *  period. What the operations on accounts mean, as pure functions.
 *  Amounts are in units of 2^(scale-8), rates and ratios in units of 2^-8.
 *  Amounts that are entered are multiples of 256, so that rate times amount is
 *  a whole number again. */
module books {
  import chart.* from "./chart"
  import dates.* from "./dates"
  import intervals.* from "./intervals"
  import semantics.* from "./semantics"

  type Books = {
    currency: str, consolidated: bool, dates: Set[int],
    bs: int -> Stmt, pl: Period -> Stmt, cf: Period -> Stmt, ot: Period -> Stmt
  }
  /** parts that may be missing are lists of at most one element */
  type Report = { period: Period, b0: List[Stmt], b1: List[Stmt], pl: Stmt, cf: List[Stmt], ot: List[Stmt] }
  type Parts = {
    b0: List[(int, Stmt)], b1: List[(int, Stmt)], pl: (Period, Stmt),
    cf: List[(Period, Stmt)], ot: List[(Period, Stmt)]
  }

  pure val TAX_RATES: Set[str] = Set("CorporateTaxRate", "GrossProfitTaxRate", "RevenueTaxRate")

  pure def ratesOf(o: Stmt): Rates = {
    corp: amountOf(o, "CorporateTaxRate"), gross: amountOf(o, "GrossProfitTaxRate"), rev: amountOf(o, "RevenueTaxRate")
  }
  pure def hasRates(b: Books, p: Period): bool = p.in(b.ot.keys()) and TAX_RATES.subseteq(b.ot.get(p).keys())

  // ------------------------------------------------------------- recalculation

  pure def recalcBs(scale: int, m: int -> Stmt): int -> Stmt =
    m.keys().mapBy(d => recalc(scale - 8, BS_ROWS, m.get(d)))
  pure def recalcPer(scale: int, rows: List[Row], m: Period -> Stmt): Period -> Stmt =
    m.keys().mapBy(p => recalc(scale - 8, rows, m.get(p)))

  pure def calcElements(scale: int, b: Books): Books =
    { ...b, bs: recalcBs(scale, b.bs), pl: recalcPer(scale, PL_ROWS, b.pl), cf: recalcPer(scale, CF_ROWS, b.cf) }

  pure def removeCalculated(scale: int, b: Books): Books = { ...b,
    bs: b.bs.keys().mapBy(d => removeCalc(scale - 8, BS_DERIVED, b.bs.get(d))),
    pl: b.pl.keys().mapBy(p => removeCalc(scale - 8, PL_DERIVED, b.pl.get(p))),
    cf: b.cf.keys().mapBy(p => removeCalc(scale - 8, CF_DERIVED, b.cf.get(p))),
  }

  // ----------------------------------------------------------------- cash flow

  /** as in semantics.deriveCf, with all amounts in the fine unit */
  pure def shieldFine(scale: int, pl: Stmt, r: Rates): int = {
    val i = interestOf(pl)
    val intr = if (significant(scale - 8, i)) i else 0
    val normal = r.corp * (amountOf(pl, "EBT") + intr + adjDepreciation(pl)) + r.gross * amountOf(pl, "GrossProfit")
    minI(r.corp * intr, maxI(0, normal - r.rev * amountOf(pl, "Revenue"))) / 256
  }
  pure def deriveFine(scale: int, b0: Stmt, b1: Stmt, pl: Stmt, r: Rates): Stmt = {
    val c1 = CF_FROM_PL.foldl(Map(), (m, w) =>
      setDerived(scale - 8, m, w.line, total(pl, w.plus) - total(pl, w.minus)))
    val c2 = CF_FROM_BS.foldl(c1, (m, w) =>
      setDerived(scale - 8, m, w.line,
        total(b1, w.plus) - total(b1, w.minus) - total(b0, w.plus) + total(b0, w.minus)))
    recalc(scale - 8, CF_ROWS, c2.put("CashFlowTaxShield", shieldFine(scale, pl, r)))
  }

  /** the periods whose cash flow can be derived */
  pure def flowing(b: Books): Set[Period] =
    b.pl.keys().filter(p => p._1.in(b.bs.keys()) and p._2.in(b.bs.keys()))
  pure def calcCashFlow(scale: int, b: Books): Books = {
    val ps = flowing(b)
    { ...b, cf: b.cf.keys().union(ps).mapBy(p =>
      if (p.in(ps)) deriveFine(scale, b.bs.get(p._1), b.bs.get(p._2), b.pl.get(p), ratesOf(b.ot.get(p)))
      else b.cf.get(p)) }
  }

  // ----------------------------------------------------------------------- tax

  pure def setTaxRates(b: Books, r: Rates): Books = { ...b,
    ot: b.ot.keys().union(b.pl.keys()).mapBy(p => {
      val o = if (p.in(b.ot.keys())) b.ot.get(p) else Map()
      if (p.in(b.pl.keys())) o.put("CorporateTaxRate", r.corp).put("GrossProfitTaxRate", r.gross).put("RevenueTaxRate", r.rev)
      else o
    }) }

  /** the higher of normal and minimum tax of a recalculated statement */
  pure def taxOf(pl: Stmt, r: Rates): int =
    maxI(r.corp * (amountOf(pl, "EBT") + adjDepreciation(pl)) + r.gross * amountOf(pl, "EBITDA"),
         r.rev * amountOf(pl, "Revenue")) / 256

  pure def calcTax(scale: int, b: Books): Books = {
    val c = calcElements(scale, b)
    { ...c, pl: c.pl.keys().mapBy(p => c.pl.get(p).put("TaxesCurrent", taxOf(c.pl.get(p), ratesOf(c.ot.get(p))))) }
  }

  // ------------------------------------------------------------------- reports

  pure def atDate(m: int -> Stmt, d: int): List[Stmt] = if (d.in(m.keys())) [m.get(d)] else []
  pure def atPeriod(m: Period -> Stmt, p: Period): List[Stmt] = if (p.in(m.keys())) [m.get(p)] else []

  pure def report(b: Books, p: Period): List[Report] =
    if (p.in(b.pl.keys()))
      [{ period: p, b0: atDate(b.bs, p._1), b1: atDate(b.bs, p._2), pl: b.pl.get(p),
         cf: atPeriod(b.cf, p), ot: atPeriod(b.ot, p) }]
    else []

  pure def inOrder(ps: Set[Period]): List[Period] = ps.fold([], (l, p) => insert(l, p))
  pure def reports(b: Books): List[Report] = inOrder(b.pl.keys()).foldl([], (l, p) => l.concat(report(b, p)))

  pure def dated(k: int, l: List[Stmt]): List[(int, Stmt)] = if (l == []) [] else [(k, l[0])]
  pure def spanning(p: Period, l: List[Stmt]): List[(Period, Stmt)] = if (l == []) [] else [(p, l[0])]
  pure def split(r: Report): Parts = {
    b0: dated(r.period._1, r.b0), b1: dated(r.period._2, r.b1), pl: (r.period, r.pl),
    cf: spanning(r.period, r.cf), ot: spanning(r.period, r.ot),
  }
  pure def agrees(q: Parts): bool = {
    val p = q.pl._1
    and {
      q.b0 == [] or q.b0[0]._1 == p._1,
      q.b1 == [] or q.b1[0]._1 == p._2,
      q.cf == [] or q.cf[0]._1 == p,
      q.ot == [] or q.ot[0]._1 == p,
    }
  }
  pure def part(l: List[(int, Stmt)]): List[Stmt] = if (l == []) [] else [l[0]._2]
  pure def partP(l: List[(Period, Stmt)]): List[Stmt] = if (l == []) [] else [l[0]._2]
  pure def assemble(q: Parts): List[Report] =
    if (agrees(q)) [{ period: q.pl._1, b0: part(q.b0), b1: part(q.b1), pl: q.pl._2, cf: partP(q.cf), ot: partP(q.ot) }]
    else []

  pure def recalcAll(scale: int, rows: List[Row], l: List[Stmt]): List[Stmt] =
    if (l == []) [] else [recalc(scale - 8, rows, l[0])]
  /** without both balance sheets the cash flow is not specified (here: none) */
  pure def recalcReport(scale: int, r: Report): Report = {
    val b0 = recalcAll(scale, BS_ROWS, r.b0)
    val b1 = recalcAll(scale, BS_ROWS, r.b1)
    val pl = recalc(scale - 8, PL_ROWS, r.pl)
    { ...r, b0: b0, b1: b1, pl: pl,
      cf: if (b0 == [] or b1 == []) [] else [deriveFine(scale, b0[0], b1[0], pl, ratesOf(r.ot[0]))] }
  }

  // ---------------------------------------------------------------- restriction

  pure def restrict(b: Books, ps: Set[Period]): Books = {
    val ds = ps.map(p => p._1).union(ps.map(p => p._2))
    { ...b, dates: ds,
      bs: b.bs.keys().intersect(ds).mapBy(d => b.bs.get(d)),
      pl: b.pl.keys().intersect(ps).mapBy(p => b.pl.get(p)),
      cf: b.cf.keys().intersect(ps).mapBy(p => b.cf.get(p)),
      ot: b.ot.keys().intersect(ps).mapBy(p => b.ot.get(p)) }
  }

  pure def collected(b: Books): Set[int] =
    b.dates.union(b.pl.keys().map(p => p._1)).union(b.pl.keys().map(p => p._2))
}
