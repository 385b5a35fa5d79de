// -*- mode: quint -*-
/** What the operations on one statement mean: pure functions on finite maps from
 *  lines to amounts. Amounts are integers in units of 2^scale. */
module semantics {
  import chart.* from "./chart"

  type Stmt = str -> int

  // ------------------------------------------------------------ pure semantics

  pure def absI(x: int): int = if (x < 0) -x else x

  /** smallest magnitude in units of 2^scale that exceeds 1e-5 */
  pure def minSignificant(scale: int): int =
    if (scale == -20) 11 else if (scale == -17) 2
    else if (scale == -28) 2685 else if (scale == -25) 336
    else 1

  pure def significant(scale: int, v: int): bool = absI(v) >= minSignificant(scale)

  pure def rowsOf(kind: str): List[Row] =
    if (kind == "BS") BS_ROWS else if (kind == "PL") PL_ROWS else CF_ROWS
  pure def derived(kind: str): Set[str] =
    if (kind == "BS") BS_DERIVED else if (kind == "PL") PL_DERIVED else CF_DERIVED
  pure def entered(kind: str): Set[str] =
    if (kind == "BS") BS_ENTERED else if (kind == "PL") PL_ENTERED else CF_ENTERED
  pure def linesOf(kind: str): Set[str] =
    if (kind == "BS") BS else if (kind == "PL") PL else CF
  pure def baseOf(kind: str): str =
    if (kind == "BS") "Assets" else if (kind == "PL") "Revenue" else "NetCashFlow"

  pure def amountOf(s: Stmt, k: str): int = if (k.in(s.keys())) s.get(k) else 0
  pure def total(s: Stmt, ks: List[str]): int = ks.foldl(0, (a, k) => a + amountOf(s, k))
  pure def drop(s: Stmt, k: str): Stmt = s.keys().exclude(Set(k)).mapBy(j => s.get(j))
  pure def keepOnly(s: Stmt, p: (str, int) => bool): Stmt =
    s.keys().filter(k => p(k, s.get(k))).mapBy(k => s.get(k))

  pure def setDerived(scale: int, s: Stmt, k: str, v: int): Stmt =
    if (significant(scale, v)) s.put(k, v) else if (k.in(s.keys())) drop(s, k) else s

  /** recalculation: components before totals, negligible totals vanish */
  pure def recalc(scale: int, rows: List[Row], s: Stmt): Stmt =
    rows.foldl(s, (a, r) => setDerived(scale, a, r.line, total(a, r.plus) - total(a, r.minus)))

  pure def post(s: Stmt, k: str, v: int): Stmt = s.put(k, amountOf(s, k) + SIDE.get(k) * v)
  pure def transactOne(s: Stmt, d: str, c: str, v: int): Stmt = post(post(s, d, v), c, -v)

  pure def removeCalc(scale: int, ks: Set[str], s: Stmt): Stmt =
    keepOnly(s, (k, v) => not(k.in(ks)) and significant(scale, v))
  pure def clean(scale: int, s: Stmt): Stmt = keepOnly(s, (k, v) => significant(scale, v))

  /** the fixpoint property that defines a recalculated statement */
  pure def isRecalculated(scale: int, rows: List[Row], s: Stmt): bool =
    rows.toSetR().forall(r => {
      val t = total(s, r.plus) - total(s, r.minus)
      if (significant(scale, t)) r.line.in(s.keys()) and s.get(r.line) == t
      else not(r.line.in(s.keys()))
    })
  pure def toSetR(l: List[Row]): Set[Row] = l.foldl(Set(), (s, x) => s.union(Set(x)))

  /** assets - liabilities - equity at the level of the entered lines */
  pure def imbalance(s: Stmt): int =
    s.keys().intersect(BS_ENTERED).fold(0, (a, k) => a + SIDE.get(k) * s.get(k))

  // ------------------------------------------------ cash flow from two balance sheets

  /** tax rates in units of 2^-8 */
  type Rates = { corp: int, gross: int, rev: int }

  pure def maxI(a: int, b: int): int = if (a >= b) a else b
  pure def minI(a: int, b: int): int = if (a <= b) a else b

  pure def adjDepreciation(pl: Stmt): int =
    if ("TaxDepreciation".in(pl.keys())) amountOf(pl, "Depreciation") - amountOf(pl, "TaxDepreciation") else 0

  pure def interestOf(pl: Stmt): int = amountOf(pl, "InterestExpense") + amountOf(pl, "CostDebt")

  /** Sources are in units of 2^scale, the cash flow in units of 2^(scale-8), so
   *  that rate times amount is a whole number. An interest below the threshold is
   *  dropped before it enters the shield. */
  pure def shieldOf(scale: int, pl: Stmt, r: Rates): int = {
    val i = interestOf(pl)
    val intr = if (significant(scale, i)) i else 0
    val normal = r.corp * (amountOf(pl, "EBT") + intr + adjDepreciation(pl)) + r.gross * amountOf(pl, "GrossProfit")
    minI(r.corp * intr, maxI(0, normal - r.rev * amountOf(pl, "Revenue")))
  }

  pure def deriveCf(scale: int, b0: Stmt, b1: Stmt, pl: Stmt, r: Rates): Stmt = {
    val c1 = CF_FROM_PL.foldl(Map(), (m, w) =>
      setDerived(scale - 8, m, w.line, 256 * (total(pl, w.plus) - total(pl, w.minus))))
    val c2 = CF_FROM_BS.foldl(c1, (m, w) =>
      setDerived(scale - 8, m, w.line,
        256 * (total(b1, w.plus) - total(b1, w.minus) - total(b0, w.plus) + total(b0, w.minus))))
    c2.put("CashFlowTaxShield", shieldOf(scale, pl, r))
  }

  /** statement multiplied by an integer (change of units) */
  pure def times(n: int, s: Stmt): Stmt = s.keys().mapBy(k => n * s.get(k))
}
