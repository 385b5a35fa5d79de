// -*- mode: quint -*-
/** The tabular report of a set of accounts: which lines appear, in which order,
 *  and what stands in each column. Pure. */
module table {
  import chart.* from "./chart"
  import intervals.* from "./intervals"
  import semantics.* from "./semantics"
  import books.* from "./books"

  /** a column whose period has no statement is blank; fractions are percentages */
  type Cell = { kind: str, value: int }
  type TableRow = { line: str, cells: List[Cell] }
  type Section = { title: str, spans: List[Period], rows: List[TableRow] }

  /** least total magnitude above 1e-4 in units of 2^(scale-8); the same for one
   *  amount to appear as a percentage */
  pure def minShown(fine: int): int = if (fine == -28) 26844 else if (fine == -25) 3356 else 1
  pure def one(fine: int): int = if (fine == -28) 2^28 else if (fine == -25) 2^25 else 256

  pure def magnitude(ss: List[Stmt], k: str): int = ss.foldl(0, (a, s) => a + absI(amountOf(s, k)))

  pure def cell(fine: int, l: List[Stmt], k: str): Cell =
    if (l == []) { kind: "blank", value: 0 }
    else {
      val v = amountOf(l[0], k)
      { kind: if (v >= minShown(fine) and v < one(fine)) "percent" else "number", value: v }
    }

  /** the lines of a chart, group by group: components, then their total */
  pure def listing(rows: List[Row]): List[str] =
    rows.foldl([], (l, r) => l.concat(r.plus).concat(r.minus).append(r.line))

  /** whole: the statements that make a line appear; cols: what the columns hold */
  pure def rowsFor(fine: int, names: List[str], whole: List[Stmt], cols: List[List[Stmt]]): List[TableRow] =
    names.select(k => magnitude(whole, k) >= minShown(fine)).foldl([], (l, k) =>
      l.append({ line: k, cells: cols.foldl([], (c, s) => c.append(cell(fine, s, k))) }))

  pure val TAX_LISTING: List[str] = ["CorporateTaxRate", "GrossProfitTaxRate", "RevenueTaxRate"]

  pure def valuesD(m: int -> Stmt): List[Stmt] = m.keys().fold([], (l, d) => l.append(m.get(d)))
  pure def valuesP(m: Period -> Stmt): List[Stmt] = m.keys().fold([], (l, p) => l.append(m.get(p)))
  pure def sortedDates(s: Set[int]): List[int] =
    s.fold([], (l, d) => l.select(x => x < d).append(d).concat(l.select(x => x > d)))

  pure def periodic(fine: int, kind: str, b: Books, ps: List[Period]): List[Section] = {
    val cols = ps.foldl([], (l, p) => l.append(atPeriod(b.pl, p)))
    val ot = ps.foldl([], (l, p) => l.append(atPeriod(b.ot, p)))
    val cf = ps.foldl([], (l, p) => l.append(atPeriod(b.cf, p)))
    List(
      { title: if (kind == "ANNUAL") "PROFIT LOSS - ANNUAL" else "PROFIT LOSS - QUARTERLY", spans: ps,
        rows: rowsFor(fine, listing(PL_ROWS), valuesP(b.pl), cols).concat(rowsFor(-8, TAX_LISTING, valuesP(b.ot), ot)) },
      { title: if (kind == "ANNUAL") "CASH FLOW - ANNUAL" else "CASH FLOW - QUARTERLY", spans: ps,
        rows: rowsFor(fine, listing(CF_ROWS), valuesP(b.cf), cf) },
    )
  }

  pure def tableOf(scale: int, b: Books): List[Section] = {
    val fine = scale - 8
    val ds = sortedDates(b.bs.keys())
    val years = inOrder(b.pl.keys().filter(p => annual(p)))
    val parts = inOrder(b.pl.keys().filter(p => not(annual(p))))
    val sheets = { title: "BALANCE SHEETS", spans: ds.foldl([], (l, d) => l.append((d, d))),
      rows: rowsFor(fine, listing(BS_ROWS), valuesD(b.bs), ds.foldl([], (l, d) => l.append(atDate(b.bs, d)))) }
    List(sheets).concat(periodic(fine, "ANNUAL", b, years))
      .concat(if (parts == []) [] else periodic(fine, "QUARTERLY", b, parts))
  }

  // ------------------------------------------------------------------ printing

  /** the largest total assets or revenue, in whole units, or 0 */
  pure def largestTotal(scale: int, b: Books): int = {
    val ts = valuesD(b.bs).foldl([], (l, s) => l.append(amountOf(s, "Assets")))
      .concat(valuesP(b.pl).foldl([], (l, s) => l.append(amountOf(s, "Revenue"))))
    ts.foldl(0, (a, v) => maxI(a, v)) / 2^(8 - scale)
  }
  /** printed accounts are in multiples of 1000^printUnit: the one for which the
   *  largest total has a value above 10^5 and up to 10^8; of 1 if there is none */
  pure def printUnit(scale: int, b: Books): int = {
    val m = largestTotal(scale, b)
    if (m < 1) 0 else range(0, 7).select(j => m > 10^(3 * j + 2)).length() - 2
  }
  /** ... said of the value, with whole numbers */
  pure def rightUnit(m: int, k: int): bool =
    m < 1 or (if (k < 0) m * 1000^(-k) > 10^5 and m * 1000^(-k) <= 10^8
              else m > 10^5 * 1000^k and m <= 10^8 * 1000^k)
}
