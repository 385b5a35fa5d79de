// -*- mode: quint -*-
/** Short investments that are rolled over, and a portfolio that is paid into and out
 *  of. Every yield is a quotation of one and the same growth. */
module money {
  import fix.* from "./fix"
  import strata.* from "./strata"

  var op: str
  // the bill or holding at hand: days, price, end price, income; all in 10^-8 but the days
  var hold: { t: int, p0: int, p1: int, d1: int }
  var yields: { bill: int, discount: int, hpy: int, mmy: int, eay: int }
  var quote: { t: int, r: int, p1: int, d: int }     // a bill quoted at a rate, and its discount
  var rolled: int                    // growth of all holdings since the first
  // the portfolio: opening values and inflows of the sub-periods, their growths
  var values: List[int]              // to 40 decimals; one more than there are sub-periods
  var flows: List[int]
  var growths: List[int]
  var after: List[int]               // inflows since the last valuation
  var total: int                     // growth over the record
  var years: (int, int)              // stated length of the record, a/b
  var returns: { n: int, each: int }

  /** a bill pays something: what a holding that ends worthless would have paid instead */
  pure def paid(p1: int): int = if (p1 == 0) 10^8 else p1
  pure def yieldsOf(t: int, p0: int, p1: int, d1: int): { bill: int, discount: int, hpy: int, mmy: int, eay: int } = {
    val g = div(given(p1 + d1), given(p0))
    { bill: div(given(paid(p1) - p0), given(paid(p1))) * 360 / t, discount: given(paid(p1) - p0), hpy: g - ONE,
      mmy: (g - ONE) * 360 / t, eay: pow(g, 365, t) - ONE }
  }
  action someHolding(use: (int, int, int, int) => bool): bool = {
    nondet zt = 0.to(4).oneOf()
    nondet zp = Set(0, 2, 4, 6).oneOf()
    nondet zg = 0.to(5).oneOf()
    nondet k = 0.to(4).setOfMaps(0.to(999999)).oneOf()
    val t = if (zt == 0) 1 + k.get(0) % 30 else if (zt == 1) List(90, 91, 180, 182, 360, 365)[k.get(0) % 6] else if (zt == 2) 1 + k.get(0) % 365 else if (zt == 3) 300 + k.get(0) % 3000 else 3300 + k.get(0) % 9000
    val p0 = 10^6 + sumOf(zp, k.get(1))
    // gain or loss, no steeper than e^20 a year
    val gain = if (zg == 0) 0 else if (zg == 1) k.get(2) % 1000 - 500 else if (zg == 2) k.get(2) / 20 - 25000
               else if (zg == 3) (if (t > 20) k.get(2) - 400000 else k.get(2) / 10 - 50000)
               else if (zg == 5) (if (t > 300) 100 + k.get(2) % 40000 - 1000000 else k.get(2) / 10) else (if (t > 30) k.get(2) * 3 else k.get(2) / 5)  // 10^-6
    val end = p0 + p0 * gain / 1000000
    // income, none, or costs of holding
    val inc = if (k.get(3) % 3 == 0) 0 else (if (k.get(3) % 8 == 1) -1 else 1) * end * (k.get(3) % 1000) / 5000
    // also all of it as income, nothing at the end
    if (k.get(3) % 16 == 5) use(t, p0, 0, end) else use(t, p0, end - inc, inc)
  }

  /** any rate, also a loss and one that takes all of the face value and more */
  action quoted(t: int, p1: int): bool = {
    nondet z = 0.to(9).oneOf()
    nondet k = 0.to(999999).oneOf()
    val r = if (z == 9) 36 * 10^9 / t + k * 100 else rateOf(z, k)
    quote' = { t: t, r: r, p1: p1, d: given(p1) * r * t / (360 * 10^8) }
  }

  action initial = someHolding((t, p0, p1, d1) => {
    nondet k = 0.to(3).setOfMaps(0.to(999999)).oneOf()
    all { quoted(t, p1), op' = "Open", hold' = { t: t, p0: p0, p1: p1, d1: d1 }, yields' = yieldsOf(t, p0, p1, d1),
          rolled' = div(given(p1 + d1), given(p0)),
          values' = List(given(sumOf(k.get(0) % 8 / 2 * 2, k.get(1)))), flows' = List(), after' = List(), growths' = List(), total' = ONE, years' = (1, 1),
          returns' = { n: 0, each: 0 } }
  })
  /** the proceeds are invested again */
  action roll = someHolding((t, p0, p1, d1) => {
    val g = div(given(p1 + d1), given(p0))
    val r = mul(rolled, g)
    val ok = r > ONE / 10^6 and r < 10^9 * ONE
    all { quoted(t, p1), op' = if (ok) "Roll" else "Open", hold' = { t: t, p0: p0, p1: p1, d1: d1 }, yields' = yieldsOf(t, p0, p1, d1), rolled' = if (ok) r else g,
          values' = values, flows' = flows, after' = after, growths' = growths, total' = total, years' = years, returns' = returns }
  })
  pure def lastOf(l: List[int]): int = l[l.length() - 1]

  /** n more sub-periods: an inflow (or a payout) at the start, then growth */
  action sub(n: int): bool = {
    nondet g = 0.to(39).setOfMaps(0.to(999999)).oneOf()
    nondet w = 0.to(39).setOfMaps(0.to(999999)).oneOf()
    nondet z = 0.to(4).oneOf()
    nondet a = Set(1, 2, 3, 5, 10, 17).oneOf()
    nondet k = Set(0, 0, 1, 3).oneOf()
    nondet b = Set(1, 2, 4, 12, 365).oneOf()
    val s = range(0, n).foldl({ v: values, f: flows, g: growths, t: total }, (s, i) => {
      val open = lastOf(s.v)
      val how = w.get(i) % 7
      // seldom an inflow as large as the value and half of all lost, or the reverse: as if nothing had happened
      val wash = if (open % 2 != 0 or open > 10^12 * ONE or open < ONE / 1000) 0 else w.get(i) / 7 % 15
      val gr = if (wash == 1) ratio(1, 2) else if (wash == 2) 2 * ONE
        else if (z == 4 and i % 3 == 0) ratio(1 + g.get(i) % 20000, 1000000)            // nearly all is lost
        else if (z == 0) ONE + (g.get(i) - 500000) * 10^32 else if (z == 1) ONE else ratio(500000 + g.get(i), 1000000)
      // a payout of most, an inflow of many times the value, or nothing
      val f = if (wash == 1) open else if (wash == 2) -open / 2 else if (how <= 1) 0
        else if (open > 10^12 * ONE) -mul(open, ONE - ONE / 10^6)
        else if (open < ONE / 1000) 10^6 * ONE
        else if (how == 2) -mul(open, ratio(w.get(i) % 990000, 1000000))
        else if (how == 3) mul(open, ratio(w.get(i), 1000))
        else mul(open, ratio(w.get(i) - 500000, 1000000))
      { v: s.v.append(mul(open + f, gr)), f: s.f.append(f), g: s.g.append(gr), t: mul(s.t, gr) }
    })
    val n1 = s.f.length()
    val ok = s.t > ONE / 10^15 and s.t < 10^15 * ONE
    // keep the stated years long enough for the growth
    val yr = (lesserM(a * b, 3 * n1) + n1 / 2 + 1, b)
    all { ok, quote' = quote, op' = if (n == 1) "Period" else "Periods", hold' = hold, yields' = yields, rolled' = rolled,
      values' = s.v, flows' = s.f, after' = range(0, k).foldl(List(), (l, i) => l.append(given(sumOf(w.get(i) % 8, g.get(i))))), growths' = s.g, total' = s.t, years' = yr,
      returns' = { n: if (mag(ln(s.t)) * b / yr._1 > 30 * ONE) -ONE else pow(s.t, b, yr._1) - ONE, each: pow(s.t, 1, n1) - ONE } }
  }
  pure def lesserM(a: int, b: int): int = if (a < b) a else b

  action init = initial
  action step = {
    nondet k = 0.to(9).oneOf()
    if (k == 0) initial else if (k <= 4) roll
    else if (flows.length() >= 100) initial
    else any { sub(1), sub(1), sub(12), sub(40), roll }
  }
  action stepFolio = if (flows.length() >= 100) initial else any { sub(1), sub(1), sub(1), sub(12), sub(40), initial }
  /** C34 alone */
  action stepHold = {
    nondet k = 0.to(9).oneOf()
    if (k == 0) initial else roll
  }

  val inv = and {
    hold.t > 0, hold.p0 > 0,
    // the discount is the rate's share of the face value for the time
    mag(mul(quote.d, 360 * ONE) - quote.t * mul(given(quote.p1), given(quote.r))) < 10^5,
    // the yields determine one another through the growth
    mag(div(yields.mmy * hold.t, 360 * ONE) - yields.hpy) < 10^6 * (1 + hold.t),
    agree(pow(ONE + yields.eay, hold.t, 365), ONE + yields.hpy, 10^6 * (ONE + mag(yields.hpy)) * (1 + hold.t / 365)) or yields.eay + ONE < 10^14,
    (yields.hpy > 0) == (hold.p1 + hold.d1 > hold.p0),
    mag(mul(yields.bill, given(paid(hold.p1))) * hold.t / 360 - yields.discount) < 10^12 + mag(given(paid(hold.p1))) / 10^20,
    // growth, sub-period by sub-period, whatever the flows
    values.length() == flows.length() + 1, growths.length() == flows.length(),
    range(0, flows.length()).foldl(true, (a, i) => a and values[i + 1] > 0
      and mag(mul(values[i] + flows[i], growths[i]) - values[i + 1]) < 10 ),
    agree(growths.foldl(ONE, (a, g) => mul(a, g)), total, total),
    flows.length() == 1 implies mag(returns.each - growths[0] + ONE) < 10^15,
  }
}
