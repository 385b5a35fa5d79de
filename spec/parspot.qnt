// -*- mode: quint -*-
/** Par and spot rates with f payments a period. A spot rate discounts the payment at
 *  its point; a bond that pays the par rate of its maturity is worth its face value. */
module parspot {
  import fix.* from "./fix"
  import strata.* from "./strata"
  import ratecurve.* from "./ratecurve"

  var did: str                       // "Fresh", "ToSpot", "ToPar"
  var now: str                       // which curve there is now
  var every: Freq                     // payments a period
  var spot: List[int]
  var par: List[int]
  var df: List[int]                  // discount factor at each point

  type Built = { d: List[int], total: int, ok: bool }
  /** the discount factors, maturity after maturity: what the coupons before are worth
   *  is known, so the last payment must be worth the rest */
  pure def fromPar(p: List[int], f: Freq): Built =
    p.foldl({ d: List(), total: 0, ok: true }, (b, r) => {
      val c = per(r, f)
      val d = div(ONE - mul(c, b.total), ONE + c)
      // a discount factor from which a rate can be had
      if (b.ok and d > ONE / 50 and d < 20 * ONE) { d: b.d.append(d), total: b.total + d, ok: true } else { ...b, ok: false }
    })
  pure def spotOf(d: List[int], f: Freq): List[int] =
    range(0, d.length()).foldl(List(), (a, i) => a.append(times(pow(recip(d[i]), 1, i + 1) - ONE, f)))
  pure def factors(s: List[int], f: Freq): List[int] =
    range(0, s.length()).foldl(List(), (a, i) => a.append(recip(up(ONE + per(s[i], f), i + 1))))
  /** the level payment that makes a bond of each maturity worth its face value */
  pure def parOf(d: List[int], f: Freq): List[int] =
    range(0, d.length()).foldl({ l: List(), total: 0 }, (a, i) =>
      { l: a.l.append(times(div(ONE - d[i], a.total + d[i]), f)), total: a.total + d[i] }).l

  action someShape(use: (Freq, List[int]) => bool): bool = someCurve((f, p) => {
    nondet cut = Set(1000, 60, 12).oneOf()
    use(f, p.slice(0, if (p.length() < cut) p.length() else cut))
  })
  action freshPar = someShape((f, p) => {
    val b = fromPar(p, f)
    val n = b.d.length()
    all { did' = "Fresh", now' = "par", every' = f, df' = b.d, spot' = spotOf(b.d, f), par' = p.slice(0, n) }
  })
  action freshSpot = someShape((f, p) => {
    val d = factors(p, f)
    all { did' = "Fresh", now' = "spot", every' = f, df' = d, spot' = p, par' = parOf(d, f) }
  })
  action parInit = any { freshPar, freshSpot }
  /** to the other curve, and back: the curves stay what they are */
  action change = all {
    did' = if (now == "par") "ToSpot" else "ToPar", now' = if (now == "par") "spot" else "par",
    every' = every, spot' = spot, par' = par, df' = df,
  }
  action parStep = {
    nondet again = 0.to(2).oneOf()
    if (again == 0) any { freshPar, freshSpot } else change
  }

  val parInv = and {
    spot.length() == par.length(), df.length() == par.length(), df.length() > 0,
    // priced payment by payment at the spot rates, the par bond of every maturity is at par
    {
      val at = range(0, spot.length()).foldl(List(), (a, k) => a.append(recip(up(ONE + per(spot[k], every), k + 1))))
      par.indices().forall(i => {
        val c = per(par[i], every)
        val price = range(0, i + 1).foldl(0, (a, k) => a + mul(c, at[k])) + at[i]
        agree(price, ONE, 1000 * ONE)
      })
    },
    // level spot rates are level par rates
    (spot.indices().forall(i => spot[i] == spot[0])) implies par.indices().forall(i => agree(par[i], spot[0], ONE * every._1)),
    agree(par[0], spot[0], ONE * every._1),
  }
}
