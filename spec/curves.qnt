// -*- mode: quint -*-
/** Rate curves: the rate at the points 1/f, 2/f, ... n/f of time. What a curve means
 *  is the growth per period at each point; it can be quoted in three forms. */
module curves {
  import fix.* from "./fix"
  import strata.* from "./strata"
  import ratecurve.* from "./ratecurve"

  type Ask = { num: int, den: int, r: int, pv: int }      // time num / (den * freq), rate there, value there of 1

  var op: str
  var kind: str                  // nom, eff, con
  var wrap: str                  // what its rates are: spot, par, forward
  var freq: Freq
  var pts: List[int]
  var grow: List[int]            // growth per period at each point
  var asks: List[Ask]

  pure def quote(k: str, g: int, f: Freq): int =
    if (k == "nom") times(pow(g, f._2, f._1) - ONE, f) else if (k == "con") ln(g) else g - ONE
  pure def meaning(k: str, r: int, f: Freq): int =
    if (k == "nom") pow(ONE + per(r, f), f._1, f._2) else if (k == "con") exp(r) else ONE + r

  /** the discount factor at time t/(b f) with rate r: by the curve's convention */
  pure def discount(k: str, r: int, f: Freq, t: int, b: int): int =
    if (k == "nom") recip(pow(ONE + per(r, f), t, b)) else if (k == "con") exp(-r * t * f._2 / (b * f._1)) else recip(pow(ONE + r, t * f._2, b * f._1))
  pure def asked(k: str, p: List[int], f: Freq, at: int, a: int, b: int): Ask = {
    val r = between(p, at, a, b)
    { num: at * b + a, den: b, r: r, pv: discount(k, r, f, at * b + a, b) }
  }

  action someAsks(k: str, p: List[int], f: Freq, use: List[Ask] => bool): bool = {
    nondet w = 0.to(11).setOfMaps(0.to(999999)).oneOf()
    val n = p.length()
    val b = List(2, 3, 10, 365, 1000003)[w.get(8) % 5]
    // the first and last points, others, and times between two
    val exact = List(1, n, 1 + w.get(0) % n, 1 + w.get(1) % n).foldl(List(), (a, i) => a.append(asked(k, p, f, i, 0, 1)))
    use(if (n == 1) exact
        else range(2, 7).foldl(exact, (a, i) => a.append(asked(k, p, f, 1 + w.get(i) % (n - 1), w.get(i + 5) % b, b)))
             .append(asked(k, p, f, 1 + w.get(2) % (n - 1), 1, 1000)).append(asked(k, p, f, n - 1, 999, 1000))
             .append(asked(k, p, f, 1 + w.get(3) % (n - 1), 99999, 100000)).append(asked(k, p, f, 1 + w.get(4) % (n - 1), 1, 100000)))
  }

  action fresh = {
    nondet k = Set("nom", "eff", "con").oneOf()
    nondet wr = Set("spot", "par", "forward").oneOf()
    nondet deep = 0.to(5).oneOf()
    someCurve((f, p0) => {
      // nominal rates may be below -100 %
      val p = if (deep == 0 and k == "nom" and f._1 >= 2 * f._2)
          p0.slice(0, lesserOf(p0.length(), times(6, f))).foldl(List(), (a, r) => a.append(r - given(150000000)))
        // effective rates that take nearly everything
        else if (deep <= 1 and k == "eff" and f._1 >= f._2)
          p0.slice(0, lesserOf(p0.length(), times(2, f))).foldl(List(), (a, r) => a.append(mag(r) % (ONE / 20) + ONE / 1000 - ONE))
        else p0
      someAsks(k, p, f, l => all {
      op' = "Fresh", kind' = k, wrap' = wr, freq' = f, pts' = p, asks' = l,
      grow' = p.foldl(List(), (a, r) => a.append(meaning(k, r, f))) })
    })
  }
  pure def lesserOf(a: int, b: int): int = if (a < b) a else b
  action init = fresh
  action convert = {
    nondet k = Set("nom", "eff", "con").oneOf()
    // quoted as it is already: nothing changes
    val p = if (k == kind) pts else grow.foldl(List(), (a, g) => a.append(quote(k, g, freq)))
    someAsks(k, p, freq, l => all {
      op' = if (k == kind) "Same" else kind, kind' = k, wrap' = wrap, freq' = freq, pts' = p, asks' = l, grow' = grow })
  }
  action step = {
    nondet again = 0.to(4).oneOf()
    if (again == 0) fresh else convert
  }

  val inv = and {
    pts.length() == grow.length(), pts.length() > 0,
    pts.indices().forall(i => agree(meaning(kind, pts[i], freq), grow[i], grow[i] * freq._1)),
    asks.indices().forall(i => asks[i].pv > 0 and asks[i].num >= asks[i].den and asks[i].num <= asks[i].den * pts.length()),
    // at a point of the curve the flow is worth what the growth says, in every form
    asks.indices().forall(i => asks[i].num % asks[i].den == 0 implies
      agree(asks[i].pv, recip(pow(grow[asks[i].num / asks[i].den - 1], asks[i].num / asks[i].den * freq._2, freq._1)), ONE * freq._1)),
    // the estimate lies between its neighbours
    asks.indices().forall(i => asks[i].num % asks[i].den != 0 implies {
      val j = asks[i].num / asks[i].den
      or { (asks[i].r - pts[j - 1]) * (asks[i].r - pts[j]) <= 0, mag(pts[j] - pts[j - 1]) < 10^6 }
    }),
  }
}
