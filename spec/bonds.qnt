// -*- mode: quint -*-
/** A coupon bond (or a floating rate note) through its life. Between coupon dates its
 *  full price grows at the yield; on a coupon date the coupon leaves it; after the
 *  last payment nothing is left. A note is a bond whose coupon is the index rate plus
 *  its quoted margin and whose yield is the index rate plus the discount margin. */
module bonds {
  import fix.* from "./fix"
  import strata.* from "./strata"
  import ratecurve.* from "./ratecurve"

  type Bond = { par: int, c: int, f: Freq }          // 10^-8; coupon rate per year, coupons a year
  type Curve = { kind: str, f: Freq, pts: List[int] }

  var op: str
  var bond: Bond
  var index: int                 // of a note: the index rate
  var y: int                     // yield per year, 10^-8
  var left: int                  // coupons to come
  var gone: int                  // 1/360 of a coupon period since the last coupon date
  var full: int                  // price, everything included
  var bare: int                  // price at the last coupon date
  var accrued: int
  var curve: Curve
  var onCurve: int               // price of the bond of `left` coupons on the curve
  var limits: bool               // within the range in which the yield has to be found again

  pure def coupon(b: Bond): int = given(b.par) * b.c * b.f._2 / (10^8 * b.f._1)
  /** coupons at each of n period ends, and the par with the last */
  pure def worth(b: Bond, r: int, n: int): int = {
    val i = per(given(r), b.f)
    range(0, n).foldl(given(b.par), (v, _) => div(v + coupon(b), ONE + i))
  }
  pure def pointAt(cv: Curve, t: int, b: int): int = between(cv.pts, t / b, t % b, b)
  /** payment k of bond b is at time k/f, which is point k * cv.f / f of the curve (frequencies have the same denominator) */
  pure def factor(b: Bond, cv: Curve, k: int): int = {
    val r = pointAt(cv, k * cv.f._1, b.f._1)
    if (cv.kind == "nom") recip(pow(ONE + per(r, cv.f), k * cv.f._1, b.f._1))
    else if (cv.kind == "con") exp(-r * k * b.f._2 / b.f._1) else recip(pow(ONE + r, k * b.f._2, b.f._1))
  }
  pure def worthOn(b: Bond, cv: Curve, n: int): int =
    range(1, n + 1).foldl(0, (a, k) => a + mul(coupon(b) + (if (k == n) given(b.par) else 0), factor(b, cv, k)))

  pure def yieldOf(z: int, r: int): int =
    if (z == 0) 0
    else if (z == 1) rateOf(1, r)
    else if (z == 2) -(r * 5)                        // to -5 %
    else if (z == 3) r * 20
    else if (z == 4) 250000 * (r % 60)
    else if (z == 5) 20000000 + r * 80               // to 100 %
    else 5000000
  pure def couponOf(z: int, r: int): int =
    if (z == 0) 0 else if (z == 1) 1 + r else if (z == 2) 250000 * (1 + r % 60) else if (z == 3) r * 15 else if (z == 4) 15000000 + r * 35 else 50000000 + r * 300

  pure val BONDFREQ: List[Freq] = FREQS.foldl(List(), (l, f) => l.append((f, 1))).concat(List((1, 2), (1, 4), (3, 2), (5, 2), (2, 1), (4, 1)))
  /** how many coupons, over up to so many years */
  pure def count(z: int, k: int, f: Freq, years: int): int = {
    val most = times(years, f)
    if (z == 0) 1 + k % 3 else if (z <= 2) 1 + k % lesserB(40, most) else if (z == 3) 1 + k % lesserB(240, most) else 1 + k % most
  }
  pure def lesserB(a: int, b: int): int = if (a < b) a else b

  /** a curve that reaches over n payments of the bond, of the same or another frequency */
  action someCurveFor(f: Freq, n: int, use: Curve => bool): bool = {
    nondet kind = Set("nom", "eff", "con").oneOf()
    nondet shape = 0.to(6).oneOf()
    nondet z = 0.to(5).oneOf()
    nondet r = 0.to(999999).oneOf()
    nondet w = 0.to(59).setOfMaps(0.to(999999)).oneOf()
    nondet more = Set(0, 0, 0, 1, 5).oneOf()
    val fc = (f._1 + more * f._2, f._2)
    use({ kind: kind, f: fc, pts: drawn(shape, (n * fc._1) / f._1 + 1, rateOf(z, r), w) })
  }

  action set1(name: str, b: Bond, idx: int, r: int, n: int, g: int, p: int, lim: bool): bool = {
    val m = lesserB(n, if (r % 17 == 3) 1500 else if (r % 3 == 0) 130 else 60)
    someCurveFor(b.f, m, cv => all {
      op' = name, bond' = b, index' = idx, y' = r, left' = n, gone' = g,
      full' = mul(p, pow(ONE + per(given(r), b.f), g, 360)), bare' = p,
      accrued' = given(b.par) * b.c * g * b.f._2 / (10^8 * 360 * b.f._1), limits' = lim,
      curve' = cv, onCurve' = if (n == m) worthOn(b, cv, n) else 0 })
  }
  pure def inLimits(b: Bond, r: int, n: int): bool =
    b.par >= 10^8 and b.c <= 50000000 and r >= -5000000 and r <= 10^8 and (n <= times(20, b.f) or (n <= times(40, b.f) and b.c >= 2000000 and r >= -2000000))

  action issue = {
    nondet zc = 0.to(5).oneOf()
    nondet zy = 0.to(6).oneOf()
    nondet zn = 0.to(4).oneOf()
    nondet k = 0.to(4).setOfMaps(0.to(999999)).oneOf()
    nondet i = BONDFREQ.indices().oneOf()
    nondet par = Set(10^8, 100 * 10^8, 1000 * 10^8, 10^14, 98765 * 10^6, 10^5, 10^2).oneOf()
    nondet same = 0.to(5).oneOf()
    val f = BONDFREQ[i]
    val c = couponOf(zc, k.get(0))
    val r = if (same == 0 and c <= 10^8) c else yieldOf(zy, k.get(1))
    val n = count(zn, k.get(2), f, 40)
    val b = { par: par, c: c, f: f }
    set1("Issue", b, 0, r, n, 0, worth(b, r, n), inLimits(b, r, n))
  }
  /** a note: margins may be negative, even the payments */
  action note = {
    nondet zi = 0.to(4).oneOf()
    nondet zm = 0.to(5).oneOf()
    nondet zn = 0.to(4).oneOf()
    nondet k = 0.to(4).setOfMaps(0.to(999999)).oneOf()
    nondet i = BONDFREQ.indices().oneOf()
    nondet par = Set(10^8, 100 * 10^8, 1000 * 10^8, 10^14).oneOf()
    val f = BONDFREQ[i]
    val idx = if (zi == 0) 0 else if (zi == 1) -(k.get(0) * 2) else k.get(0) * 10         // -2 % to 10 %
    val neg = zm == 5
    // index + quoted margin: also a little below zero, then not for too long
    val pays = if (zm == 0) 0 else if (neg) 0 - 1 - k.get(1) else lesserB(15000000, mag(idx) + k.get(1) * 5)
    val r = if (zm == 1 or (neg and k.get(2) % 4 == 0)) pays else if (zm == 2) 0                                    // index + discount margin
            else if (neg) k.get(2) * 7 - 2000000 else (k.get(2) * 15) - 2000000
    val n = count(zn, k.get(3), f, if (neg) 10 else 30)
    val b = { par: par, c: pays, f: f }
    set1("Note", b, idx, r, n, 0, worth(b, r, n), true)
  }

  /** time goes by within the coupon period, or a little beyond */
  action wait = {
    nondet k = Set(1, 30, 90, 180, 359).oneOf()
    nondet r = 0.to(359).oneOf()
    val g = lesserB(gone + 1 + r % k, if (r < 300) 360 else 1000)
    all { g > gone, set1("Wait", bond, index, y, left, g, bare, limits) }
  }
  /** at the end of the period the coupon is paid */
  action due = set1("Due", bond, index, y, left, 360, bare, limits)
  action pay = all { gone == 360, left > 1,
    set1("Coupon", bond, index, y, left - 1, 0, full - coupon(bond), limits) }
  /** many coupons later */
  action later = {
    nondet k = Set(1, 7, 30).oneOf()
    val n = lesserB(k, left - 1)
    val i = per(given(y), bond.f)
    all { n > 0, set1("Later", bond, index, y, left - n, 0,
      range(0, n).foldl(bare, (v, _) => mul(v, ONE + i) - coupon(bond)), limits) }
  }
  action reprice = {
    nondet zy = 0.to(6).oneOf()
    nondet k = 0.to(999999).oneOf()
    val r = yieldOf(zy, k)
    set1("Reprice", bond, index, r, left, gone, worth(bond, r, left), inLimits(bond, r, left))
  }
  action init = issue
  action step = {
    nondet k = 0.to(9).oneOf()
    if (k <= 1) issue else if (k <= 3 and left > 1) later else if (k == 4) reprice
    else if (gone == 360 and left > 1) pay else if (gone < 1000 and k <= 7) any { wait, due } else due
  }
  action initNote = note
  action stepNote = {
    nondet k = 0.to(9).oneOf()
    if (k <= 4 or left == 1) note else later
  }

  val inv = {
    val g = ONE + per(mag(given(y)), bond.f)
    val total = given(bond.par) + mag(bare) + coupon(bond) * left
    val i = per(given(y), bond.f)
    val small = mul(total, ONE / 10^14)
    and {
      left > 0, bare > 0, g > 0,
      // what has been kept up to date is what the payments to come are worth
      left <= 400 implies mag(bare - worth(bond, y, left)) <= small,
      gone == 0 implies full == bare and accrued == 0,
      gone == 360 and left > 1 implies mag(full - coupon(bond) - worth(bond, y, left - 1)) <= small or left > 400,
      y == bond.c implies mag(bare - given(bond.par)) <= small,
      y > bond.c implies bare <= given(bond.par) + small, y < bond.c implies bare >= given(bond.par) - small,
      y == 0 implies mag(bare - given(bond.par) - left * coupon(bond)) <= small,
      // on a level nominal curve of its own frequency the price is the one at that yield
      (onCurve != 0 and curve.kind == "nom" and curve.f == bond.f and curve.pts.indices().forall(j => curve.pts[j] == curve.pts[0]))
        implies {
          val r = per(curve.pts[0], bond.f)
          mag(onCurve - range(0, left).foldl(given(bond.par), (v, _) => div(v + coupon(bond), ONE + r))) <= small
        },
      // the more it yields the less it costs
      limits and left <= 60 implies worth(bond, y + 100000, left) < bare or bare < small,
    }
  }
}
