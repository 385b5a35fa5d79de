// -*- mode: quint -*-
/** One deal, many views. A deal is a list of payments to come at the ends of its
 *  periods, m periods a year, and a rate. Its value is kept up to date payment by
 *  payment; every part of the library that can be asked for that value has to give
 *  it, in whichever form the rate is quoted, and every part that can be asked for the
 *  rate has to give it back for that value. */
module views {
  import fix.* from "./fix"
  import strata.* from "./strata"
  import dates.* from "./dates"

  type Level = { yes: bool, each: int, par: int }    // all payments each, with the last also par
  type Forms = { nom: int, eff: int, con: int }

  var op: str
  var m: Freq
  var rate: int                  // nominal, 10^-8
  var pays: List[int]            // 10^-8
  var value: int
  var gross: int                 // the same for the payments' magnitudes
  var lev: Level
  var forms: Forms               // the rate in its forms
  var today: int                 // payment k is due k * 12 / m months later
  var must: bool                 // within the range in which a yield has to be found

  pure def growth(r: int, f: Freq): int = ONE + per(given(r), f)
  pure def formsOf(r: int, f: Freq): Forms = {
    nom: given(r), eff: pow(growth(r, f), f._1, f._2) - ONE, con: times(ln(growth(r, f)), f) }
  /** from the last payment back */
  pure def worth(p: List[int], g: int): int =
    range(0, p.length()).foldl(0, (v, i) => div(v + given(p[p.length() - 1 - i]), g))
  pure def absOf(p: List[int]): List[int] = p.foldl(List(), (a, x) => a.append(mag(x)))
  pure def levelPays(l: Level, n: int): List[int] =
    range(0, n).foldl(List(), (a, i) => a.append(l.each + (if (i + 1 == n) l.par else 0)))
  pure def lesserV(a: int, b: int): int = if (a < b) a else b
  /** in the range of ordinary investments */
  pure def ordinary(f: Freq, r: int, p: List[int]): bool =
    and { r >= 0, r <= 40000000, p.length() > 0, p.length() <= times(25, f), p.foldl(true, (a, x) => a and x >= 10^8) }

  action set1(name: str, f: Freq, r: int, p: List[int], v: int, g: int, l: Level, day: int): bool = all {
    op' = name, m' = f, rate' = r, pays' = p, value' = v, gross' = g, lev' = l, forms' = formsOf(r, f), today' = day,
    must' = ordinary(f, r, p),
  }
  pure val NOTLEVEL: Level = { yes: false, each: 0, par: 0 }

  pure def nominal(z: int, r: int): int =
    if (z == 0) 0 else if (z == 1) rateOf(1, r) else if (z == 2) -(r * 4) else if (z == 3) 250000 * (1 + r % 80)
    else if (z == 4) 30000000 + r * 60 else 1000000 + r * 10
  pure def howMany(z: int, k: int, f: Freq): int = {
    val most = times(30, f)
    lesserV(most, if (z == 0) 1 + k % 3 else if (z == 3) 1 + k % 120 else 1 + k % 30)
  }
  pure val VIEWFREQ: List[Freq] = List((1, 1), (2, 1), (4, 1), (12, 1), (1, 1), (3, 1), (6, 1), (26, 1), (52, 1), (365, 1), (1, 2), (3, 2), (5, 2))

  /** a level deal (dated up to a 27th, so that months are 30 days under 30/360): a loan, an annuity, a bond, a zero bond */
  action issue = {
    nondet zr = 0.to(5).oneOf()
    nondet zn = 0.to(3).oneOf()
    nondet kind = 0.to(4).oneOf()
    nondet k = 0.to(3).setOfMaps(0.to(999999)).oneOf()
    nondet i = VIEWFREQ.indices().oneOf()
    nondet par = Set(100 * 10^8, 1000 * 10^8, 10^14, 98765 * 10^6).oneOf()
    nondet day = 0.to(20000).oneOf()
    val f = VIEWFREQ[i]
    val r = nominal(zr, k.get(0))
    val n = howMany(zn, k.get(1), f)
    // a coupon in whole 10^-8
    val each = if (kind == 0) 0 else 10^8 * (1 + k.get(2) % 2000) / 100
    val l = { yes: true, each: each, par: if (kind == 1) 0 else par }
    val p = levelPays(l, n)
    val v = worth(p, growth(r, f))
    val d = plusDays(19800101, day)
    set1("Issue", f, r, p, v, v, l, mk(yearOf(d), monthOf(d), lesserV(dayOf(d), 27)))
  }
  /** a payment more, at the end */
  action extend = {
    nondet z = 0.to(7).oneOf()
    nondet k = 0.to(999999).oneOf()
    nondet same = Set(true, false).oneOf()
    val keep = same and lev.yes and lev.par == 0
    val p = if (keep) lev.each else sumOf(z, k)
    val w = div(given(p), up(growth(rate, m), pays.length() + 1))
    set1("Extend", m, rate, pays.append(p), value + w, gross + mag(w), if (keep) lev else NOTLEVEL, today)
  }
  /** a payment more, before the others, which are put off by a period */
  action defer = {
    nondet z = 0.to(7).oneOf()
    nondet k = 0.to(999999).oneOf()
    nondet same = Set(true, false).oneOf()
    val keep = same and lev.yes
    val p = if (keep) lev.each else sumOf(z, k)
    val g = growth(rate, m)
    set1("Defer", m, rate, List(p).concat(pays), div(value + given(p), g), div(gross + mag(given(p)), g),
      if (keep) lev else NOTLEVEL, today)
  }
  /** the next payment is made */
  action due = {
    val g = growth(rate, m)
    val first = given(pays[0])
    set1("Due", m, rate, pays.tail(), mul(value, g) - first, mul(gross, g) - mag(first), lev,
      if (12 * m._2 % m._1 == 0) monthsAway(today, 12 * m._2 / m._1, dayOf(today)) else today)
  }
  /** together with another stream of payments */
  action merge = {
    nondet z = 0.to(7).oneOf()
    nondet w = 0.to(39).setOfMaps(0.to(999999)).oneOf()
    nondet n = Set(1, 2, 7, 30).oneOf()
    val q = range(0, n).foldl(List(), (a, i) => a.append(sumOf(z, w.get(i))))
    val longer = if (pays.length() > n) pays.length() else n
    val both = range(0, longer).foldl(List(), (a, i) =>
      a.append((if (i < pays.length()) pays[i] else 0) + (if (i < n) q[i] else 0)))
    val g = growth(rate, m)
    set1("Merge", m, rate, both, value + worth(q, g), gross + worth(absOf(q), g), NOTLEVEL, today)
  }
  /** the other side of the deal */
  action turn = set1("Turn", m, rate, pays.foldl(List(), (a, x) => a.append(-x)), -value, gross, NOTLEVEL, today)
  action reprice = {
    nondet z = 0.to(5).oneOf()
    nondet k = 0.to(999999).oneOf()
    val r = nominal(z, k)
    val g = growth(r, m)
    set1("Reprice", m, r, pays, worth(pays, g), worth(absOf(pays), g), lev, today)
  }

  action init = issue
  action step = {
    nondet k = 0.to(19).oneOf()
    if (k <= 4 or pays.length() >= times(30, m)) issue
    else if (k <= 8 and pays.length() > 1) due
    else if (k <= 10) extend else if (k <= 13) defer else if (k <= 15) merge else if (k == 16) turn else reprice
  }

  val inv = {
    val g = growth(rate, m)
    and {
      g > 0, pays.length() > 0,
      // kept up to date, the value is what the payments are worth all at once
      mag(value - worth(pays, g)) <= 10^15 + gross / 10^22,
      mag(value) <= gross + 10^15 + gross / 10^22,
      lev.yes implies pays == levelPays(lev, pays.length()),
      // one rate in three forms
      agree(exp(forms.con), ONE + forms.eff, ONE + forms.eff),
      (forms.nom >= 0 and m._1 >= m._2) implies (forms.eff >= forms.nom - 10^15 and forms.con <= forms.nom + 10^15),
      // at the coupon rate a bond is worth par
      lev.yes and lev.par > 0 and lev.each * m._1 * 10^8 == rate * lev.par * m._2 implies agree(value, given(lev.par), given(lev.par)),
      rate == 0 implies value == given(sum(pays)),
    }
  }
}
