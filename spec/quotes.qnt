// -*- mode: quint -*-
/** A rate of return quoted in different forms: effective, nominal (compounded m times
 *  a period), continuous. However it is requoted, the growth over a period stays. */
module quotes {
  import fix.* from "./fix"
  import strata.* from "./strata"

  type Forms = { eff: int, nom: int, con: int }    // per period, at the present m

  var growth: int            // over one period; what the rate means
  var form: str              // how it is quoted now, and
  var rate: int              //   at which rate
  var m: Freq
  var op: str
  var all3: Forms

  pure def nominal(g: int, k: Freq): int = times(pow(g, k._2, k._1) - ONE, k)
  pure def forms(g: int, k: Freq): Forms = { eff: g - ONE, nom: nominal(g, k), con: ln(g) }
  /** the meaning of a quotation */
  pure def means(f: str, v: int, k: Freq): int =
    if (f == "nom") pow(ONE + per(v, k), k._1, k._2) else if (f == "con") exp(v) else ONE + v

  action quoted(name: str, f: str, v: int, k: Freq): bool = {
    val g = means(f, v, k)
    all { op' = name, form' = f, rate' = v, m' = k, growth' = g, all3' = forms(g, k) }
  }
  action fresh = {
    nondet f = Set("eff", "nom", "con").oneOf()
    nondet z = 0.to(8).oneOf()
    nondet r = 0.to(999999).oneOf()
    nondet k = OFTENEST.indices().oneOf()
    nondet deep = 0.to(9).oneOf()
    // a nominal rate may be below -100 %: it must not lose everything at once
    val v0 = given(rateOf(z, r) - (if (deep == 0 and f == "nom" and z < 7 and OFTENEST[k]._1 > OFTENEST[k]._2) 10000000 + r * 130 else 0))
    val v = if (f == "nom" and per(v0, OFTENEST[k]) < 0 - ONE * 9 / 10) given(rateOf(3, r)) else v0
    quoted("Fresh", f, v, fit(means(f, v, OFTENEST[k]), OFTENEST[k]))
  }
  /** a rate of less than once a period needs some growth left to be seen in 64 bits */
  pure def fit(g: int, k: Freq): Freq = if (g < ONE / 10 and k._1 < k._2) (1, 1) else k
  action init = fresh

  /** keep the meaning, change the form: the six conversions */
  action requote = {
    nondet f = Set("eff", "nom", "con").oneOf()
    nondet k = OFTENEST.indices().oneOf()
    val k1 = if (f == "nom") fit(growth, OFTENEST[k]) else m
    val v = if (f == "eff") growth - ONE else if (f == "con") ln(growth) else nominal(growth, k1)
    all { f != form, op' = form, form' = f, rate' = v, m' = k1, growth' = growth, all3' = forms(growth, k1) }
  }
  action step = {
    nondet again = 0.to(9).oneOf()
    if (again == 0) fresh else requote
  }

  val inv = and {
    growth > 0,
    agree(means(form, rate, m), growth, growth * m._1),
    agree(means("nom", all3.nom, m), growth, growth * m._1), agree(means("con", all3.con, m), growth, growth),
    // the more often it is compounded, the lower the rate that does it
    all3.con <= all3.nom + 10^18, all3.con <= all3.eff + 10^18,
    (if (m._1 >= m._2) all3.nom - all3.eff else all3.eff - all3.nom) <= 10^18,
    m == (1, 1) implies mag(all3.nom - all3.eff) < 10^18,
    (growth == ONE) implies (all3 == { eff: 0, nom: 0, con: 0 }),
    (growth > ONE) implies all3.con > 0, (growth < ONE) implies all3.eff < 0,
  }
}
