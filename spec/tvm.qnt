// -*- mode: quint -*-
/** The time value of money: an amount grows (or is discounted) over time, a rate is
 *  quoted in different forms, a loan is paid off. */
module tvm {
  import fix.* from "./fix"
  import strata.* from "./strata"
  import dates.* from "./dates"
  import daycount.* from "./daycount"

  type Args = { r: int, r1: int, num: int, num1: int, den: int, m: Freq, amt: int, d0: int, d1: int }
  type Values = { fv: int, pv: int, df: int, dfYear: int, fvm: int, pvm: int, fvc: int, pvc: int,
                  xfv: int, xpv: int, xdf: int, fwd: int }

  var op: str
  var arg: Args
  var ans: Values
  var bal: int                                        // carried along by the moves

  pure def growth(r: int, num: int, den: int): int = pow(ONE + given(r), num, den)
  pure def growthM(r: int, m: Freq, num: int, den: int): int = pow(ONE + per(given(r), m), num * m._1, den * m._2)
  pure def growthC(r: int, num: int, den: int): int = exp(given(r) * num / den)

  pure def values(a: Args): Values = {
    val g = growth(a.r, a.num, a.den)
    val gm = growthM(a.r, a.m, a.num, a.den)
    val gc = growthC(a.r, a.num, a.den)
    val gx = growth(a.r, us360(a.d0, a.d1), 360)
    val p = given(a.amt)
    { fv: mul(p, g), pv: div(p, g), df: recip(g), dfYear: recip(ONE + given(a.r)), fvm: mul(p, gm), pvm: div(p, gm),
      fvc: mul(p, gc), pvc: div(p, gc), xfv: mul(p, gx), xpv: div(p, gx), xdf: recip(gx),
      fwd: div(g, growth(a.r1, a.num1, a.den)) }
  }

  action someArgs(use: Args => bool): bool = {
    nondet zr = 0.to(8).oneOf()
    nondet zr1 = 0.to(8).oneOf()
    nondet zt = 0.to(5).oneOf()
    nondet k = 0.to(7).setOfMaps(0.to(999999)).oneOf()
    nondet za = 0.to(7).oneOf()
    nondet m = OFTENEST.indices().oneOf()
    nondet b = PARTS.indices().oneOf()
    nondet near = Set(true, false).oneOf()
    nondet end0 = Set(0, 28, 29, 30, 31).oneOf()
    nondet end1 = Set(0, 28, 29, 30, 31).oneOf()
    val r = rateOf(zr, k.get(0))
    val r1 = rateOf(zr1, k.get(1))
    val den = if (zt < 2) 1 else PARTS[b]
    val t = if (zt == 0) k.get(2) % 4 else k.get(2) % (span(r) * den)
    val t1 = k.get(3) % (span(r1) * den)
    val day0 = plusDays(19700101, k.get(4) % 30000)
    val lim = if (near and r > -90000000) 1500 else lesser(span(r), 40) * 360
    val day1 = plusDays(day0, (k.get(5) % (2 * lim)) - lim)
    use({ r: r, r1: r1, num: if (zt == 5) -t else t, num1: if (zt == 5 or zt == 1 and near) -t1 else t1, den: den, m: if (per(r, OFTENEST[m]) < -90000000) (1, 1) else OFTENEST[m], amt: sumOf(za, k.get(6)),
          d0: onDay(day0, end0), d1: onDay(day1, end1) })
  }
  /** the same month, on day d or its last one (0: as it is) */
  pure def onDay(t: int, d: int): int =
    if (d == 0) t else mk(yearOf(t), monthOf(t), lesser(d, monthDays(yearOf(t), monthOf(t))))

  pure val MOVES: List[str] = List("fv", "pv", "fvm", "pvm", "fvc", "pvc", "xfv", "xpv")
  pure def moved(b: int, how: str, a: Args): int =
    if (how == "fv") mul(b, growth(a.r, a.num, a.den))
    else if (how == "pv") div(b, growth(a.r, a.num, a.den))
    else if (how == "fvm") mul(b, growthM(a.r, a.m, a.num, a.den))
    else if (how == "pvm") div(b, growthM(a.r, a.m, a.num, a.den))
    else if (how == "fvc") mul(b, growthC(a.r, a.num, a.den))
    else if (how == "pvc") div(b, growthC(a.r, a.num, a.den))
    else if (how == "xfv") mul(b, growth(a.r, us360(a.d0, a.d1), 360))
    else div(b, growth(a.r, us360(a.d0, a.d1), 360))

  action init = someArgs(a => all { op' = "Start", arg' = a, ans' = values(a), bal' = given(a.amt) })
  action step = someArgs(a => {
    nondet i = MOVES.indices().oneOf()
    val b = moved(bal, MOVES[i], a)
    val ok = mag(b) > ONE / 1000 and mag(b) < 10^14 * ONE
    all { op' = if (ok) MOVES[i] else "Start", arg' = a, ans' = values(a), bal' = if (ok) b else given(a.amt) }
  })

  /** what the formulas owe one another */
  val inv = {
    val p = given(arg.amt)
    val g = growth(arg.r, arg.num, arg.den)
    val gm = growthM(arg.r, arg.m, arg.num, arg.den)
    val gc = growthC(arg.r, arg.num, arg.den)
    and {
      g > 0, gm > 0, gc > 0,
      agree(mul(ans.fv, ans.df), p, mag(p) + mag(ans.fv) + ans.df / 10^14),
      agree(mul(ans.pv, g), p, mag(p) * (1 + g / ONE)),
      // Bernoulli: compounding more often never grows less, and never more than continuously
      (if ((arg.num >= 0) == (arg.m._1 >= arg.m._2)) gm - g else g - gm) >= -ONE / 10^20 * (1 + g / ONE + gm / ONE),
      (if (arg.num >= 0) gc - gm else gm - gc) >= -ONE / 10^20 * (1 + gc / ONE + gm / ONE),
      arg.num == 0 implies ans.fv == p and ans.pv == p and ans.fvm == p and ans.fvc == p,
      arg.r == 0 implies ans.fv == p and ans.xfv == p and ans.df == ONE,
      arg.d0 == arg.d1 implies ans.xfv == p,
      // the forward factor completes the first factor to the second, in the other direction
      val g1 = growth(arg.r1, arg.num1, arg.den)
      agree(div(g, ans.fwd), g1, g1 + g + recip(ans.fwd) + mul(g1, recip(ans.fwd))),
      isDate(arg.d0), isDate(arg.d1), bal != 0,
    }
  }
}
