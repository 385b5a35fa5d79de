// -*- mode: quint -*-
/** An annuity (a loan, say) with level payments: its value grows at r/m between two
 *  payments and each payment is added; what is left after the last is the negated
 *  final value. */
module loan {
  import fix.* from "./fix"
  import strata.* from "./strata"

  var op: str
  var arg: { r: int, m: Freq, pay: int, end: int }
  var left: int              // payments still to be made
  var value: int             // of what is still to come
  var odd: { num: int, den: int, value: int }        // a term that is no whole number of payments, by the formula

  var fund: int              // the payment that turns nothing into what is paid back at the end (asked when signing)

  /** one period earlier: the value that, grown and with the payment, gives v */
  pure def before(v: int, i: int, p: int): int = div(v - p, ONE + i)
  pure def after(v: int, i: int, p: int): int = mul(v, ONE + i) + p

  pure def worth(r: int, m: Freq, pay: int, end: int, n: int): int = {
    val i = per(given(r), m)
    range(0, n).foldl(-given(end), (v, _) => before(v, i, given(pay)))
  }

  /** payments are worth in proportion to their size */
  pure def saving(r: int, m: Freq, end: int, n: int): int = 0 - div(worth(r, m, 0, end, n), worth(r, m, 10^8, 0, n))

  /** n payments and a part of one more; none asked about at no rate */
  pure def oddTerm(r: int, m: Freq, pay: int, end: int, n: int): { num: int, den: int, value: int } = {
    val den = List(2, 3, 7, 30)[n % 4]
    val num = n * den + 1 + n / 4 % (den - 1)
    if (mag(per(given(r), m)) < ONE / 1000) { num: 0, den: 1, value: 0 } else {
      val i = per(given(r), m)
      val g = pow(ONE + i, num, den)
      { num: num, den: den, value: 0 - div(mul(given(pay), ONE - recip(g)), i) - div(given(end), g) }
    }
  }

  action sign = {
    nondet z = 0.to(7).oneOf()
    nondet zp = 0.to(7).oneOf()
    nondet zf = 0.to(10).oneOf()
    nondet zn = 0.to(3).oneOf()
    nondet k = 0.to(3).setOfMaps(0.to(999999)).oneOf()
    nondet b = OFTENEST.indices().oneOf()
    val r = rateOf(z, k.get(0))
    val m = if (per(r, OFTENEST[b]) < -90000000) (1, 1) else OFTENEST[b]
    val most = lesser(15000, greater(1, times(lesser(span(r), 40), m)))
    val n = if (zn == 0) 1 + k.get(1) % 3 else if (zn < 3) 1 + k.get(1) % lesser(most, 120) else 1 + k.get(1) % most
    // interest only: the payments are the interest on what is paid back at the end
    val only = zf == 10 and mag(r) <= 50000000
    val pay = if (only) r * m._2 * (1 + k.get(2) % 3000) else sumOf(zp, k.get(2))
    val end = if (only) 10^8 * m._1 * (1 + k.get(2) % 3000) else if (zf >= 8) 0 else if (zf >= 6) 100 * pay else sumOf(zf, k.get(3))
    all { op' = "Sign", arg' = { r: r, m: m, pay: pay, end: end }, left' = n, value' = worth(r, m, pay, end, n), odd' = oddTerm(r, m, pay, end, n),
          fund' = if (n <= 400 and end != 0) saving(r, m, end, n) else 0 }
  }
  pure def greater(a: int, b: int): int = if (a > b) a else b
  pure def lesser(a: int, b: int): int = if (a < b) a else b

  action pay = {
    nondet k = Set(1, 1, 2, 12, 100, 1000000).oneOf()
    val n = lesser(k, left)
    val i = per(given(arg.r), arg.m)
    all { left > 0, odd' = odd, fund' = 0, op' = "Pay", arg' = arg, left' = left - n,
          value' = range(0, n).foldl(value, (v, _) => after(v, i, given(arg.pay))) }
  }
  action init = sign
  action step = if (left == 0) sign else pay

  /** the closed formula, for a rate other than zero */
  pure def closed(r: int, m: Freq, pay: int, end: int, n: int): int = {
    val i = per(given(r), m)
    val g = up(ONE + i, n)
    0 - div(mul(given(pay), ONE - recip(g)), i) - div(given(end), g)
  }
  val inv = {
    val total = mag(given(arg.pay)) * (left + 1) + mag(given(arg.end)) + mag(value)
    val g = up(ONE + per(given(arg.r), arg.m), left)
    val err = mul(total, ONE / 10^16 + (g + recip(g)) / 10^25)
    and {
      left == 0 implies mag(value + given(arg.end)) <= err,
      fund != 0 implies mag(range(0, left).foldl(0, (v, _) => after(v, per(given(arg.r), arg.m), fund)) + given(arg.end)) <= mul(mag(given(arg.end)) + mag(fund) * left, ONE / 10^16 + g / 10^25),
      arg.r == 0 implies value == -left * given(arg.pay) - given(arg.end),
      // between the values for the whole numbers of payments before and after
      (odd.num != 0 and op == "Sign" and per(given(arg.r), arg.m) > 0 and arg.pay * arg.end >= 0) implies {
        val a = closed(arg.r, arg.m, arg.pay, arg.end, odd.num / odd.den)
        val b = closed(arg.r, arg.m, arg.pay, arg.end, odd.num / odd.den + 1)
        (odd.value - a) * (odd.value - b) <= 0 or mag(odd.value - a) <= err
      },
      arg.r != 0 implies mag(value - closed(arg.r, arg.m, arg.pay, arg.end, left)) <= err,
    }
  }
}
