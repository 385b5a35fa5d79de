// -*- mode: quint -*-
/** Real numbers to 40 decimals: the integer x stands for x / 10^40. The functions
 *  are from their series, with errors of a few units of the last place (times the
 *  magnitude of the result); the theorems below pin them down. */
module fix {
  pure val ONE: int = 10^40
  pure val LN2: int = 6931471805599453094172321214581765680755

  pure def mag(x: int): int = if (x < 0) -x else x
  /** x units of 10^-8, the grain of all given numbers */
  pure def given(x: int): int = x * 10^32
  pure def whole(n: int): int = n * ONE
  pure def ratio(a: int, b: int): int = a * ONE / b
  pure def mul(a: int, b: int): int = a * b / ONE
  pure def div(a: int, b: int): int = a * ONE / b
  pure def recip(a: int): int = ONE * ONE / a

  /** x to the whole power n >= 0 (n < 2^22) */
  pure def up(x: int, n: int): int =
    range(0, 22).foldl({ y: ONE, p: x, k: n }, (s, _) =>
      if (s.k == 0) s
      else { y: if (s.k % 2 == 1) mul(s.y, s.p) else s.y, p: if (s.k == 1) s.p else mul(s.p, s.p), k: s.k / 2 }).y

  /** natural logarithm: x = m * 2^k with m near 1, ln m = 2 artanh((m-1)/(m+1)) */
  pure def ln(x: int): int = {
    val s = range(0, 140).foldl({ m: x, k: 0 }, (s, _) =>
      if (3 * s.m > 4 * ONE) { m: s.m / 2, k: s.k + 1 }
      else if (3 * s.m < 2 * ONE) { m: 2 * s.m, k: s.k - 1 }
      else s)
    val z = div(s.m - ONE, s.m + ONE)
    val q = mul(z, z)
    s.k * LN2 + 2 * range(0, 30).foldl({ t: z, a: 0 }, (a, i) => { t: mul(a.t, q), a: a.a + a.t / (2 * i + 1) }).a
  }

  pure def exp(x: int): int = {
    val k = (2 * mag(x) + LN2) / (2 * LN2) * (if (x < 0) -1 else 1)
    val r = x - k * LN2
    val e = range(1, 36).foldl({ t: ONE, a: ONE }, (s, i) => { val t = mul(s.t, r) / i { t: t, a: s.a + t } }).a
    if (k >= 0) e * 2^k else e / 2^(-k)
  }

  /** x to the power a/b */
  pure def pow(x: int, a: int, b: int): int =
    if (a % b == 0) (if (a >= 0) up(x, a / b) else recip(up(x, -a / b)))
    else exp(ln(x) * a / b)
  /** x to the real power y */
  pure def rpow(x: int, y: int): int = exp(mul(ln(x), y))

  pure def sum(l: List[int]): int = l.foldl(0, (a, x) => a + x)

  /** a and b agree to 10^-25 of a size */
  pure def agree(a: int, b: int, scale: int): bool = mag(a - b) <= 10^15 + mag(scale) / 10^25

  // --------------------------------------------------------------- theorems
  pure val XS: List[int] = List(ONE / 10^9, ONE / 7, ratio(2, 3), ratio(9, 10), ONE - 10^32, ONE, ONE + 10^32,
    ratio(11, 10), ratio(4, 3), ratio(3, 2), 2 * ONE, 3 * ONE, 1000 * ONE, 10^9 * ONE + 12345)
  pure val YS: List[int] = List(-20 * ONE, -3 * ONE / 2, -LN2, -LN2 / 2, -10^32, 0, 10^30, LN2 / 2, ONE, ratio(7, 3), 20 * ONE)

  /** Euler's number and the logarithm of ten, to the digits */
  run constantsTest = all {
    assert(mag(exp(ONE) - 27182818284590452353602874713526624977572) < 100),
    assert(mag(ln(10 * ONE) - 23025850929940456840179914546843642076011) < 100),
    assert(mag(exp(-ONE) - 3678794411714423215955237701614608674458) < 100),
    assert(exp(0) == ONE), assert(ln(ONE) == 0),
  }
  run inverseTest = all {
    assert(XS.indices().forall(i => agree(exp(ln(XS[i])), XS[i], XS[i]))),
    assert(YS.indices().forall(i => agree(ln(exp(YS[i])), YS[i], YS[i] + exp(-YS[i])))),
  }
  run productsTest = all {
    assert(XS.indices().forall(i => XS.indices().forall(j =>
      XS[i] > ONE / 10^8 implies XS[j] > ONE / 10^8 implies agree(ln(mul(XS[i], XS[j])), ln(XS[i]) + ln(XS[j]), ONE)))),
    assert(YS.indices().forall(i => YS.indices().forall(j => agree(exp(YS[i] + YS[j]), mul(exp(YS[i]), exp(YS[j])), exp(mag(YS[i]) + mag(YS[j])))))),
  }
  run powersTest = all {
    assert(XS.indices().forall(i => 1.to(12).forall(n => XS[i] > ONE / 100 and XS[i] < 100 * ONE implies
      agree(up(pow(XS[i], 1, n), n), XS[i], XS[i])))),
    assert(XS.indices().forall(i => 0.to(9).forall(n => XS[i] > ONE / 100 implies agree(exp(n * ln(XS[i])), up(XS[i], n), up(XS[i], n))))),
    assert(up(ratio(101, 100), 2) == ratio(10201, 10000)),
    assert(agree(mul(pow(ratio(3, 2), -7, 3), pow(ratio(3, 2), 7, 3)), ONE, ONE)),
  }
}
