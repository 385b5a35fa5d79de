// -*- mode: quint -*-
/** Two numbers that are nudged, scaled, swapped and mirrored, and when they count as
 *  equal: both are below 10^-8, or they differ by less than a millionth of the larger. */
module near {
  import fix.* from "./fix"

  var op: str
  var x: int                 // to 40 decimals
  var y: int
  var same: bool             // whether they count as equal
  var nought: bool           // whether x counts as zero
  var open: bool             // too near to the border for 64 bits to tell

  pure val MICRO: int = ONE / 10^6
  pure val TINY: int = ONE / 10^8

  pure def larger(a: int, b: int): int = if (mag(a) > mag(b)) mag(a) else mag(b)
  pure def equalTo(a: int, b: int): bool = larger(a, b) < TINY or mag(a - b) * 10^6 < larger(a, b)
  /** within a part in 10^8 of either border */
  pure def onBorder(a: int, b: int): bool = {
    val m = larger(a, b)
    or {
      mag(m - TINY) * 10^8 < TINY,
      mag(mag(a) - TINY) * 10^8 < TINY,
      m >= TINY and mag(mag(a - b) * 10^6 - m) * 10^8 < m,
    }
  }
  /** m * 10^e with m of nine digits */
  pure def float(neg: int, m: int, e: int): int = (if (neg % 2 == 0) 1 else -1) * m * 10^(e + 40)

  action become(name: str, a: int, b: int): bool = all {
    op' = name, x' = a, y' = b, same' = equalTo(a, b), nought' = mag(a) < TINY, open' = onBorder(a, b),
  }

  action anything = {
    nondet m = 0.to(1).setOfMaps(100000000.to(999999999)).oneOf()
    nondet e = 0.to(1).setOfMaps((-22).to(12)).oneOf()
    nondet s = 0.to(1).setOfMaps(0.to(3)).oneOf()
    val a = if (s.get(0) == 3 and m.get(0) % 5 == 0) 0 else float(s.get(0), m.get(0), e.get(0))
    become("Fresh", a, if (m.get(1) % 3 == 0) a else float(s.get(1), m.get(1), if (m.get(1) % 3 == 1) e.get(0) else e.get(1)))
  }
  /** y is x, off by a part in 10^4, 10^5, ... or by a millionth and a bit */
  action nudge = {
    nondet k = 0.to(12).oneOf()
    nondet d = 100.to(999).oneOf()
    nondet side = Set(1, -1).oneOf()
    nondet fine = 0.to(7).oneOf()
    nondet how = 0.to(2).oneOf()
    val off = if (how == 0) mag(x) * d / 10^(k + 4)
      else if (how == 1) mag(x) / 10^6 + side * mag(x) / 10^(6 + fine)
      else mag(x) / 10^6
    all { x != 0, become("Nudge", x, if (d % 2 == 0) x - off else x + off) }
  }
  /** numbers around 10^-8, also against zero */
  action tiny = {
    nondet k = 0.to(7).oneOf()
    nondet d = 1.to(99).oneOf()
    nondet side = 0.to(7).oneOf()
    nondet other = 0.to(6).oneOf()
    val a0 = TINY + (if (side % 2 == 0) 1 else -1) * TINY * d / 10^(k + 2)
    val a = if (side / 2 % 2 == 0) a0 else -a0
    val b = if (other == 0) 0 else if (other == 1) -a else if (other == 2) a / 2 else if (other == 3) a * d else if (other == 4) a / 10^d
      else if (other == 5) a + a / 10^5 else a
    if (side < 4) become("Tiny", a, b) else become("Tiny", b, a)
  }
  action swap = become("Swap", y, x)
  action mirror = {
    nondet which = 0.to(2).oneOf()
    become("Mirror", if (which == 1) x else -x, if (which == 0) y else -y)
  }
  action rescale = {
    nondet e = (-9).to(9).oneOf()
    nondet f = 2.to(9).oneOf()
    val g = if (e < 0) x * f / 10^(-e) else x * f * 10^e
    val h = if (e < 0) y * f / 10^(-e) else y * f * 10^e
    if (larger(g, h) > 10^25 * ONE) become("Fresh", 3 * ONE, 2 * ONE) else become("Scale", g, h)
  }

  action init = anything
  action step = any { anything, nudge, nudge, tiny, swap, mirror, rescale }

  val inv: bool = and {
    same == equalTo(y, x), same == equalTo(-x, -y), equalTo(x, x),
    nought implies equalTo(x, 0),
    x != 0 and not(nought) implies not(equalTo(x, 0)),
    same and not(equalTo(x, 0)) implies x * y > 0 or larger(x, y) < TINY,
    // above the border the scale does not matter
    larger(x, y) >= TINY implies equalTo(1000 * x, 1000 * y) == same,
    same implies equalTo(x / 1000, y / 1000) or larger(x, y) < 10^12,
  }
}
