// -*- mode: quint -*-
/** The points of rate curves: how they are drawn, and the lines between them. */
module ratecurve {
  import fix.* from "./fix"
  import strata.* from "./strata"

  /** the straight line from point k (1, 2, ...) to the next, a/b of the way */
  pure def between(p: List[int], k: int, a: int, b: int): int =
    if (a == 0) p[k - 1] else p[k - 1] + (p[k] - p[k - 1]) * a / b

  // --------------------------------------------------------- drawing a curve

  /** n points from a first one on: level, rising, falling, humped, at random, with a
   *  fall to nothing or a change of sign */
  pure def drawn(shape: int, n: int, first: int, w: int -> int): List[int] =
    range(0, n).foldl(List(), (a, i) => {
      val u = w.get(i % 60) % 1000
      val x = if (shape == 0) first
        else if (shape == 1) first + i * 30000000 / n / 4
        else if (shape == 2) first - i * 8000000 / n
        else if (shape == 3) first + 40000 * (if (2 * i < n) i else n - i) * 100 / n
        else if (shape == 4) first + u * 5000
        else if (shape == 5) (if (u < 500) 0 else first)
        else (u - 500) * 20000
      a.append(given(if (x < -20000000) -20000000 else x))
    })
  pure val ALLFREQ: List[Freq] = List((1, 1), (2, 1), (3, 1), (4, 1), (6, 1), (12, 1), (26, 1), (49, 1), (52, 1), (98, 1), (103, 1),
    (107, 1), (187, 1), (360, 1), (365, 1), (1, 2), (1, 4), (3, 2), (5, 2))
  pure val LENGTHS: List[int] = List(1, 2, 3, 6, 10, 20, 60, 150)

  action someCurve(use: (Freq, List[int]) => bool): bool = {
    nondet shape = 0.to(6).oneOf()
    nondet z = 0.to(5).oneOf()
    nondet k = 0.to(3).setOfMaps(0.to(999999)).oneOf()
    nondet w = 0.to(59).setOfMaps(0.to(999999)).oneOf()
    nondet f = ALLFREQ.indices().oneOf()
    nondet n = LENGTHS.indices().oneOf()
    val q = ALLFREQ[f]
    // over 60 periods at most
    val most = times(60, q)
    use(q, drawn(shape, if (LENGTHS[n] < most) LENGTHS[n] else most, rateOf(z, k.get(0)), w))
  }
}
