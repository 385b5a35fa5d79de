// -*- mode: quint -*-
/** How given numbers are drawn: from strata, so that each kind of number occurs often. */
module strata {
  import fix.* from "./fix"

  /** a rate per year in 10^-8, above -100%: none, tiny, small, usual, negative, steep, steeply negative */
  pure def rateOf(z: int, r: int): int =
    if (z == 0) 0
    else if (z == 1) (if (r % 2 == 0) 1 else -1) * (1 + (r / 2) % 99) * 10^(r / 2 % 4)   // 10^-8 to 0.1 %
    else if (z == 2) (if (r % 2 == 0) 1 else -1) * (100000 + (r / 2) % 900000)     // to 1 %
    else if (z == 3) 1000000 + r * 10                                              // 1 % to 11 %
    else if (z == 4) 250000 * (r % 120)                                            // round rates to 30 %
    else if (z == 5) -(r * 30)                                                     // 0 to -30 %
    else if (z == 6) 30000000 + r * 470                                            // 30 % to 500 %
    else if (z == 7) -30000000 - r * 60                                            // -30 % to -90 %
    else -90000000 - r * 99 / 10                                                   // -90 % to -99.9 %
  /** years a rate can run without leaving the range of the numbers */
  pure def span(r: int): int = if (mag(r) <= 30000000) 100 else if (r < -99000000) 4 else if (r < -92000000) 6 else if (r < -90000000) 12 else if (r > 200000000) 9 else 13

  /** amounts in 10^-8, of every size */
  pure def sumOf(z: int, r: int): int =
    (if (z % 2 == 0) 1 else -1) * (
      if (z < 2) 10^8 * (1 + r % 1000)
      else if (z < 4) 10^6 * (1 + r)
      else if (z < 6) 10^8 * (1 + r) * 1000
      else 10000 + r * 137)

  /** how often per period, a/b times: also once in several periods, or 3 times in 2 */
  type Freq = (int, int)
  pure val OFTEN: List[Freq] = List((1, 1), (2, 1), (3, 1), (4, 1), (6, 1), (12, 1), (24, 1), (26, 1), (52, 1), (360, 1), (365, 1),
    (1, 2), (1, 4), (3, 2), (5, 2))
  /** also every hour */
  pure val OFTENEST: List[Freq] = OFTEN.concat(List((720, 1), (1000, 1), (2500, 1), (8760, 1)))
  pure def per(x: int, m: Freq): int = x * m._2 / m._1
  pure def times(x: int, m: Freq): int = x * m._1 / m._2

  pure val FREQS: List[int] = List(1, 2, 3, 4, 6, 12, 24, 26, 52, 360, 365)
  pure val PARTS: List[int] = List(1, 2, 4, 12, 7, 52, 360, 365)
}
