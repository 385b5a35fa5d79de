// -*- mode: quint -*-
/** Forward rates: money invested on a nominal spot curve with f compoundings a period
 *  is moved, at stops along the way, to the forward rate up to the next stop. Wherever
 *  it is then, it has grown as the spot rate for that time says. */
module forwards {
  import fix.* from "./fix"
  import strata.* from "./strata"
  import ratecurve.* from "./ratecurve"

  var did: str                       // "Fresh", "Stop"
  var every: Freq
  var rates: List[int]
  var from: (int, int)               // the stop before: at a/b of the way from one point to the next ...
  var stop: (int, int)               //   point index, thousandths
  var fwd: int                       // the forward rate between the two
  var worth: int                     // of one unit invested at the start, at the stop
  var direct: int                    // forward rate from the first stop to this one
  var first: (int, int)

  /** growth over the time of a stop, at its spot rate */
  pure def grown(p: List[int], f: Freq, s: (int, int)): int =
    pow(ONE + per(between(p, s._1, s._2, 1000), f), s._1 * 1000 + s._2, 1000)
  pure def ticks(s: (int, int)): int = s._1 * 1000 + s._2
  pure def forward(p: List[int], f: Freq, s: (int, int), t: (int, int)): int =
    times(pow(div(grown(p, f, t), grown(p, f, s)), 1000, ticks(t) - ticks(s)) - ONE, f)

  pure def place(n: int, k: int, j: int, e: int): (int, int) = {
    val a = 1 + k % n
    (a, if (a == n) 0 else if (e == 0) 0 else j % 1000)
  }
  action fresh2 = {
    nondet k = 0.to(3).setOfMaps(0.to(999999)).oneOf()
    nondet e = Set(0, 0, 1).oneOf()
    someCurve((f, p) => {
      val n = p.length()
      val s = if (k.get(3) % 3 == 0) (1, 0) else place(n, k.get(0) % (n / 2 + 1), k.get(1), e)
      all { did' = "Fresh", every' = f, rates' = p, from' = s, stop' = s, first' = s, fwd' = 0, direct' = 0, worth' = grown(p, f, s) }
    })
  }
  action onwards = {
    nondet k = 0.to(3).setOfMaps(0.to(999999)).oneOf()
    nondet e = Set(0, 1).oneOf()
    val n = rates.length()
    val more = n - stop._1
    val a = stop._1 + (if (more <= 0) 0 else if (e == 0) 1 else k.get(0) % lesserOf(more + 1, 12))
    val t = (a, if (a == n) 0 else if (e == 0) 0 else if (a == stop._1) stop._2 + k.get(1) % (1000 - stop._2) else k.get(1) % 1000)
    val r = forward(rates, every, stop, t)
    all {
      ticks(t) >= ticks(stop) + 20,
      did' = "Stop", every' = every, rates' = rates, from' = stop, stop' = t, first' = first, fwd' = r,
      worth' = mul(worth, pow(ONE + per(r, every), ticks(t) - ticks(stop), 1000)),
      direct' = forward(rates, every, first, t),
    }
  }
  pure def lesserOf(a: int, b: int): int = if (a < b) a else b
  action fwdInit = fresh2
  action fwdStep = {
    nondet again = 0.to(7).oneOf()
    if (again == 0 or stop._1 >= rates.length()) fresh2
    else any { onwards, fresh2 }
  }

  val fwdInv = and {
    // no gain from moving the money about
    agree(worth, grown(rates, every, stop), 10^6 * (worth + ONE)),
    did == "Stop" implies and {
      (rates.indices().forall(i => rates[i] == rates[0])) implies mag(fwd - rates[0]) < 10^15 * every._1,
      ticks(first) < ticks(stop),
      mag(mul(grown(rates, every, first), pow(ONE + per(direct, every), ticks(stop) - ticks(first), 1000)) - worth) < 10^16 * (1 + worth / ONE),
    },
  }
}
