// -*- mode: quint -*-
/** A schedule of cash flows that grows flow by flow, is reordered and revalued; its
 *  net present value is kept up to date one flow at a time. Times are in 1/360 of a
 *  period; dated flows are at their US 30/360 time from the reference date. */
module flows {
  import fix.* from "./fix"
  import strata.* from "./strata"
  import dates.* from "./dates"
  import daycount.* from "./daycount"

  type Flow = { t: int, q: int, d: int, c: int }     // time (and 1/100000 of its unit), date, amount

  var op: str
  var flow: List[Flow]
  var rate: int
  var time0: int                                     // moved to this time
  var ref: int                                       // the reference date
  var npv: int                                       // at time zero
  var npvAt: int                                     // at time0
  var xnpv: int                                      // by date, at ref
  var gross: { t: int, at: int, x: int }             // the same for the flows' magnitudes

  pure def disc(l: int, t: int): int = exp(-l * t / 360)
  pure def fine(l: int, t: int, q: int): int = if (q == 0) disc(l, t) else exp(-l * (100000 * t + q) / 36000000)
  type Worth = { n: int, g: int, x: int, gx: int }     // by time, by date; g: of the magnitudes
  pure def worth(l: int, d0: int, f: List[Flow]): Worth = f.foldl({ n: 0, g: 0, x: 0, gx: 0 }, (a, y) => {
    val v = mul(given(y.c), fine(l, y.t, y.q))
    val w = mul(given(y.c), disc(l, us360(d0, y.d)))
    { n: a.n + v, g: a.g + mag(v), x: a.x + w, gx: a.gx + mag(w) }
  })

  /** everything anew, for schedule f */
  action valued(name: str, f: List[Flow], r: int, t0: int, d0: int): bool = {
    val l = ln(ONE + given(r))
    val w = worth(l, d0, f)
    all { op' = name, flow' = f, rate' = r, time0' = t0, ref' = d0,
          npv' = w.n, npvAt' = mul(w.n, disc(l, -t0)), xnpv' = w.x,
          gross' = { t: w.g, at: mul(w.g, disc(l, -t0)), x: w.gx } }
  }
  /** more flows, at the end: what they are worth is added */
  action more(name: str, f: List[Flow]): bool = {
    val l = ln(ONE + given(rate))
    val w = worth(l, ref, f)
    val u = disc(l, -time0)
    all { op' = name, flow' = flow.concat(f), rate' = rate, time0' = time0, ref' = ref,
          npv' = npv + w.n, npvAt' = npvAt + mul(w.n, u), xnpv' = xnpv + w.x,
          gross' = { t: gross.t + w.g, at: gross.at + mul(w.g, u), x: gross.x + w.gx } }
  }

  /** how far the schedule may reach, in years: at steep rates less */
  pure def reach(r: int): int = if (mag(r) <= 30000000) 40 else if (mag(r) > 500000000) 2 else 5

  action start = {
    nondet z = 0.to(9).oneOf()
    nondet k = 0.to(3).setOfMaps(0.to(999999)).oneOf()
    val r = if (z == 9) 500000000 + k.get(0) * 4500 else rateOf(z, k.get(0))     // also to 5000 %
    valued("Start", List(), r, if (k.get(3) % 8 == 0) 0 else (k.get(1) % (2 * 360 * reach(r))) - 360 * reach(r), plusDays(19800101, k.get(2) % 20000))
  }
  action add = {
    nondet za = 0.to(7).oneOf()
    nondet zt = 0.to(3).oneOf()
    nondet e = Set(0, 28, 29, 30, 31).oneOf()
    nondet k = 0.to(3).setOfMaps(0.to(999999)).oneOf()
    // now and then just before or after the one before
    val near = flow.length() > 0 and k.get(3) % 6 == 0
    val y = reach(rate)
    val t = if (zt == 0) 360 * (k.get(0) % (y + 1)) else if (zt == 3) -(k.get(0) % 3600) else k.get(0) % (360 * y)
    val d = plusDays(ref, (k.get(1) % (if (zt == 0) 800 else 700 * y)) - (if (zt == 0) 400 else 350 * y))
    more("Add", List({ t: if (near) flow[flow.length() - 1].t else t, q: if (near) k.get(3) % 400 - 200 else 0, d: if (e == 0) d else mk(yearOf(d), monthOf(d), lesser(e, monthDays(yearOf(d), monthOf(d)))), c: sumOf(za, k.get(2)) * (if (k.get(3) % 11 == 0) 10^4 else 1) }))
  }
  /** a regular series: every so often n times, by date monthly */
  action series = {
    nondet za = 0.to(7).oneOf()
    nondet n = Set(5, 12, 60, 150).oneOf()
    nondet every = Set(1, 12, 30, 90, 360, 361).oneOf()
    nondet k = 0.to(2).setOfMaps(0.to(999999)).oneOf()
    val cap = lesser(n, 360 * reach(rate) / every)
    val first = k.get(0) % 360
    val day = 1 + k.get(2) % 31
    more("Series", range(0, cap).foldl(List(), (a, i) => a.append({
      t: first + i * every, q: 0, d: monthsAway(ref, (i + 1) * (if (every <= 30) 1 else 3) % (12 * reach(rate)), day), c: sumOf(za, k.get(1)) })))
  }
  /** the order does not matter */
  action reordered(name: str, f: List[Flow]): bool = all {
    op' = name, flow' = f, rate' = rate, time0' = time0, ref' = ref, npv' = npv, npvAt' = npvAt, xnpv' = xnpv, gross' = gross,
  }
  action turn = reordered("Turn", range(0, flow.length()).foldl(List(), (a, i) => a.append(flow[flow.length() - 1 - i])))
  action rotate = {
    nondet k = Set(1, 2, 5, 17).oneOf()
    val n = flow.length()
    all { n > 1, reordered("Rotate", range(0, n).foldl(List(), (a, i) => a.append(flow[(i + k) % n]))) }
  }
  action reprice = {
    nondet z = 0.to(5).oneOf()
    nondet k = 0.to(3).setOfMaps(0.to(999999)).oneOf()
    val r = rateOf(z, k.get(0))
    val shift = (k.get(2) % 2000) - 1000
    all { reach(rate) == 40 or mag(r) <= 30000000,
          valued("Reprice", flow, r, if (k.get(3) % 8 == 0) 0 else (k.get(1) % 7200) - 3600, plusDays(ref, shift)) }
  }
  action init = start
  action step = {
    nondet k = 0.to(9).oneOf()
    if (k <= 2) add else if (k <= 4) series else if (k == 5) turn else if (k == 6 and flow.length() > 1) rotate
    else if (k <= 8) reprice else (if (flow.length() > 20) start else add)
  }

  val inv = {
    val w = worth(ln(ONE + given(rate)), ref, flow.slice(0, lesser(flow.length(), 24)))
    and {
      // one flow at a time comes to the same as all at once
      flow.length() <= 24 implies and { agree(npv, w.n, gross.t), agree(xnpv, w.x, gross.x) },
      mag(npv) <= gross.t + 10^20, flow.length() == 0 implies npv == 0 and xnpv == 0,
      rate == 0 implies npv == flow.foldl(0, (a, x) => a + given(x.c)) and npvAt == npv and xnpv == npv,
      time0 == 0 implies npvAt == npv,
    }
  }
}
