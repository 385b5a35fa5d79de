// -*- mode: quint -*-
/** Schedules of cash flows of which all internal rates of return are known, because
 *  the schedules are made from them. Times are in 1/360 of a period. */
module irr {
  import fix.* from "./fix"
  import strata.* from "./strata"
  import dates.* from "./dates"
  import daycount.* from "./daycount"

  type Flow = { t: int, d: int, c: int }             // c to 40 decimals

  var op: str
  var flow: List[Flow]
  var dated: bool
  var rates: List[int]       // every rate above -100% at which the flows are worth nothing
  var found: bool            // one of them has to be found; else none at all need be

  pure def disc(l: int, t: int): int = exp(-l * t / 360)
  pure def worth(r: int, f: List[Flow]): int = {
    val l = ln(ONE + r)
    f.foldl(0, (a, x) => a + mul(x.c, disc(l, x.t)))
  }
  action now(name: str, f: List[Flow], isDated: bool, rs: List[int], must: bool): bool = all {
    op' = name, flow' = f, dated' = isDated, rates' = rs, found' = must,
  }

  /** outlay first, receipts later: the first outlay is what the receipts, less the
   *  other outlays, are worth at the rate; so they yield it, and nothing else */
  action invest = {
    nondet n = Set(1, 1, 2, 3, 10, 40, 120).oneOf()
    nondet outs = Set(0, 0, 0, 1, 3).oneOf()
    nondet size1 = Set(1, 100, 10^5, 10^9, 10^14).oneOf()
    nondet hollow = 0.to(5).oneOf()
    nondet zr = 0.to(4).oneOf()
    nondet years = Set(1, 2, 3, 5, 10, 20, 30).oneOf()
    nondet byDate = Set(true, false).oneOf()
    nondet regular = Set(true, false).oneOf()
    nondet w = 0.to(129).setOfMaps(0.to(999999)).oneOf()
    nondet k = 0.to(5).setOfMaps(0.to(999999)).oneOf()
    nondet flip = Set(true, false, false).oneOf()
    nondet shuffle = Set(true, false).oneOf()
    nondet z0 = 0.to(2).oneOf()
    // 0 to 60 %, or losing up to 0.3 / horizon; with several outlays 2 to 60 %
    val r0 = given(if (zr == 0) 0 else if (zr == 1) -(k.get(0) * 30 / years) else if (zr == 2) 30000000 + k.get(0) * 30 else k.get(0) * 30)
    val late = byDate and z0 == 0 and years <= 5
    val r1 = if (outs > 0) ONE / 50 + mul(mag(r0), ratio(58, 60)) else r0
    // without dates the clock may have started later than the first flow, or a little earlier
    val moved = not(byDate) and z0 == 1 and years <= 5
    val shift = if (moved) k.get(4) % 2089 - 1800 else 0
    val r = if ((late or moved) and r1 > 0) r1 * 25 / 60 else r1
    val start = plusDays(19800101, k.get(1) % 16000)
    val last = 360 * years
    // outlays within the first tenth of the horizon, receipts after
    val ts = range(0, outs).foldl(List(0), (a, i) => a.append(1 + w.get(120 + i) % lesser(last / 10, 700)))
    val u0 = last / 10 + 1
    val rts = range(0, n).foldl(List(), (a, i) => a.append(
      if (i + 1 == n) last
      else if (regular) u0 + (i + 1) * (last - u0) / n
      else u0 + (w.get(i) * 7919) % (last - u0)))
    def day(t) = plusDays(start, t * 365 / 360)
    // by date, times are what the day count makes of them, from the flow that is
    // listed first, which need not be the earliest
    val at = k.get(3) % n
    val ref = if (late) day(rts[at]) else start
    def tim(t) = if (byDate) us360(ref, day(t)) else t + shift
    val l = ln(ONE + r)
    val receipts = range(0, n).foldl(List(), (a, i) => a.append({ t: tim(rts[i]), d: day(rts[i]), c: given(size1 * (100 + w.get(i) % 10000) * 10^5) }))
    val back = receipts.foldl(0, (a, x) => a + mul(x.c, disc(l, x.t)))
    val others = range(1, outs + 1).foldl(List(), (a, i) => a.append({ t: tim(ts[i]), d: day(ts[i]), c: 0 - mul(div(back, disc(l, tim(0))), ratio(1 + w.get(125 + i - 1) % 25, 100)) }))
    val spent = others.foldl(0, (a, x) => a + mul(x.c, disc(l, x.t)))
    val f0 = List({ t: tim(0), d: start, c: 0 - div(back + spent, disc(l, tim(0))) })
    val f1 = others.concat(receipts)
    val m = f1.length()
    val f2 = if (shuffle) range(0, m).foldl(List(), (a, i) => a.append(f1[(m - 1 - i + k.get(2)) % m])) else f1
    val rest = range(0, n).foldl(List(), (a, i) => if (i == at) a else a.append(receipts[i]))
    val f = if (late) List(receipts[at]).concat(if (shuffle) others.concat(rest).concat(f0) else f0.concat(others).concat(rest))
            else f0.concat(f2)
    // flows of nothing: before the rest (of the same time as the first), or in between
    val nil = { ...f[0], c: 0 }
    val g = if (hollow == 0) List(nil).concat(f) else if (hollow == 1) List(nil, nil).concat(f).append({ ...f[f.length() - 1], c: 0 })
            else if (hollow == 2) f.slice(0, 1).append(nil).concat(f.slice(1, f.length())) else f
    now("Invest", if (flip) g.foldl(List(), (a, x) => a.append({ ...x, c: -x.c })) else g, byDate, List(r), true)
  }

  /** all flows have the same sign: worth nothing at no rate */
  action oneSign = {
    nondet n = Set(1, 2, 3, 10, 60).oneOf()
    nondet byDate = Set(true, false).oneOf()
    nondet neg = Set(true, false).oneOf()
    nondet z = 0.to(3).oneOf()
    nondet w = 0.to(59).setOfMaps(0.to(999999)).oneOf()
    nondet k = 0.to(3).setOfMaps(0.to(999999)).oneOf()
    val start = plusDays(19800101, k.get(0) % 16000)
    val f = range(0, n).foldl(List(), (a, i) => {
      val t = if (i == 0 and z != 3) 0 else 1 + (w.get(i) * 31) % 9000
      a.append({ t: if (byDate) us360(start, plusDays(start, t)) else t, d: plusDays(start, t),
                 c: (if (neg) -1 else 1) * given(sumOf(2 * z, w.get(i)))})
    })
    now("OneSign", f, byDate and z != 3, List(), false)
  }

  /** flows at 0, 1, 2, ...: a polynomial in the discount factor with chosen roots,
   *  and perhaps a factor without any */
  action polynomial = {
    nondet n = Set(0, 1, 2, 2, 3).oneOf()
    nondet quad = Set(true, false).oneOf()
    nondet k = 0.to(7).setOfMaps(0.to(999999)).oneOf()
    nondet period = Set(360, 180, 720).oneOf()
    nondet scale = Set(1, 1000, 10^6).oneOf()
    // rates apart from one another: -30..-5 %, 2..25 %, 40..150 %
    val rs = List(given(2000000 + k.get(0) * 23), given(-5000000 - k.get(1) * 25), given(40000000 + k.get(2) * 110))
    val chosen = rs.slice(0, n)
    val disc1 = chosen.foldl(List(), (a, r) => a.append(exp(-ln(ONE + r) * period / 360)))
    val p1 = disc1.foldl(List(whole(scale)), (p, v) => range(0, p.length() + 1).foldl(List(), (q, i) =>
      q.append((if (i > 0) p[i - 1] else 0) - (if (i < p.length()) mul(v, p[i]) else 0))))
    // v^2 - 2 a v + a^2 + b, b > 0
    val a = ratio(k.get(3) % 2000 - 500, 1000)
    val b = ratio(5 + k.get(4) % 1000, 100)
    val q0 = mul(a, a) + b
    val p2 = if (not(quad) and n > 0) p1 else range(0, p1.length() + 2).foldl(List(), (q, i) => q.append(
      (if (i >= 2) p1[i - 2] else 0) - (if (i >= 1 and i - 1 < p1.length()) 2 * mul(a, p1[i - 1]) else 0)
      + (if (i < p1.length()) mul(q0, p1[i]) else 0)))
    now("Polynomial", range(0, p2.length()).foldl(List(), (l, i) => l.append({ t: i * period, d: 20000101, c: p2[i] })), false, chosen, false)
  }

  action init = invest
  action step = any { invest, invest, oneSign, polynomial }

  val inv = and {
    rates.indices().forall(i => mag(worth(rates[i], flow)) <= 10^15 + flow.foldl(0, (a, x) => a + mag(x.c)) / 10^20),
    // an investment: above its rate it is worth less, below more
    op == "Invest" implies {
      val e = flow.select(x => x.c != 0).foldl({ t: 10^9, d: 0, c: 0 }, (a, x) => if (x.t < a.t) x else a)
      val s = if (e.c < 0) 1 else -1
      s * worth(rates[0] + ONE / 50, flow) < 0 and s * worth(rates[0] - ONE / 50, flow) > 0
    },
    op == "OneSign" implies flow.foldl(true, (a, x) => a and x.c * flow[0].c > 0),
    // nowhere else does it change its sign
    op == "Polynomial" implies {
      val roots = rates.length()
      val grid = range(0, 40).foldl(List(), (l, i) => l.append(worth(given(-80000000 + 6500000 * i), flow)))
      range(0, 39).foldl(0, (a, i) => a + (if ((grid[i] > 0) != (grid[i + 1] > 0)) 1 else 0)) <= roots
    },
  }
}
