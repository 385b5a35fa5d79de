// -*- mode: quint -*-
/** The root finder as a transition system: one correction of a guess at a time, until
 *  a correction is negligible (a root), the function is flat, gives no number, or a
 *  hundred corrections have been made. The arithmetic is exact to 40 decimals and the
 *  slope is the true one, so a verdict counts only where a finder that estimates the
 *  slope and rounds must come to the same: `sure`. */
module solver {
  import fix.* from "./fix"

  /** the functions: scale * shape(x) with parameters p and q */
  type Fun = { shape: str, p: List[int], scale: int }
  type Value = { f: int, d: int, ok: bool }          // value and slope; ok: a number

  var op: str                // "Ask", "Correct"
  var fun: Fun
  var x0: int
  var x: int
  var count: int             // corrections made
  var outcome: str           // "", "Root", "Flat", "NoNumber", "Limit"
  var sure: bool
  var roots: List[int]       // all there are
  var tol: int               // 10^-tol: the precision asked for

  pure val NONE: Value = { f: 0, d: 0, ok: false }

  /** prod (x - p_i), and its slope */
  pure def product(p: List[int], t: int): Value =
    p.foldl({ f: ONE, d: 0, ok: true }, (a, r) => { f: mul(a.f, t - r), d: mul(a.d, t - r) + a.f, ok: true })

  pure def shape(g: Fun, t: int): Value =
    if (g.shape == "poly") product(g.p, t)
    // a root at p0; towards it from the right a step of about one at a time
    else if (g.shape == "exp") { val e = exp(t - g.p[0]) { f: e - ONE, d: e, ok: true } }
    else if (g.shape == "expup") { val e = exp(t) { f: e + g.p[0], d: e, ok: true } }       // no root, flat far left
    else if (g.shape == "recip") (if (t == 0) NONE else { f: recip(t) - g.p[0], d: -recip(mul(t, t)), ok: true })
    else if (g.shape == "bowl") { f: mul(t, t) + g.p[0], d: 2 * t, ok: true }                // no root
    else if (g.shape == "const") { f: g.p[0], d: 0, ok: true }
    else if (g.shape == "log") (if (t <= 0) NONE else { f: ln(t) - g.p[0], d: recip(t), ok: true })
    else if (g.shape == "rootup") (if (t <= 0) NONE else { val h = pow(t, 1, 2) { f: h + g.p[0], d: recip(2 * h), ok: true } })
    // x^3 - 2x + 2 goes round between 0 and 1; at the size p0
    else {
      val u = div(t, g.p[0])
      { f: mul(g.p[0], mul(mul(u, u), u) - 2 * u + 2 * ONE), d: 3 * mul(u, u) - 2 * ONE, ok: true }
    }

  pure def at(g: Fun, t: int): Value = {
    val v = shape(g, t)
    { f: mul(v.f, g.scale), d: mul(v.d, g.scale), ok: v.ok }
  }

  action ask(g: Fun, start: int, rs: List[int], decided: bool): bool = {
    nondet e = Set(5, 6, 6, 6, 7).oneOf()
    all { op' = "Ask", fun' = g, x0' = start, x' = start, count' = 0, outcome' = "", sure' = decided, roots' = rs, tol' = e }
  }
  pure val ZERO_AT: int = ONE / 10^8

  /** draw a function and a starting point */
  action question = {
    nondet z = 0.to(16).oneOf()
    nondet k = 0.to(7).setOfMaps(0.to(999999)).oneOf()
    nondet s = Set(1, 10^3, 10^6, 10^9, 10^12).oneOf()
    val scale = s * 10^34                                   // 10^-6 to 10^6
    val big = ONE * s / 10^6
    def uniform(i, a, b) = a + (b - a) * k.get(i) / 1000000  // in units of ONE / 1000
    def milli(i, a, b) = uniform(i, a, b) * 10^37
    if (z <= 3) {
      // all roots real: from beyond the outermost root the guesses fall to it
      val n = 1 + k.get(0) % 5
      val gap = List(300, 1000, 4000)[k.get(1) % 3]
      // now and then all in one place: no simple root, it may or may not be found
      val apart = if (k.get(4) % 7 == 0) 0 else 1
      val rs = range(0, n).foldl(List(), (a, i) => a.append(
        milli(2, -3000, 3000) + apart * (i * gap + uniform(3 + i % 5, 0, gap / 2)) * 10^37))
      val far = if (k.get(7) % 4 == 0) milli(6, 100000, 900000) else milli(6, 10, 8000)
      val right = k.get(7) % 2 == 0
      val start = if (right) rs[n - 1] + far else rs[0] - far
      // the slope must not look flat at the roots
      val least = rs.foldl(10^12 * ONE, (a, r) => { val d = mag(product(rs, r).d) if (d < a) d else a })
      ask({ shape: "poly", p: rs, scale: if (mul(least, scale) < ONE / 10^5) ONE else scale }, start, rs, mul(least, ONE) > ONE / 1000)
    } else if (z <= 6) {
      // so many corrections, and a few more to settle
      val root = milli(0, -3000, 3000)
      val far = if (z == 4) milli(1, -3500, 5000) else if (z == 5) milli(1, 5000, 90000) else milli(1, 88000, 300000)
      ask({ shape: "exp", p: List(root), scale: if (far > 60 * ONE) ONE else scale }, root + far, List(root), true)
    } else if (z == 7) {
      ask({ shape: "expup", p: List(milli(0, 10, 9000)), scale: ONE }, milli(1, -3000, 20000), List(), true)
    } else if (z == 8) {
      val root = milli(0, 200, 20000)
      // within (0, 2 root) it settles, beyond it leaves for good
      val start = if (k.get(2) % 3 == 0) mul(root, milli(1, 2300, 9000)) else mul(root, milli(1, 60, 1850))
      ask({ shape: "recip", p: List(recip(root)), scale: ONE }, start, List(root), true)
    } else if (z == 9) {
      ask({ shape: "bowl", p: List(milli(0, 10, 9000)), scale: if (s < 10^6) ONE else scale }, milli(1, -9000, 9000), List(), false)
    } else if (z == 10) {
      ask({ shape: "const", p: List((if (k.get(0) % 2 == 0) 1 else -1) * big), scale: ONE }, milli(1, -9000, 9000), List(), true)
    } else if (z == 11) {
      val q = milli(0, -3000, 3000)
      val start = mul(exp(q), if (k.get(2) % 3 == 0) milli(1, 3200, 20000) else milli(1, 50, 2300))
      ask({ shape: "log", p: List(q), scale: ONE }, start, List(exp(q)), true)
    } else if (z == 12) {
      ask({ shape: "rootup", p: List(milli(0, 10, 9000)), scale: ONE }, milli(1, 10, 90000), List(), true)
    } else if (z == 14) {
      // far away and with a distant root
      val r1 = 1000 * milli(0, -100000, 100000)
      val r2 = r1 + 1000 * milli(1, 5000, 90000)
      // one, two, or one twice or three times (which may or may not be found)
      val rs = List(List(r1), List(r1, r2), List(r1, r1), List(r1, r1, r1))[k.get(3) % 4]
      val off = 1000 * milli(2, 500, 100000)
      ask({ shape: "poly", p: rs, scale: scale }, if (k.get(4) % 2 == 0) r1 - off else rs[rs.length() - 1] + off, rs, s > 1 and k.get(3) % 4 < 2)
    } else if (z == 15) {
      // a small round trip, on which the values are negligible and the corrections are not
      val small = k.get(1) % 2 == 1
      val a = if (small) milli(0, 5, 50) else milli(0, 5, 500)
      val low = if (small) 10^33 * (1 + k.get(2) % 9) else 10^35                  // from 10^-7
      ask({ shape: "cycle", p: List(a), scale: low }, if (k.get(3) % 2 == 0) 0 else a,
          List(mul(a, -17692923542386314152404094643350334926705)), true)
    } else {
      val far = k.get(2) % 3 == 0
      ask({ shape: "cycle", p: List(ONE), scale: ONE }, if (far) milli(1, -9000, -1500) else milli(1, -10, 10) + (if (k.get(3) % 2 == 0) 0 else ONE),
          List(-17692923542386314152404094643350334926705), true)
    }
  }
  action init = question

  type Run = { x: int, c: int, o: str }
  pure def once(g: Fun, s: Run): Run =
    if (s.o != "") s
    else {
      val v = at(g, s.x)
      if (not(v.ok)) { ...s, o: "NoNumber" }
      else if (mag(v.d) < ZERO_AT) { ...s, o: "Flat" }
      else {
        val by = div(v.f, v.d)
        // far out of all bounds: not within the range of numbers
        if (mag(s.x - by) > 10^60 * ONE) { ...s, o: "Flat" }
        else { x: s.x - by, c: s.c + 1, o: if (mag(by) < ZERO_AT) "Root" else "" }
      }
    }

  /** n corrections, unless it ends before */
  action correct = {
    nondet n = Set(1, 1, 7, 40, 100).oneOf()
    val s = range(0, n).foldl({ x: x, c: count, o: outcome }, (s, _) =>
      if (s.o == "" and s.c == 100) { ...s, o: "Limit" } else once(fun, s))
    // close to the limit either verdict may come
    val close = if (s.o == "Root") s.c > 95 else s.o == "Limit" and range(0, 6).foldl({ ...s, o: "" }, (s, _) => once(fun, s)).o != ""
    all { outcome == "",
      op' = if (s.o == "") "Correct" else s.o, fun' = fun, x0' = x0, x' = s.x, count' = s.c, outcome' = s.o, roots' = roots,
      sure' = (sure and not(close)), tol' = tol }
  }
  action step = if (outcome == "") correct else question

  val inv = and {
    count <= 100,
    roots.indices().forall(i => fun.shape != "cycle" implies mag(shape(fun, roots[i]).f) < ONE / 10^20 * (1 + mag(shape(fun, roots[i]).d) / ONE)),
    // a guess is only given for a root when it is one
    outcome == "Root" implies roots.indices().exists(i => mag(roots[i] - x) < ONE / 10^6),
    // within reach of a root it is found, unless the corrections run out
    (sure and fun.shape == "poly") implies outcome.in(Set("", "Root", "Limit")),
    (sure and fun.shape == "poly" and outcome == "Limit") implies x0 != x,
    fun.shape.in(Set("bowl", "const", "expup", "rootup")) implies outcome != "Root",
    fun.shape == "exp" and mag(x0 - fun.p[0]) > 102 * ONE implies outcome != "Root",
  }
}
