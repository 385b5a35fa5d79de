// -*- mode: quint -*-
/** One statement (balance sheet, profit and loss or cash flow) as a state
 *  machine: a finite map from lines to amounts, changed by the editing,
 *  posting, recalculating and cleaning operations of the library.
 *
 *  Amounts are integers in units of 2^scale; with scale = -20 and -17 the
 *  negligibility threshold 1e-5 falls between whole units, with scale = 0 every
 *  non-zero amount is significant, with 30 amounts are astronomical. All amounts and sums stay far below 2^53
 *  units, so the code's floating point arithmetic on them is exact in whatever
 *  order it adds, and spec and code can be compared for equality.
 */
module statement {
  import chart.* from "./chart"
  import semantics.* from "./semantics"

  type Op = { name: str, line: str, other: str, amount: int,
              items: List[(str, int)], posts: List[(str, str, int)], refused: bool }

  pure val noOp: Op = { name: "Load", line: "", other: "", amount: 0, items: [], posts: [], refused: false }

  // -------------------------------------------------------------------- state

  var kind: str
  var scale: int
  var st: Stmt          // the statement
  var before: Stmt      // the statement before the last operation
  var op: Op            // the last operation

  // ------------------------------------------------------------------ amounts

  /** an amount of stratum z: around the threshold, everyday, large or huge, or nothing */
  pure def bound(z: int, sc: int): int =
    if (z == 3) 0 else if (z == 0) 14 else if (z == 1) 3000000 else if (sc == 0) 4000000000000 else 4000000000

  action pick(name: str, k: str, o: str, v: int, its: List[(str, int)], ps: List[(str, str, int)], no: bool, s: Stmt): bool = all {
    op' = { name: name, line: k, other: o, amount: v, items: its, posts: ps, refused: no },
    before' = st,
    st' = s,
    kind' = kind, scale' = scale,
  }

  /** a statement: some lines absent, some (also derived, hence stale) present; from
   *  nothing at all and one, two, four lines to half of them and all */
  action someStmt(kd: str, sc: int, stale: bool, use: Stmt => bool): bool = {
    nondet z = Set(0, 1, 2, 4).oneOf()                      // twice 0
    nondet zz = 0.to(3).oneOf()
    nondet many = 0.to(10).oneOf()
    nondet manyD = 0.to(6).oneOf()
    nondet sign = 0.to(6).oneOf()
    nondet few = tuples(entered(kd), entered(kd), entered(kd), entered(kd)).oneOf()
    nondet fewD = tuples(derived(kd), derived(kd)).oneOf()
    nondet some = entered(kd).powerset().oneOf()
    nondet someD = derived(kd).powerset().oneOf()
    val ks = (if (many <= 1) Set() else if (many == 2) Set(few._1) else if (many == 3) Set(few._1, few._2)
              else if (many == 4) Set(few._1, few._2, few._3, few._4) else if (many <= 7) some else entered(kd))
        .union(if (not(stale) or manyD == 0) Set() else if (manyD == 1) Set(fewD._1) else if (manyD == 2) Set(fewD._1, fewD._2)
               else if (manyD == 3) Set(baseOf(kd)) else if (manyD <= 5) someD else derived(kd))
    val b = bound(if (z == 4) 0 else z, sc)
    nondet f = ks.setOfMaps((-b).to(b)).oneOf()
    nondet g = ks.setOfMaps((-bound(zz, sc)).to(bound(zz, sc))).oneOf()
    nondet odd = ks.powerset().oneOf()
    val m = ks.mapBy(k => {
      val x = if (k.in(odd)) g.get(k) else f.get(k)
      if (sign == 0) (if (x > 0) -x else x) else if (sign == 1) (if (x < 0) -x else x) else x
    })
    // two that cancel out
    use(if (sign == 2 and many == 3 and few._1 != few._2) m.put(few._2, -m.get(few._1)) else m)
  }
  action initFor(kinds: Set[str], stale: bool): bool = {
    nondet kd = kinds.oneOf()
    nondet sc = Set(-20, -17, 0, 30).oneOf()
    someStmt(kd, sc, stale, m => all { kind' = kd, scale' = sc, st' = m, before' = Map(), op' = noOp })
  }
  /** another statement, in the same units */
  action doFresh = someStmt(kind, scale, true, m => all { kind' = kind, scale' = scale, st' = m, before' = Map(), op' = noOp })

  // ------------------------------------------------------------------ actions

  action doAdd: bool = {
    nondet k = linesOf(kind).oneOf()
    nondet z = 0.to(3).oneOf()
    nondet v = (-bound(z, scale)).to(bound(z, scale)).oneOf()
    val no = k.in(derived(kind))
    pick("Add", k, "", v, [], [], no, if (no) st else st.put(k, amountOf(st, k) + v))
  }
  action doSet: bool = {
    nondet k = linesOf(kind).oneOf()
    nondet z = 0.to(3).oneOf()
    nondet v = (-bound(z, scale)).to(bound(z, scale)).oneOf()
    val no = k.in(derived(kind))
    pick("Upsert", k, "", v, [], [], no, if (no) st else st.put(k, v))
  }
  /** add back to an existing line so that it becomes negligible or zero */
  action doCancel: bool = {
    nondet k = entered(kind).oneOf()
    nondet v = (-14).to(14).oneOf()
    val d = v - amountOf(st, k)
    pick("Add", k, "", d, [], [], false, st.put(k, v))
  }
  /** move a line so that the total it belongs to becomes negligible, zero or small beside its components */
  action doBalance: bool = {
    nondet k = entered(kind).oneOf()
    nondet v = Set(-14, -11, -2, -1, 0, 1, 3, 12).oneOf()
    val done = recalc(scale, rowsOf(kind), st)
    val d = rowsOf(kind).foldl(0, (a, r) =>
      if (r.plus.select(x => x == k).length() > 0) v - (total(done, r.plus) - total(done, r.minus))
      else if (r.minus.select(x => x == k).length() > 0) total(done, r.plus) - total(done, r.minus) - v
      else a)
    pick("Add", k, "", d, [], [], false, st.put(k, amountOf(st, k) + d))
  }
  /** amounts one after another: none, the same again, the opposite, small, large */
  pure def runOf(r: int -> int, n: int): List[int] = range(0, n).foldl([], (a, i) => {
    val x = r.get(i)
    val last = if (i == 0) 7 else a[i - 1]
    a.append(if (x % 5 == 0) 0 else if (x % 5 == 1) last else if (x % 5 == 2) -last
             else if (x % 5 == 3) (x / 5) % 41 - 20 else (x / 5) % 6000001 - 3000000)
  })
  /** a batch over four lines, the same ones over and over */
  pure def batch(ks: (str, str, str), at: int -> int, r: int -> int, n: int): List[(str, int)] = {
    val v = runOf(r, n)
    range(0, n).foldl([], (a, i) => a.append((List(ks._1, ks._1, ks._2, ks._2, ks._3)[at.get(i)], v[i])))
  }
  action doAddVec: bool = {
    nondet ks = tuples(entered(kind), entered(kind), entered(kind)).oneOf()
    nondet vs = tuples((-20).to(20), (-3000000).to(3000000), (-20).to(20)).oneOf()
    nondet n = 0.to(4).oneOf()
    nondet m = 0.to(12).oneOf()
    nondet at = 0.to(11).setOfMaps(0.to(4)).oneOf()
    nondet r = 0.to(11).setOfMaps(0.to(39999999)).oneOf()
    nondet again = Set(true, false).oneOf()
    nondet like = 0.to(5).oneOf()
    val l = if (like > 3) batch(ks, at, r, m) else (if (like == 0) [(ks._1, vs._1), (ks._1, vs._1), (ks._2, vs._2), (ks._1, vs._1)]
             else if (like == 1) [(ks._1, vs._1), (ks._2, vs._1), (ks._2, vs._1), (ks._1, vs._2)]
             else [(ks._1, vs._1), (ks._2, vs._2), (ks._3, vs._3), (if (again) ks._2 else ks._1, vs._1 + vs._2)]).slice(0, n)
    pick("AddVec", "", "", 0, l, [], false, l.foldl(st, (s, e) => s.put(e._1, amountOf(s, e._1) + e._2)))
  }
  action doSetVec: bool = {
    nondet ks = tuples(entered(kind), entered(kind), entered(kind)).oneOf()
    nondet vs = tuples((-20).to(20), (-3000000).to(3000000), (-20).to(20)).oneOf()
    nondet n = 0.to(4).oneOf()
    nondet m = 0.to(12).oneOf()
    nondet at = 0.to(11).setOfMaps(0.to(4)).oneOf()
    nondet r = 0.to(11).setOfMaps(0.to(39999999)).oneOf()
    nondet again = Set(true, false).oneOf()
    nondet like = 0.to(5).oneOf()
    val l = if (like > 3) batch(ks, at, r, m) else (if (like == 0) [(ks._1, vs._1), (ks._1, vs._1), (ks._2, vs._2), (ks._1, vs._1)]
             else if (like == 1) [(ks._1, vs._1), (ks._2, vs._1), (ks._2, vs._1), (ks._1, vs._2)]
             else [(ks._1, vs._1), (ks._2, vs._2), (ks._3, vs._3), (if (again) ks._2 else ks._1, vs._1 + vs._2)]).slice(0, n)
    pick("UpsertVec", "", "", 0, l, [], false, l.foldl(st, (s, e) => s.put(e._1, e._2)))
  }
  /** a batch in which a later item is a derived line: refused */
  action doBadVec: bool = {
    nondet k = entered(kind).oneOf()
    nondet d = derived(kind).oneOf()
    nondet v = (-3000000).to(3000000).oneOf()
    nondet nm = Set("AddVec", "UpsertVec").oneOf()
    pick(nm, d, "", 0, [(k, v), (d, v)], [], true, st)
  }
  action doStale: bool = {
    nondet k = derived(kind).oneOf()
    nondet z = 0.to(3).oneOf()
    nondet v = (-bound(z, scale)).to(bound(z, scale)).oneOf()
    pick("Stale", k, "", v, [], [], false, st.put(k, v))
  }
  action doRecalc: bool = pick("Recalc", "", "", 0, [], [], false, recalc(scale, rowsOf(kind), st))
  action doClean: bool = pick("Clean", "", "", 0, [], [], false, clean(scale, st))
  action doRemoveCalc: bool = pick("RemoveCalc", "", "", 0, [], [], false, removeCalc(scale, derived(kind), st))
  action doCommonSize: bool = all {
    amountOf(st, baseOf(kind)) != 0,
    pick("CommonSize", baseOf(kind), "", 0, [], [], false, st),
  }

  action doPost(debit: bool): bool = {
    nondet k = BS.oneOf()
    nondet z = 0.to(3).oneOf()
    nondet v = (-bound(z, scale)).to(bound(z, scale)).oneOf()
    val no = k.in(BS_DERIVED)
    pick(if (debit) "Debit" else "Credit", k, "", v, [], [], no,
         if (no) st else post(st, k, if (debit) v else -v))
  }
  action doTransact: bool = {
    nondet d = BS_ENTERED.oneOf()
    nondet c = BS_ENTERED.oneOf()
    nondet same = 1.to(12).oneOf()
    nondet z = 0.to(3).oneOf()
    nondet v = (-bound(z, scale)).to(bound(z, scale)).oneOf()
    val c1 = if (same == 1) d else c
    pick("Transact", d, c1, v, [], [], false, transactOne(st, d, c1, v))
  }
  /** a transaction with a derived line on either side is refused */
  action doBadTransact: bool = {
    nondet k = BS_ENTERED.oneOf()
    nondet d = BS_DERIVED.oneOf()
    nondet z = 0.to(3).oneOf()
    nondet v = (-bound(z, scale)).to(bound(z, scale)).oneOf()
    nondet side = 0.to(2).oneOf()
    pick("Transact", if (side > 0) d else k, if (side != 1) d else k, v, [], [], true, st)
  }
  action doSeries: bool = {
    nondet a = tuples(BS_ENTERED, BS_ENTERED, BS_ENTERED, BS_ENTERED, BS_ENTERED, BS_ENTERED).oneOf()
    nondet vs = tuples((-20).to(20), (-3000000).to(3000000), (-3000000).to(3000000)).oneOf()
    nondet n = 0.to(5).oneOf()
    nondet m = 0.to(12).oneOf()
    nondet at = 0.to(23).setOfMaps(0.to(5)).oneOf()
    nondet r = 0.to(11).setOfMaps(0.to(39999999)).oneOf()
    nondet like = 0.to(6).oneOf()
    val one = (a._1, a._2, vs._1)
    val two = (a._3, a._4, vs._2)
    // all different; the same twice in a row, once more later; the reverse; undone; only the amount differs
    val free = runOf(r, m)
    val ls = List(a._1, a._1, a._2, a._2, a._3, a._4)
    val l = if (like > 4) range(0, m).foldl([], (b, i) => b.append((ls[at.get(2 * i)], ls[at.get(2 * i + 1)], free[i])))
            else (if (like == 0) [one, two, (a._5, a._6, vs._3), (a._2, a._3, vs._1 + vs._2), (a._1, a._1, vs._3)]
             else if (like == 1) [one, one, two, one, two]
             else if (like == 2) [one, two, one, two, two]
             else if (like == 3) [one, (a._2, a._1, vs._1), (a._1, a._2, -vs._1), two, (a._4, a._3, -vs._2)]
             else [one, (a._1, a._2, vs._3), (a._1, a._4, vs._1), (a._3, a._2, vs._1), one]).slice(0, n)
    pick("Series", "", "", 0, [], l, false, l.foldl(st, (s, e) => transactOne(s, e._1, e._2, e._3)))
  }

  pure def repeated(l: List[(str, str, int)], n: int): List[(str, str, int)] = range(0, n).foldl([], (a, i) => a.concat(l))
  /** a year of the same few transactions; the last one stands alone */
  action doYear: bool = {
    nondet a = tuples(BS_ENTERED, BS_ENTERED, BS_ENTERED, BS_ENTERED, BS_ENTERED).oneOf()
    nondet v = tuples((-3000).to(3000), 1.to(20), (-3000).to(3000)).oneOf()
    nondet n = Set(3, 20, 33, 130).oneOf()
    val l = repeated([(a._1, a._2, v._1), (a._2, a._3, v._2)], n).append((a._4, a._5, v._3))
    pick("Series", "", "", 0, [], l, false, l.foldl(st, (s, e) => transactOne(s, e._1, e._2, e._3)))
  }
  /** a series in which some item has a derived line on either side, or on both, is refused */
  action doBadSeries: bool = {
    nondet k = tuples(BS_ENTERED, BS_ENTERED).oneOf()
    nondet d = BS_DERIVED.oneOf()
    nondet v = Set(0, 0, 5, 3000000, -70).oneOf()
    nondet w = 0.to(3).oneOf()
    nondet n = 0.to(3).oneOf()
    val bad = if (w == 0) (d, k._1, v) else if (w == 1) (k._1, d, v) else (d, d, v)
    pick("Series", d, "", 0, [], repeated([(k._1, k._2, 7)], n).append(bad), true, st)
  }

  // --------------------------------------------------- per-property behaviours

  action initAll = initFor(Set("BS", "PL", "CF"), true)
  action initBs = initFor(Set("BS"), true)

  /** C01 */
  action stepTotals = any { doFresh, doRecalc, doRecalc, doRecalc, doStale, doAdd, doCancel, doBalance, doBalance, doSet, doClean }
  /** C02 */
  action stepEdit = any { doFresh, doAdd, doSet, doAddVec, doSetVec, doBadVec, doCancel, doRecalc, doStale }
  /** C03 */
  action stepLedger = any { doFresh, doPost(true), doPost(false), doTransact, doTransact, doSeries, doYear, doBadTransact, doBadSeries, doRecalc }
  /** C08 */
  action stepClean = any { doFresh, doClean, doRemoveCalc, doRecalc, doAdd, doCancel, doCancel, doStale, doSet }
  /** C09 */
  action stepCommon = any { doFresh, doFresh, doCommonSize, doCommonSize, doRecalc, doAdd, doBalance, doSet, doCancel, doStale }

  // --------------------------------------------------------------- invariants

  val enteredKept: bool =
    op.name == "Recalc" implies entered(kind).forall(k => amountOf(st, k) == amountOf(before, k))
  val totalsHold: bool = op.name == "Recalc" implies isRecalculated(scale, rowsOf(kind), st)
  val recalcIdempotent: bool =
    op.name == "Recalc" implies recalc(scale, rowsOf(kind), st) == st
  val refusedChangesNothing: bool = op.refused implies st == before
  val onlyNamedLineMoves: bool =
    op.name.in(Set("Add", "Upsert", "Debit", "Credit", "Transact")) implies
      linesOf(kind).forall(k => k != op.line and k != op.other implies amountOf(st, k) == amountOf(before, k))
  val transactionsBalance: bool =
    op.name.in(Set("Transact", "Series")) implies imbalance(st) == imbalance(before)
  val creditUndoesDebit: bool =
    op.name.in(Set("Debit", "Credit")) and not(op.refused) implies
      amountOf(st, op.line) - amountOf(before, op.line) ==
        SIDE.get(op.line) * (if (op.name == "Debit") op.amount else -op.amount)
  val cleanKeepsSignificant: bool = and {
    op.name == "Clean" implies
      linesOf(kind).forall(k => if (significant(scale, amountOf(before, k))) amountOf(st, k) == amountOf(before, k)
                               else not(k.in(st.keys()))),
    op.name == "RemoveCalc" implies
      linesOf(kind).forall(k => if (k.in(entered(kind)) and significant(scale, amountOf(before, k)))
                                  amountOf(st, k) == amountOf(before, k)
                               else not(k.in(st.keys()))),
  }
  val inv: bool = and {
    enteredKept, totalsHold, recalcIdempotent, refusedChangesNothing, onlyNamedLineMoves,
    transactionsBalance, creditUndoesDebit, cleanKeepsSignificant,
  }
}
