// -*- mode: quint -*-
/** Double entry over unbounded amounts, for Apalache: from an arbitrary balance
 *  sheet (any integer on every entered line) one arbitrary transaction (any two
 *  lines, any integer amount) leaves assets - liabilities - equity unchanged and
 *  moves only the two lines. One step from every state is the inductive step for
 *  every history of transactions. The sums are written out because Apalache does
 *  not scale to folds over sixty lines; the test ties them to the chart. */
module ledger_proof {
  import chart.* from "./chart"

  pure def raised(s: str -> int): int =
    s.get("Cash") + s.get("CurrentReceivables") + s.get("CurrentLoans")
    + s.get("CurrentAdvances") + s.get("OtherCurrentAssets") + s.get("CurrentInvestments")
    + s.get("RawMaterials") + s.get("WorkInProgress") + s.get("FinishedGoods")
    + s.get("AccountReceivables") + s.get("LongTermLoanAssets") + s.get("LongTermAdvances")
    + s.get("LongTermInvestments") + s.get("OtherLongTermAssets")
    + s.get("PlantPropertyEquipment") + s.get("LeasingRentalAssets") + s.get("Goodwill")
    + s.get("CapitalWip") + s.get("OtherTangibleAssets") + s.get("IntangibleAssets")
    + s.get("IntangibleAssetsDevelopment")
  pure def lowered(s: str -> int): int =
    s.get("AccumulatedDepreciation") + s.get("AccumulatedAmortizationLease")
    + s.get("AccumulatedAmortization") + s.get("CurrentPayables")
    + s.get("CurrentBorrowings") + s.get("CurrentNotesPayable")
    + s.get("OtherCurrentLiabilities") + s.get("InterestPayable")
    + s.get("CurrentProvisions") + s.get("CurrentTaxPayables")
    + s.get("LiabilitiesSaleAssets") + s.get("CurrentLeasesLiability")
    + s.get("AccountPayables") + s.get("LongTermBorrowings") + s.get("BondsPayable")
    + s.get("DeferredTaxLiabilities") + s.get("LongTermLeasesLiability")
    + s.get("DeferredCompensation") + s.get("DeferredRevenues") + s.get("CustomerDeposits")
    + s.get("OtherLongTermLiabilities") + s.get("PensionProvision") + s.get("TaxProvision")
    + s.get("LongTermProvision") + s.get("CommonStock") + s.get("PreferredStock")
    + s.get("PdInCapAbovePar") + s.get("PdInCapTreasuryStock")
    + s.get("RevaluationReserves") + s.get("Reserves") + s.get("RetainedEarnings")
    + s.get("AccumulatedOCI") + s.get("MinorityInterests")
  pure def imbalance(s: str -> int): int = raised(s) - lowered(s)
  pure def posted(s: str -> int, k: str, v: int): str -> int =
    if (k.in(DEBIT_RAISES)) s.set(k, s.get(k) + v) else s.set(k, s.get(k) - v)

  var st: str -> int
  var start: str -> int

  action init = {
    nondet f = BS_ENTERED.setOfMaps(Int).oneOf()
    all { st' = f, start' = f }
  }
  action step = {
    nondet d = BS_ENTERED.oneOf()
    nondet c = BS_ENTERED.oneOf()
    nondet v = Int.oneOf()
    all { st' = posted(posted(st, d, v), c, -v), start' = st }
  }
  val balanced: bool = imbalance(st) == imbalance(start)

  run sumsFollowTheChartTest = all {
    assert(BS_ENTERED.forall(k => imbalance(BS_ENTERED.mapBy(j => if (j == k) 1 else 0)) == SIDE.get(k))),
    assert(BS_ENTERED.forall(k => posted(BS_ENTERED.mapBy(j => 0), k, 5).get(k) == 5 * SIDE.get(k))),
  }
}
