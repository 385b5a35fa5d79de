// -*- mode: quint -*-
/** The chart of accounts: which lines exist, which are derived, and from what.
 *  This is the specification's own statement of the chart (it is not read from
 *  the code); the conformance checks compare the code's behaviour with it. */
module chart {
  type Row = { line: str, plus: List[str], minus: List[str] }

  pure val BS_LINES: List[str] = [
    "Cash", "CurrentReceivables", "CurrentLoans", "CurrentAdvances", "OtherCurrentAssets",
    "CurrentInvestments", "Inventories", "RawMaterials", "WorkInProgress", "FinishedGoods",
    "CurrentAssets", "AccountReceivables", "LongTermLoanAssets", "LongTermAdvances",
    "LongTermInvestments", "OtherLongTermAssets", "PlantPropertyEquipment",
    "AccumulatedDepreciation", "NetPlantPropertyEquipment", "LeasingRentalAssets",
    "AccumulatedAmortizationLease", "NetLeaseRentalAssets", "Goodwill", "CapitalWip",
    "OtherTangibleAssets", "IntangibleAssets", "IntangibleAssetsDevelopment",
    "AccumulatedAmortization", "NetIntangibleAssets", "LongTermAssets", "Assets",
    "CurrentPayables", "CurrentBorrowings", "CurrentNotesPayable", "OtherCurrentLiabilities",
    "InterestPayable", "CurrentProvisions", "CurrentTaxPayables", "LiabilitiesSaleAssets",
    "CurrentLeasesLiability", "CurrentLiabilities", "AccountPayables", "LongTermBorrowings",
    "BondsPayable", "DeferredTaxLiabilities", "LongTermLeasesLiability", "DeferredCompensation",
    "DeferredRevenues", "CustomerDeposits", "OtherLongTermLiabilities", "PensionProvision",
    "TaxProvision", "LongTermProvision", "LongTermLiabilities", "Liabilities", "CommonStock",
    "PreferredStock", "PdInCapAbovePar", "PdInCapTreasuryStock", "RevaluationReserves", "Reserves",
    "RetainedEarnings", "AccumulatedOCI", "MinorityInterests", "Equity", "BalanceSheetCheck"
  ]

  pure val PL_LINES: List[str] = [
    "OperatingRevenue", "NonOperatingRevenue", "ExciseStaxLevy", "OtherIncome", "Revenue",
    "CostMaterial", "DirectExpenses", "COGS", "Salaries", "AdministrativeExpenses",
    "ResearchNDevelopment", "OtherOverheads", "OtherOperativeExpenses", "OtherExpenses",
    "ExceptionalItems", "GrossProfit", "EBITDA", "Depreciation", "TaxDepreciation",
    "AssetImpairment", "LossDivestitures", "Amortization", "EBITX", "InterestRevenue",
    "InterestExpense", "CostDebt", "OtherFinancialRevenue", "EBTX", "ExtraordinaryItems",
    "PriorYears", "EBT", "TaxesCurrent", "TaxesDeferred", "EAT", "NetIncomeDiscontinuedOps",
    "NetIncome", "Dividends", "ContributionRetainedEarnings", "GainsLossesForex",
    "GainsLossesActurial", "GrossSalesPPE", "GrossSalesLeaseRentalAssets",
    "GrossSalesIntangibleAssets", "AccAmortSalesPPE", "AccAmortSalesLeaseRental",
    "AccAmortSalesIntangible", "SalesAmountPPE", "SalesAmountLeaseRentalAssets",
    "SalesAmountIntangibleAssets", "GainsLossesSales", "FvChangeAvlSale", "OtherDeferredTaxes",
    "OtherComprehensiveIncome", "TotalComprehensiveIncome"
  ]

  pure val CF_LINES: List[str] = [
    "ChangeCurrentAssets", "ChangeLongTermAssets", "ChangeCurrentLiabilities",
    "ChangeLongTermLiabilities", "ChangeProvisions", "ChangeRetainedEarnings",
    "AdjustmentsRetainedEarnings", "ChangeAccumulatedOci", "OtherCashFlowOperations",
    "CashFlowOperations", "ChangePPE", "ChangeReserves", "AdjustmentsSalesAssets",
    "InvestmentsCapDevp", "InvestmentsLoans", "ChangeEquityAssets", "ChangeInvestments",
    "OtherCashFlowInvestments", "CashFlowInvestments", "StockSalesAndPurchase", "ChangeDebt",
    "CashFlowInterests", "CashFlowDividends", "DonorContribution", "OtherCashFlowFinancing",
    "CashFlowFinancing", "NetCashFlow", "FreeCashFlowFirm", "CashFlowTaxShield",
    "FreeCashFlowEquity", "CashFlowDebt"
  ]

  pure val OTHER_LINES: List[str] = [
    "CorporateTaxRate", "GrossProfitTaxRate", "RevenueTaxRate", "CurrentRatio", "AcidRatio",
    "DaysOfInventory", "InventoryTurnoverRatio"
  ]

  /** Derived balance sheet lines, components before totals. */
  pure val BS_ROWS: List[Row] = [
    { line: "Inventories",
      plus: ["RawMaterials", "WorkInProgress", "FinishedGoods"],
      minus: [] },
    { line: "CurrentAssets",
      plus: [
        "Cash", "CurrentReceivables", "CurrentLoans", "CurrentAdvances", "OtherCurrentAssets",
        "CurrentInvestments", "Inventories" ],
      minus: [] },
    { line: "NetPlantPropertyEquipment",
      plus: ["PlantPropertyEquipment"],
      minus: ["AccumulatedDepreciation"] },
    { line: "NetLeaseRentalAssets",
      plus: ["LeasingRentalAssets"],
      minus: ["AccumulatedAmortizationLease"] },
    { line: "NetIntangibleAssets",
      plus: ["IntangibleAssets", "IntangibleAssetsDevelopment"],
      minus: ["AccumulatedAmortization"] },
    { line: "LongTermAssets",
      plus: [
        "AccountReceivables", "LongTermLoanAssets", "LongTermAdvances", "LongTermInvestments",
        "OtherLongTermAssets", "NetPlantPropertyEquipment", "NetLeaseRentalAssets", "Goodwill",
        "CapitalWip", "OtherTangibleAssets", "NetIntangibleAssets" ],
      minus: [] },
    { line: "Assets",
      plus: ["CurrentAssets", "LongTermAssets"],
      minus: [] },
    { line: "CurrentLiabilities",
      plus: [
        "CurrentPayables", "CurrentBorrowings", "CurrentNotesPayable", "OtherCurrentLiabilities",
        "InterestPayable", "CurrentProvisions", "CurrentTaxPayables", "LiabilitiesSaleAssets",
        "CurrentLeasesLiability" ],
      minus: [] },
    { line: "LongTermLiabilities",
      plus: [
        "AccountPayables", "LongTermBorrowings", "BondsPayable", "DeferredTaxLiabilities",
        "LongTermLeasesLiability", "DeferredCompensation", "DeferredRevenues", "CustomerDeposits",
        "OtherLongTermLiabilities", "PensionProvision", "TaxProvision", "LongTermProvision" ],
      minus: [] },
    { line: "Liabilities",
      plus: ["CurrentLiabilities", "LongTermLiabilities"],
      minus: [] },
    { line: "Equity",
      plus: [
        "CommonStock", "PreferredStock", "PdInCapAbovePar", "PdInCapTreasuryStock",
        "RevaluationReserves", "Reserves", "RetainedEarnings", "AccumulatedOCI",
        "MinorityInterests" ],
      minus: [] },
    { line: "BalanceSheetCheck",
      plus: ["Assets"],
      minus: ["Liabilities", "Equity"] }
  ]

  /** Derived profit and loss lines. */
  pure val PL_ROWS: List[Row] = [
    { line: "Revenue",
      plus: ["OperatingRevenue", "NonOperatingRevenue"],
      minus: ["ExciseStaxLevy"] },
    { line: "COGS",
      plus: ["CostMaterial", "DirectExpenses"],
      minus: [] },
    { line: "GrossProfit",
      plus: ["Revenue"],
      minus: ["COGS"] },
    { line: "EBITDA",
      plus: ["GrossProfit", "OtherIncome"],
      minus: [
        "Salaries", "AdministrativeExpenses", "ResearchNDevelopment", "OtherOverheads",
        "OtherOperativeExpenses", "OtherExpenses", "ExceptionalItems" ] },
    { line: "EBITX",
      plus: ["EBITDA"],
      minus: ["Depreciation", "AssetImpairment", "LossDivestitures", "Amortization"] },
    { line: "EBTX",
      plus: ["EBITX", "InterestRevenue", "OtherFinancialRevenue"],
      minus: ["InterestExpense", "CostDebt"] },
    { line: "EBT",
      plus: ["EBTX"],
      minus: ["ExtraordinaryItems", "PriorYears"] },
    { line: "EAT",
      plus: ["EBT"],
      minus: ["TaxesCurrent", "TaxesDeferred"] },
    { line: "NetIncome",
      plus: ["EAT", "NetIncomeDiscontinuedOps"],
      minus: [] },
    { line: "ContributionRetainedEarnings",
      plus: ["NetIncome"],
      minus: ["Dividends"] },
    { line: "GainsLossesSales",
      plus: [
        "SalesAmountPPE", "SalesAmountLeaseRentalAssets", "SalesAmountIntangibleAssets",
        "AccAmortSalesPPE", "AccAmortSalesLeaseRental", "AccAmortSalesIntangible" ],
      minus: ["GrossSalesPPE", "GrossSalesLeaseRentalAssets", "GrossSalesIntangibleAssets"] },
    { line: "OtherComprehensiveIncome",
      plus: ["GainsLossesForex", "GainsLossesActurial", "GainsLossesSales", "FvChangeAvlSale"],
      minus: ["OtherDeferredTaxes"] },
    { line: "TotalComprehensiveIncome",
      plus: ["NetIncome", "OtherComprehensiveIncome"],
      minus: [] }
  ]

  /** Derived cash flow lines. */
  pure val CF_ROWS: List[Row] = [
    { line: "CashFlowOperations",
      plus: [
        "ChangeCurrentLiabilities", "ChangeLongTermLiabilities", "ChangeProvisions",
        "ChangeRetainedEarnings", "AdjustmentsRetainedEarnings", "ChangeAccumulatedOci",
        "OtherCashFlowOperations" ],
      minus: ["ChangeCurrentAssets", "ChangeLongTermAssets"] },
    { line: "CashFlowInvestments",
      plus: ["OtherCashFlowInvestments", "AdjustmentsSalesAssets", "ChangeReserves"],
      minus: [
        "ChangePPE", "InvestmentsCapDevp", "InvestmentsLoans", "ChangeEquityAssets",
        "ChangeInvestments" ] },
    { line: "CashFlowFinancing",
      plus: ["StockSalesAndPurchase", "ChangeDebt", "DonorContribution", "OtherCashFlowFinancing"],
      minus: ["CashFlowInterests", "CashFlowDividends"] },
    { line: "NetCashFlow",
      plus: ["CashFlowOperations", "CashFlowInvestments", "CashFlowFinancing"],
      minus: [] },
    { line: "FreeCashFlowEquity",
      plus: ["CashFlowOperations", "ChangeDebt", "ChangeReserves", "AdjustmentsSalesAssets"],
      minus: ["CashFlowInterests", "ChangePPE"] },
    { line: "CashFlowDebt",
      plus: ["CashFlowInterests"],
      minus: ["ChangeDebt"] },
    { line: "FreeCashFlowFirm",
      plus: ["FreeCashFlowEquity", "CashFlowDebt"],
      minus: ["CashFlowTaxShield"] }
  ]

  /** Cash flow lines fed by movements of balance sheet lines. */
  pure val CF_FROM_BS: List[Row] = [
    { line: "ChangeCurrentAssets",
      plus: [
        "CurrentReceivables", "CurrentLoans", "CurrentAdvances", "OtherCurrentAssets",
        "CurrentInvestments", "RawMaterials", "WorkInProgress", "FinishedGoods" ],
      minus: [] },
    { line: "ChangeLongTermAssets",
      plus: ["AccountReceivables", "LongTermAdvances", "CapitalWip"],
      minus: ["AccumulatedDepreciation", "AccumulatedAmortizationLease", "AccumulatedAmortization"] },
    { line: "ChangeCurrentLiabilities",
      plus: [
        "CurrentPayables", "CurrentBorrowings", "CurrentNotesPayable", "OtherCurrentLiabilities",
        "InterestPayable", "CurrentProvisions", "CurrentTaxPayables", "LiabilitiesSaleAssets",
        "CurrentLeasesLiability" ],
      minus: [] },
    { line: "ChangeLongTermLiabilities",
      plus: [
        "AccountPayables", "DeferredTaxLiabilities", "DeferredCompensation", "DeferredRevenues",
        "CustomerDeposits", "OtherLongTermLiabilities" ],
      minus: [] },
    { line: "ChangeProvisions",
      plus: ["PensionProvision", "TaxProvision", "LongTermProvision"],
      minus: [] },
    { line: "ChangeRetainedEarnings",
      plus: ["RetainedEarnings"],
      minus: [] },
    { line: "ChangeAccumulatedOci",
      plus: ["AccumulatedOCI"],
      minus: [] },
    { line: "ChangePPE",
      plus: ["PlantPropertyEquipment", "LeasingRentalAssets"],
      minus: [] },
    { line: "ChangeReserves",
      plus: ["RevaluationReserves", "Reserves"],
      minus: [] },
    { line: "InvestmentsCapDevp",
      plus: ["IntangibleAssetsDevelopment"],
      minus: [] },
    { line: "InvestmentsLoans",
      plus: ["LongTermLoanAssets"],
      minus: [] },
    { line: "ChangeEquityAssets",
      plus: ["IntangibleAssets"],
      minus: [] },
    { line: "ChangeInvestments",
      plus: ["LongTermInvestments", "Goodwill"],
      minus: [] },
    { line: "OtherCashFlowInvestments",
      plus: [],
      minus: ["OtherLongTermAssets", "OtherTangibleAssets"] },
    { line: "StockSalesAndPurchase",
      plus: ["CommonStock", "PreferredStock", "PdInCapAbovePar", "PdInCapTreasuryStock"],
      minus: [] },
    { line: "ChangeDebt",
      plus: ["LongTermBorrowings", "BondsPayable", "LongTermLeasesLiability"],
      minus: [] },
    { line: "OtherCashFlowFinancing",
      plus: ["MinorityInterests"],
      minus: [] }
  ]

  /** Cash flow lines fed by profit and loss lines. */
  pure val CF_FROM_PL: List[Row] = [
    { line: "CashFlowInterests",
      plus: ["InterestExpense", "CostDebt"],
      minus: [] },
    { line: "CashFlowDividends",
      plus: ["Dividends"],
      minus: [] },
    { line: "AdjustmentsRetainedEarnings",
      plus: [
        "InterestExpense", "CostDebt", "Dividends", "AccAmortSalesPPE", "AccAmortSalesLeaseRental",
        "AccAmortSalesIntangible" ],
      minus: ["GainsLossesSales"] },
    { line: "AdjustmentsSalesAssets",
      plus: ["GainsLossesSales"],
      minus: ["AccAmortSalesPPE", "AccAmortSalesLeaseRental", "AccAmortSalesIntangible"] }
  ]

  // ---------------------------------------------------------------- helpers

  pure def toSet(l: List[str]): Set[str] = l.foldl(Set(), (s, x) => s.union(Set(x)))
  pure def derivedOf(rows: List[Row]): Set[str] = rows.foldl(Set(), (s, r) => s.union(Set(r.line)))

  pure val BS: Set[str] = toSet(BS_LINES)
  pure val PL: Set[str] = toSet(PL_LINES)
  pure val CF: Set[str] = toSet(CF_LINES)
  pure val BS_DERIVED: Set[str] = derivedOf(BS_ROWS)
  pure val PL_DERIVED: Set[str] = derivedOf(PL_ROWS)
  pure val CF_DERIVED: Set[str] = derivedOf(CF_ROWS)
  pure val BS_ENTERED: Set[str] = BS.exclude(BS_DERIVED)
  pure val PL_ENTERED: Set[str] = PL.exclude(PL_DERIVED)
  pure val CF_ENTERED: Set[str] = CF.exclude(CF_DERIVED)

  // -------------------------------------------- the side a line is posted on

  /** Lines that a debit raises: assets, and the contra accounts of the other side. */
  pure val DEBIT_RAISES: Set[str] = Set(
    "Cash", "CurrentReceivables", "CurrentLoans", "CurrentAdvances", "OtherCurrentAssets",
    "CurrentInvestments", "RawMaterials", "WorkInProgress", "FinishedGoods", "AccountReceivables",
    "LongTermLoanAssets", "LongTermAdvances", "LongTermInvestments", "OtherLongTermAssets",
    "PlantPropertyEquipment", "LeasingRentalAssets", "Goodwill", "CapitalWip",
    "OtherTangibleAssets", "IntangibleAssets", "IntangibleAssetsDevelopment"
  )
  /** Lines that a debit lowers: liabilities, equity, and contra assets. */
  pure val DEBIT_LOWERS: Set[str] = BS_ENTERED.exclude(DEBIT_RAISES)

  /** +1: a debit raises the line; -1: a debit lowers it (entered lines only). */
  pure val SIDE: str -> int = BS_ENTERED.mapBy(k => if (k.in(DEBIT_RAISES)) 1 else -1)

  // --------------------------------------------------- what the chart implies

  /** Weight (+1, -1 or 0) with which each line enters the line `top`, following
   *  the chart downwards: rows are ordered components-before-totals, so going
   *  through them backwards sees every total before its components. */
  pure def weightsIn(rows: List[Row], top: str, lines: Set[str]): str -> int = {
    val w0 = lines.mapBy(k => if (k == top) 1 else 0)
    range(0, rows.length()).foldl(w0, (w, i) => {
      val r = rows[rows.length() - 1 - i]
      val c = w.get(r.line)
      if (c == 0) w
      else {
        val w1 = r.plus.foldl(w, (a, k) => a.setBy(k, x => x + c))
        r.minus.foldl(w1, (a, k) => a.setBy(k, x => x - c))
      }
    })
  }

  pure def feeds(rows: List[Row], k: str): List[(str, int)] =
    rows.foldl([], (l, r) => {
      val l1 = r.plus.foldl(l, (a, x) => if (x == k) a.append((r.line, 1)) else a)
      r.minus.foldl(l1, (a, x) => if (x == k) a.append((r.line, -1)) else a)
    })

  pure def toCash(rows: List[Row], k: str): int = {
    val w = weightsIn(CF_ROWS, "NetCashFlow", CF)
    feeds(rows, k).foldl(0, (a, e) => a + e._2 * w.get(e._1))
  }

  // ------------------------------------------------ well-formedness of the chart

  /** every component is a line, derived components come earlier, one row per line */
  pure def orderedRows(rows: List[Row], lines: Set[str]): bool = {
    val derived = derivedOf(rows)
    and {
      derived.size() == rows.length(),
      derived.subseteq(lines),
      range(0, rows.length()).foldl((true, Set()), (acc, i) => {
        val comps = toSet(rows[i].plus).union(toSet(rows[i].minus))
        (acc._1 and comps.subseteq(lines) and comps.intersect(derived).subseteq(acc._2),
         acc._2.union(Set(rows[i].line)))
      })._1
    }
  }

  // ---------------------------------------------------------------- theorems
  // (closed statements about the chart, evaluated by `quint test`)

  run chartIsWellFormedTest = all {
    assert(orderedRows(BS_ROWS, BS)), assert(orderedRows(PL_ROWS, PL)), assert(orderedRows(CF_ROWS, CF)),
    assert(BS_LINES.length() == BS.size()), assert(PL_LINES.length() == PL.size()), assert(CF_LINES.length() == CF.size()),
  }
  /** The posting side of a line is the sign with which the chart carries it into
   *  assets - liabilities - equity: the reason why transactions balance. */
  run sidesFollowTheChartTest = {
    val w = weightsIn(BS_ROWS, "BalanceSheetCheck", BS)
    assert(BS_ENTERED.forall(k => w.get(k) == SIDE.get(k)))
  }
  /** Every entered balance sheet line other than cash feeds exactly one cash flow line. */
  run everyMovementIsAssignedOnceTest = all {
    assert(BS_ENTERED.forall(k => feeds(CF_FROM_BS, k).length() == (if (k == "Cash") 0 else 1))),
    assert(BS_DERIVED.forall(k => feeds(CF_FROM_BS, k).length() == 0)),
    assert(CF_FROM_BS.foldl(true, (b, r) => b and not(r.line.in(CF_DERIVED)))),
    assert(CF_FROM_PL.foldl(true, (b, r) => b and not(r.line.in(CF_DERIVED)))),
  }
  /** Articulation: a movement of a line other than cash enters net cash flow with
   *  the sign opposite to its side, and profit and loss lines cancel out. With
   *  assets = liabilities + equity, net cash flow is then the change in cash. */
  run articulationTest = all {
    assert(BS_ENTERED.forall(k => toCash(CF_FROM_BS, k) == (if (k == "Cash") 0 else -(SIDE.get(k))))),
    assert(PL.forall(k => toCash(CF_FROM_PL, k) == 0)),
  }
}
