//! The lines of the chart by name. The names are the specification's; a line the
//! code no longer has makes this fail to compile, one it gained is simply unknown.
use financelib::statements::*;

pub trait Line: Copy + Eq + std::hash::Hash + std::fmt::Debug + 'static {
    const ALL: &'static [(&'static str, Self)];
    fn by_name(n: &str) -> Self {
        match Self::ALL.iter().find(|(s, _)| *s == n) {
            Some((_, x)) => *x,
            None => crate::itf::tool_error(&format!("unknown line {n}")),
        }
    }
    fn name(self) -> String {
        match Self::ALL.iter().find(|(_, x)| *x == self) {
            Some((s, _)) => s.to_string(),
            None => format!("{self:?}"),
        }
    }
}

macro_rules! lines {
    ($t:ident: $($n:ident)*) => {
        impl Line for $t {
            const ALL: &'static [(&'static str, Self)] = &[$((stringify!($n), $t::$n)),*];
        }
    };
}

lines! { BsType:
    Cash CurrentReceivables CurrentLoans CurrentAdvances OtherCurrentAssets CurrentInvestments
    Inventories RawMaterials WorkInProgress FinishedGoods CurrentAssets AccountReceivables
    LongTermLoanAssets LongTermAdvances LongTermInvestments OtherLongTermAssets
    PlantPropertyEquipment AccumulatedDepreciation NetPlantPropertyEquipment LeasingRentalAssets
    AccumulatedAmortizationLease NetLeaseRentalAssets Goodwill CapitalWip OtherTangibleAssets
    IntangibleAssets IntangibleAssetsDevelopment AccumulatedAmortization NetIntangibleAssets
    LongTermAssets Assets CurrentPayables CurrentBorrowings CurrentNotesPayable
    OtherCurrentLiabilities InterestPayable CurrentProvisions CurrentTaxPayables
    LiabilitiesSaleAssets CurrentLeasesLiability CurrentLiabilities AccountPayables
    LongTermBorrowings BondsPayable DeferredTaxLiabilities LongTermLeasesLiability
    DeferredCompensation DeferredRevenues CustomerDeposits OtherLongTermLiabilities
    PensionProvision TaxProvision LongTermProvision LongTermLiabilities Liabilities CommonStock
    PreferredStock PdInCapAbovePar PdInCapTreasuryStock RevaluationReserves Reserves
    RetainedEarnings AccumulatedOCI MinorityInterests Equity BalanceSheetCheck
}
lines! { PlType:
    OperatingRevenue NonOperatingRevenue ExciseStaxLevy OtherIncome Revenue CostMaterial
    DirectExpenses COGS Salaries AdministrativeExpenses ResearchNDevelopment OtherOverheads
    OtherOperativeExpenses OtherExpenses ExceptionalItems GrossProfit EBITDA Depreciation
    TaxDepreciation AssetImpairment LossDivestitures Amortization EBITX InterestRevenue
    InterestExpense CostDebt OtherFinancialRevenue EBTX ExtraordinaryItems PriorYears EBT
    TaxesCurrent TaxesDeferred EAT NetIncomeDiscontinuedOps NetIncome Dividends
    ContributionRetainedEarnings GainsLossesForex GainsLossesActurial GrossSalesPPE
    GrossSalesLeaseRentalAssets GrossSalesIntangibleAssets AccAmortSalesPPE
    AccAmortSalesLeaseRental AccAmortSalesIntangible SalesAmountPPE SalesAmountLeaseRentalAssets
    SalesAmountIntangibleAssets GainsLossesSales FvChangeAvlSale OtherDeferredTaxes
    OtherComprehensiveIncome TotalComprehensiveIncome
}
lines! { CfType:
    ChangeCurrentAssets ChangeLongTermAssets ChangeCurrentLiabilities ChangeLongTermLiabilities
    ChangeProvisions ChangeRetainedEarnings AdjustmentsRetainedEarnings ChangeAccumulatedOci
    OtherCashFlowOperations CashFlowOperations ChangePPE ChangeReserves AdjustmentsSalesAssets
    InvestmentsCapDevp InvestmentsLoans ChangeEquityAssets ChangeInvestments
    OtherCashFlowInvestments CashFlowInvestments StockSalesAndPurchase ChangeDebt
    CashFlowInterests CashFlowDividends DonorContribution OtherCashFlowFinancing
    CashFlowFinancing NetCashFlow FreeCashFlowFirm CashFlowTaxShield FreeCashFlowEquity
    CashFlowDebt
}
lines! { FinOthersTyp:
    CorporateTaxRate GrossProfitTaxRate RevenueTaxRate CurrentRatio AcidRatio DaysOfInventory
    InventoryTurnoverRatio
}
