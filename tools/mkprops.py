#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the property texts are edited)."""
import json, os
ST, LIB, VAL = "src/statements.rs", "src/lib.rs", "src/valuations.rs"
BO, RA, MM = "src/fixedincomes/bonds.rs", "src/fixedincomes/bonds/rates.rs", "src/fixedincomes/moneymarkets.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=None)))
IN, HI, CO = "inputs", "histories", "configurations"

p("C01", "Derived totals equal the signed sum of their components",
  "After a recalculation every derived line of a balance sheet, profit and loss or cash flow statement equals the sum of its adding lines minus its subtracting lines as the chart of accounts nests them, whatever stale derived values were there before. A derived line whose result is negligible (1e-5 or less in magnitude) is absent and counts as zero further up. Entered lines are never changed, and recalculating again changes nothing.",
  [IN, HI], "every set of entered lines and amounts, every stale derived value, every nesting level, every editing history before the recalculation",
  "The one test on real data checks four totals of one company; most lines of the chart never carry a value in any test, and no test recalculates over stale or vanishing totals.",
  [ST], [("chart tables and ordered evaluation", "BALANCE_SHEET_MAP, PROFIT_LOSS_MAP, CASH_FLOW_MAP, calc_elem, finmap_add, FinMaps::calc_elements")],
  ["BsMap/PlMap/CfMap contents after calc_elements"], [("statement map", "line -> amount", "BsMap, PlMap, CfMap")])
p("C02", "Entered lines accumulate, replace and read back; derived lines are refused",
  "Adding to an entered line accumulates, setting it replaces the amount, a batch of either acts item by item in order, and reading a line that is absent gives zero; no other line is affected. Entering an amount on a derived line is refused (by a panic), on a bare statement and through the accounts alike, and leaves the statement as it was.",
  [IN, HI], "every line of the three statements, every amount, every order of edits",
  "Tests edit about ten of the 150 lines and never try a derived line.",
  [ST], [("is_calc guard", "FinMaps::add, upsert, add_vec, upsert_vec, value; Accounts::put_*")], ["map contents after each call", "panic or return"])
p("C03", "Double-entry posting keeps the balance sheet balanced",
  "Debiting an amount raises an asset or contra-liability/contra-equity line by that amount and lowers a liability, equity or contra-asset line by it; a credit does the exact opposite, and a transaction is one debit and one credit of the same amount. Hence any series of transactions leaves total assets minus liabilities minus equity as it was and moves only the posted lines. Posting to a derived line is refused (by a panic).",
  [IN, HI], "every pair of entered balance sheet lines (also the same line twice), every amount and sign, every sequence of transactions",
  "No existing test posts a transaction; they only look up the side of nine lines.",
  [ST], [("side of every line derived from the chart", "DEBIT_TYPE, debit_mapping"), ("posting", "BsMapTrait::debit, credit, transact, transact_series")], ["BsMap after each posting"])
p("C04", "Net cash flow reconciles to the change in cash",
  "For any opening and closing balance sheet and any profit and loss statement, the recalculated cash flow derived from them has a net cash flow equal to the change in cash less the change in the balance sheets' imbalance (assets minus liabilities minus equity); so for balanced sheets it is exactly the change in cash, whatever the profit and loss lines are. Only items of negligible size (1e-5 or less per line) may be lost.",
  [IN, HI], "all pairs of balance sheets (balanced or not) and all profit and loss statements",
  "Tests compare the net cash flow of two years of one company with a constant; most lines are zero there.",
  [ST], [("line assignment", "CASH_FLOW_BALANCE_SHEET, CASH_FLOW_PROFIT_LOSS, calc_cash_flow"), ("totals", "CASH_FLOW_MAP")], ["CfMap after calc_cash_flow and calc_elements"])
p("C05", "Each cash flow line picks up exactly the movements assigned to it",
  "In a cash flow derived from two balance sheets and a profit and loss statement, each line equals the closing minus opening amount of the balance sheet lines assigned to it (with their signs), or the signed sum of the profit and loss lines assigned to it; every entered balance sheet line other than cash feeds exactly one cash flow line. Lines whose movement is negligible (1e-5 or less) are absent; the three source statements are not modified.",
  [IN], "every line of both balance sheets and of the profit and loss, every amount",
  "Tests look at totals of one data set, in which a movement booked on a wrong line of the same total cannot be seen.",
  [ST], [("line assignment", "CASH_FLOW_BALANCE_SHEET, CASH_FLOW_PROFIT_LOSS, calc_cash_flow")], ["CfMap returned by calc_cash_flow"])
p("C06", "Interest tax shield and free cash flows",
  "With non-negative rates and interest, the tax shield of a period is the corporate rate times interest, but never more than the amount by which the normal tax before interest (corporate rate on pre-interest, tax-depreciation-adjusted profit before tax plus gross-profit rate on gross profit) exceeds revenue rate times revenue, and never negative. After recalculation, free cash flow to the firm equals free cash flow to equity plus cash flow to debt minus the tax shield.",
  [IN], "all profit and loss statements, rates and balance sheet pairs",
  "No test looks at the shield or at a free cash flow.",
  [ST], [("shield", "calc_cash_flow, depreciation_tax_adjust"), ("free cash flow rows", "CASH_FLOW_MAP")], ["CashFlowTaxShield, FreeCashFlowFirm, FreeCashFlowEquity, CashFlowDebt"])
p("C07", "Current tax is the higher of normal and minimum tax",
  "Calculating tax gives every period with a profit and loss statement a current tax equal to the larger of (a) corporate rate times profit before tax, with book depreciation replaced by tax depreciation where that line is given, plus gross-profit rate times EBITDA and (b) revenue rate times revenue, all taken from freshly recalculated statements. A rate that is not given counts as zero. Setting tax rates gives all those periods the three rates, creating or overwriting them, and keeps their other ratios. Nothing else that was entered changes.",
  [IN, HI], "all statements, all period sets, all rates, stale or missing totals beforehand, any interleaving with edits",
  "The only test that calculates tax asserts nothing about it.",
  [ST], [("tax", "Accounts::calc_tax, set_tax_rates, depreciation_tax_adjust")], ["Accounts.profit_loss TaxesCurrent, Accounts.others"])
p("C08", "Cleaning keeps exactly the significant entered lines",
  "Removing calculated items leaves exactly the entered lines whose magnitude exceeds 1e-5, with their amounts untouched, and no derived line; plain cleaning leaves every line, derived or not, whose magnitude exceeds 1e-5. On accounts it does so for every statement of every date and period and touches nothing else.",
  [IN, HI], "every line, amounts of both signs around the threshold, any editing history, any set of dates",
  "Tests call it once on a file and look at one total afterwards.",
  [ST], [("retain predicates", "FinMaps::remove_calc_clean, clean; Accounts::remove_calc_clean")], ["map contents afterwards"])
p("C09", "Common-size statements divide every line by the base line",
  "The common-size form of a statement has exactly the same lines, each divided by the statement's own base (total assets, revenue, or net cash flow), so that the base becomes 1 and all sums of the chart still hold. The original statement is not changed.",
  [IN], "every statement whose base line is present and non-zero (also negative)",
  "No existing test calls it.",
  [ST], [("scaling", "FinMaps::common_size")], ["returned map"])
p("C10", "Accounts operations touch only what they address",
  "After any sequence of operations on a set of accounts, every statement at every date or period holds exactly what the operations addressed to it put there: putting an amount changes one line of one statement, recalculation recalculates every statement in place, and reading returns the last amount put, or zero for an absent line. Deriving cash flows (re)places the cash flow of exactly those profit and loss periods whose opening and closing balance sheets are both present, with the tax rates of that very period, and leaves all other cash flows and all other statements alone.",
  [HI, IN], "all sequences of puts, reads, recalculations, tax and cash flow derivations over several dates and overlapping periods",
  "The tests run one fixed sequence on one data set and read back the line just written.",
  [ST], [("addressing", "Accounts::put_*, get_*, calc_elements, calc_cash_flow")], ["the whole Accounts value after each call"], [("accounts", "dated maps of statements", "Accounts")])
p("C11", "Reports assemble the right statements and reassemble losslessly",
  "The report of a period holds that period's profit and loss, the balance sheets dated at its start and at its end, its cash flow and its other data, each missing exactly when the accounts lack it, and there is one report for each profit and loss period, in order, and none for other periods. Splitting a report into dated statements and assembling them again gives the same report, while statements whose dates disagree with the profit and loss period never assemble. Recalculating a report gives the same totals, and with both balance sheets present the same cash flow, as recalculating and deriving it in the accounts.",
  [IN, HI], "all accounts over several dates and periods, all combinations of missing statements, all date mismatches",
  "Tests fetch two reports and never split or assemble one.",
  [ST], [("assembly", "Accounts::get_account, to_financial_reports; FinancialReport::to_statements, from_statements, calc_elements")], ["FinancialReport values"])
p("C12", "Period sequences are accepted exactly when they join up",
  "A non-empty list of periods is accepted as a sequence exactly when every period starts no later than it ends and each starts on the day the one before ended. Collecting dates from the profit and loss periods leaves the date set with exactly the former dates plus all period starts and ends, and refuses (by a panic) a period that ends before it starts.",
  [IN], "all lists of periods, including gaps, overlaps, reversed, repeated and zero-length periods at any position",
  "No existing test calls the sequence check; on the original tree it rejected every contiguous list of two or more periods.",
  [ST], [("sequence check", "check_dates, Accounts::check_dates"), ("date collection", "Accounts::set_dates_from_profit_loss, valid_date")], ["returned bool", "Accounts.dates"])
p("C13", "Every period is either annual or interim, never both or neither",
  "Splitting the profit and loss periods puts every period into exactly one of the two groups: annual if it is longer than 120 days, interim otherwise.",
  [IN], "all sets of periods, in particular lengths around 120 days across months, leap days and year ends",
  "Tests only exercise it through printing; a period of exactly 120 days was in neither group.",
  [ST], [("split", "Accounts::split_periods")], ["the two returned sets"])
p("C14", "Consecutive periods form an unbroken chain back from the latest date",
  "From the latest period end the chain takes, at each step back, the reported period of exactly three months if there is one, else that of exactly twelve months, counted on the day of the month of the latest end (or the last day of a shorter month), and it stops at the first gap or after 100 periods; it contains nothing else. Restricting accounts to the chain of their profit and loss (or cash flow) periods keeps exactly the statements of those periods and of their start and end dates, unchanged.",
  [IN], "all sets of periods (annual, quarterly, mixed, gappy, overlapping), all days of the month including 29 to 31",
  "Tests run it once on five annual periods dated on the 16th; month-end dates made it panic.",
  [ST], [("chain", "consecutive_periods"), ("restriction", "Accounts::from_periods, consecutive_profit_loss, consecutive_cash_flow")], ["returned set / Accounts"])
p("C15", "Saved accounts reload unchanged",
  "Accounts, reports, dated statements, parameters and valuation models (companies with their reports, parameters and industries; share prices) written in the RON text form, and reports, dated statements and companies written as JSON, read back equal to what was written: every date, period, line, amount (to the cent, up to 10^13), currency and flag. Each line, currency and industry is stored under its own name, so files written by hand with those names load too.",
  [IN], "all accounts over all lines, dates, currencies and flags",
  "Tests reload one JSON report and compare one line of it.",
  [ST, LIB, "src/valuations.rs"], [("serde derives", "Serialize/Deserialize on ValuationModel, CompanyReports, Accounts, FinancialReport, BsType, PlType, CfType, FinOthersTyp, Currency")], ["serialised text", "reloaded value"])
p("C16", "The tabular report shows each significant line under the right date",
  "The separated table of accounts, headed by their currency and the multiplier, lists, statement by statement (balance sheets; annual, then if there are any interim, profit and loss, tax rates and cash flows), every line of the chart group by group, where and only where that line is significant (above 1e-4 in total magnitude) at some date, with one column per date or period in order and in each the amount of that very statement, divided by the multiplier. A column whose period has no such statement is blank, a line absent from it is zero, and fractions between 0.0001 and 1 appear as percentages. The CSV file holds the comma-separated table with multiplier 1.",
  [IN], "all accounts: any lines, dates, annual/interim mixes, missing statements",
  "Tests print tables but never look at the text.",
  [ST], [("rendering", "Accounts::format_table, to_csv")], ["returned text", "written file"])
p("C17", "Dates and fractional years convert one-to-one",
  "The fractional year of a date is its year plus day-of-year over the 365 or 366 days of that year; later dates always give larger numbers, and converting back gives the same date for every date. A number between the values of two neighbouring dates converts to the nearer one. Leap years are the Gregorian ones.",
  [IN], "all dates of the calendar and all numbers between them",
  "No existing test converts a date to a number or back (1 January could not be converted back); four years are tested for leap years.",
  [LIB], [("conversion", "date_to_float, date_from_float, is_leap_year, days_in_year")], ["return values"])
p("C18", "30/360 day counts follow the US (NASD) and European rules",
  "The European count replaces day 31 by 30 on both dates and takes 360 days a year and 30 a month. The US count moves a start date at the end of February to day 30 (and then also an end date at the end of February), treats an end date on the 31st as the 30th when the start is on or after the 30th, and a start on the 31st as the 30th. Both are signed (negative when the start is after the end), and the default period fraction is the US one.",
  [IN], "all ordered and reversed pairs of dates, in particular all combinations of month ends, leap and non-leap Februaries, centuries",
  "Seven pairs of dates are tested.",
  [LIB], [("day count", "yearfrac US30360/EU30360, yrfrac")], ["return value"])
p("C19", "Actual day counts measure elapsed days",
  "Actual/360 and Actual/365 are the exact number of elapsed days over 360 or 365; Actual/Actual weighs every elapsed day (after the start, up to and including the end) by 1/366 in a leap year and 1/365 otherwise. All three are therefore additive over adjoining periods, antisymmetric, zero on equal dates and increasing in the end date.",
  [IN], "all pairs and triples of dates across leap years and centuries",
  "Seven pairs of dates are tested.",
  [LIB], [("day count", "yearfrac ACT360/ACT365/ACTACT, date_to_float")], ["return value"])
p("C20", "Future and present values follow compound growth and invert each other",
  "A future value is the present value grown by (1+r) per period (r/m in each of n*m sub-periods with nominal rates, e^(rn) with continuous ones, over the US 30/360 year fraction for dated flows), for whole and fractional, positive and negative times and any rate above -100%. The present value undoes the future value with the same arguments, discount factors are the present value of 1, and a forward discount factor is the later factor over the earlier one.",
  [IN], "all rates, times, compounding frequencies, amounts and dates in the domain",
  "Each formula is compared with one or two constants.",
  [LIB], [("formulas", "fv, pv, fvm, pvm, fvc, pvc, xfv, xpv, dis_fact, dis_fact_annual, xdis_fact, fwd_dis_fact")], ["return values"])
p("C21", "Nominal, effective and continuous rates describe the same growth",
  "Converting a rate between nominal (m times a period), effective and continuous form keeps the growth over one period the same: (1+nominal/m)^m = 1+effective = e^continuous. Each of the six conversions agrees with this for every rate above -100%, so there-and-back and around-the-loop conversions return the rate one started with.",
  [IN], "all rates (negative, zero, large) and compounding frequencies",
  "Five conversions of rates near 8% are tested.",
  [LIB], [("formulas", "nom_eff_rate, eff_nom_rate, exp_eff_rate, eff_exp_rate, nom_exp_rate, exp_nom_rate")], ["return values"])
p("C22", "Annuity value and payment amortise exactly",
  "Starting from the annuity present value, accruing r/m per sub-period and then adding the payment each time leaves exactly the negated final value after all n*m sub-periods, and in between the annuity value for the payments still to come; at a zero rate the value is minus the plain sum of the payments and the final value. The payment function returns the level payment for which this holds with the given present and final values, so the two functions invert each other.",
  [IN], "all rates (also zero and negative), numbers of periods, payment frequencies, payments, final values of both signs",
  "One set of arguments is tested; a zero rate gave NaN.",
  [LIB], [("formulas", "pv_annuity, pmt")], ["return values"])
p("C23", "Net present value is the sum of the discounted cash flows",
  "The net present value of a set of cash flows is the sum of each flow divided by (1+r) to its time, moved to the reference time by the factor (1+r)^t0; with dates, times are US 30/360 year fractions from the reference date, negative for flows before it. It does not depend on the order of the flows, is additive over flows, and a zero rate gives the plain sum.",
  [IN, HI], "all schedules of any length and order, all rates above -100%, all reference times and dates",
  "One schedule of five flows each is tested.",
  [LIB], [("formulas", "npv_t0, npv, xnpv")], ["return values"])
p("C24", "A returned internal rate of return makes the net present value zero",
  "If a rate is returned for a schedule of cash flows, the net present value at that rate is zero up to a 1e-7 error in the rate; no rate is returned when all flows have the same sign. For ordinary investments (one outlay, then receipts over a horizon of T up to 30 years, at a rate from -0.3/T to 60% a year; or with further outlays in the first two years at a rate from 2%) the rate is found and is the unique one, with times or dates, in whatever order the flows are listed (also when the first listed date is not the earliest, or the clock starts up to five years after or 0.8 years before the first flow, for horizons up to 5 years and rates up to 25%), whatever the amounts' scale from single units up and also with all signs reversed.",
  [IN], "all schedules; for existence the investment-type schedules of that range, of any length",
  "Two schedules with times and one with dates are tested.",
  [LIB], [("Newton iteration on the NPV", "irr, xirr, newt_raph, npv_t0")], ["returned Option"])
p("C25", "The root finder reports only converged roots",
  "The root finder returns a value only if its last correction was below 1e-8, so that value is (to 1e-6) a root; it returns nothing when the function has no root, becomes flat away from a root, produces no number, or has not settled within 100 corrections. From a starting point in the convergence region of a simple root it finds that root.",
  [IN, HI], "all functions and starting points (checked on polynomial, rational and exponential families with known roots)",
  "Three calls are tested.",
  [LIB], [("iteration control", "newt_raph, is_zero")], ["returned Option"])
p("C26", "Curve rates are interpolated linearly and discount by the curve's own convention",
  "At a curve point the estimated rate is the tabulated rate, and between two neighbouring points it is the straight-line interpolation, for any point frequency, curve length and curve type, wrapped as spot, par or forward rates or not. The present value of a flow on a curve discounts it with the rate at its time: by n*f compoundings for nominal curves, annually for effective, exponentially for continuous ones.",
  [IN], "all curves, frequencies, types and times from the first to the last point",
  "Two points of one four-point nominal curve are tested.",
  [RA], [("interpolation", "RateCurve::rate_estim, pv; Rates::rate_estim")], ["return values"])
p("C27", "Converting a curve changes its quotation, not its meaning",
  "A curve converted to nominal, effective or continuous form has the same number of points and frequency, is of the requested type, and each point describes the same growth per period as before, so flows at curve points keep their present value. Converting to the type it already has changes nothing, and any chain of conversions gives what the direct conversion gives.",
  [IN, HI], "all curves of all three types, all conversion chains",
  "One six-point nominal curve with positive rates is tested.",
  [RA], [("conversions", "RateCurve::to_nominal, to_effective, to_exponential")], ["returned curves"])
p("C28", "Par and spot curves price the same bonds",
  "At every maturity of the curve a bond paying the par rate, discounted payment by payment at the spot rates, is worth exactly its face value: this holds for the spot curve computed from any par curve and for the par curve computed from any spot curve. Frequency and length are kept, and converting there and back returns the curve.",
  [IN], "all nominal par and spot curves of any shape, length and frequency with positive discount factors",
  "One six-point curve is tested.",
  [RA], [("bootstrapping", "Rates::to_spot, to_par")], ["returned rates"])
p("C29", "Forward rates admit no arbitrage",
  "Investing at the spot rate up to a forward date and then at the forward rate for the tenor grows exactly as much as investing at the spot rate for the whole time. Hence the forward rate on a flat curve is the flat rate, and chaining forward rates over adjoining tenors gives the forward rate of the combined tenor.",
  [IN], "all nominal spot curves, forward dates from the first curve point and tenors within the curve, on or between curve points",
  "One forward rate is tested.",
  [RA], [("formula", "Rates::forward_rate")], ["return value"])
p("C30", "A coupon bond is worth its discounted cash flows",
  "A bond with a whole number of coupon periods pays par*coupon/frequency at every period end and par with the last, and its price is the sum of these flows discounted at the yield (also a zero or negative one), hence par when the yield equals the coupon rate. On a curve the price is the sum of the flows' present values on that curve, and equals the yield price when the curve is flat.",
  [IN], "all bonds (zero coupon, single period, long), frequencies up to daily, yields and curves",
  "One six-period bond and curve is tested; a zero yield gave NaN and weekly bonds could lose a coupon.",
  [BO, RA], [("pricing", "CouponBond::price, price_ratecurve, generate_cashflow"), ("annuity", "pv_annuity, pvm")], ["return values"])
p("C31", "Yield to maturity inverts the bond price",
  "For every bond of up to 20 years (up to 40 with a coupon rate of at least 2% and a yield of at least -2%) and every yield between -5% and 100%, also zero, the yield computed from the price at that yield is that yield, to 1e-7; a higher price gives a lower yield and a price of par gives the coupon rate.",
  [IN], "all such bonds, at all frequencies, and all yields in the range",
  "Two prices of one bond are tested.",
  [BO, LIB], [("Newton iteration", "CouponBond::ytm, newt_raph")], ["return value"])
p("C32", "Full price accretes at the yield; flat price plus accrued interest is full",
  "Between coupon dates the full price is the price at the last coupon date grown at the yield for the elapsed time, accrued interest is coupon rate times par times elapsed time, and flat price plus accrued interest is the full price. At a whole period after the coupon date the full price equals the price of the remaining bond plus the coupon just due.",
  [IN], "all bonds, yields and elapsed times from zero to a full period and beyond",
  "One bond and one date is tested.",
  [BO], [("formulas", "CouponBond::accrued_interest, pv_full, pv_flat")], ["return values"])
p("C33", "Floating rate notes price off the index plus margin and the margin inverts it",
  "A note is worth its level payments of (index + quoted margin)*par/frequency and par at maturity, discounted at index + discount margin; so it is at par when the two margins agree, below when the discount margin is larger. The discount margin computed from a price reproduces the margin the price was made with, to 1e-7.",
  [IN], "all notes, index rates (also zero and negative sums) and margins in a realistic range",
  "One price and one margin is tested.",
  [BO, LIB], [("formulas", "FloatingRateNotes::price, discount_margin")], ["return values"])
p("C34", "Money-market yields are consistent quotations of one holding return",
  "The discount-basis rate and the discount of a bill invert each other on a 360-day year; the holding period yield is (end price + income)/start price - 1; the money market yield annualises it simply on 360 days and the effective annual yield by compounding on 365 days, so the two determine one another through the holding period yield, for gains and losses and any number of days.",
  [IN], "all prices, incomes and day numbers in the domain",
  "One bill and one holding is tested.",
  [MM], [("formulas", "t_bill_r, t_bill_d, holding_per_yield, eff_ann_yield, money_mkt_yield")], ["return values"])
p("C35", "Time-weighted return ignores the size and timing of external flows",
  "The time-weighted return compounds the growth of each sub-period, closing value over opening value plus inflow, for every sub-period in the record, and takes the n-th root. It therefore equals the return of a portfolio with the same sub-period growth and no flows, whatever was paid in or out, and joining two records compounds their total growth; an inflow listed after the last valuation belongs to no sub-period and is ignored; without a stated number of years each sub-period counts as one.",
  [IN, HI], "all valuation records of any length with any flows keeping values positive",
  "One record of four and one of two sub-periods is tested.",
  [MM], [("formula", "twrr_n, twrr")], ["return value"])
p("C36", "Printed accounts choose a unit that fits the largest figure",
  "Printing accounts gives the bar-separated table in multiples of the one power of 1000 for which the largest total assets or revenue (in whole units) comes to more than 100,000 and at most 100,000,000; accounts without a statement or without a positive total are printed in units of 1. The heading of every table names the accounts' currency and the multiplier that all amounts, but never rates and percentages, are divided by.",
  [IN], "all accounts, totals of every magnitude from 1 to 10^14 at, just above and just below every power of ten, zero or negative totals, missing balance sheets or profit and loss statements",
  "Tests print two sets of accounts and never look at the text.",
  [ST], [("unit and rendering", "impl Display for Accounts, Accounts::format_table")], ["text of format!(\"{}\", accounts)"])
p("C37", "Closeness and zero tests use one relative and one absolute threshold",
  "Two numbers count as approximately equal exactly when both are below 1e-8 in magnitude or they differ by less than a millionth of the larger magnitude; a number counts as zero exactly when its magnitude is below 1e-8. The comparison is reflexive and symmetric, does not depend on the common sign, and above the threshold not on the common scale; numbers of opposite sign never count as equal unless both count as zero.",
  [IN], "all pairs of finite numbers (pairs within a part in 10^8 of a border are left open)",
  "Tests use the comparison to check other functions, on numbers that are equal to ten digits.",
  [LIB], [("comparison", "approx, is_zero")], ["return value"])

p("C38", "A forecast rolled forward keeps the books balanced and cash reconciled",
  "Accounts are rolled forward by entering a period's profit and loss and closing balance sheet, computing the tax, adding ContributionRetainedEarnings to the previous RetainedEarnings, deriving the cash flow, and adding NetCashFlow to the previous Cash. Every closing balance sheet is then out of balance by exactly as much as the opening one (not at all if that balances), however often periods are recomputed, posted to, or revised and rolled again; recomputing closed periods changes nothing; the books depend on the figures entered and not on the history; and the cash flow derived over several periods at once is the sum of the periods' cash flows.",
  [HI], "all forecasts: any number and length of periods, figures, tax rates, transactions on closed periods, revisions of earlier ones",
  "Tests compute each step once on one set of figures and compare totals.",
  [ST], [("roll forward", "calc_tax, calc_elements, calc_cash_flow, put_balance_sheet, get_*, BsMap::transact")], ["Accounts after each step"])

p("C39", "One deal has one value and one yield, whichever part is asked",
  "For payments due at the ends of periods, m periods a year, and a rate given in nominal, effective and continuous form, all ways to value them agree: summing pv, pvm, pvc or discount factors, chaining forward factors, npv_t0, npv, bringing the future value back, a level rate curve of any kind (and as any other kind), and xnpv, xpv, xdis_fact where periods are whole months; for level payments also pv_annuity and pmt, and for a bond price, pv_full, price_ratecurve and the price of a floating rate note of the same total rates. For an ordinary investment, irr, xirr and ytm asked with that value give the rate back, and a level par curve is the same level spot and forward curve.",
  [IN, HI], "all deals built up, cut down, joined, repriced payment by payment; up to 30 years, nominal rates from -4 % to 90 %",
  "Each function is tested on its own on one or two inputs; no test compares two of them.",
  [LIB, BO, RA], [("value of a deal", "pv, pvm, pvc, npv, xnpv, pv_annuity, pmt, CouponBond, FloatingRateNotes, RateCurve, Rates"), ("yield of a deal", "irr, xirr, ytm, rate conversions")], ["return values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for q in P: assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
open(out, "w").write("".join(json.dumps(q) + "\n" for q in P))
