B = BUGS = []
ST, LIB, VAL = "statements.rs", "lib.rs", "valuations.rs"
BO, RA, MM = "fixedincomes/bonds.rs", "fixedincomes/bonds/rates.rs", "fixedincomes/moneymarkets.rs"
def bug(id, prop, file, edits, demo, needs, what):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, what=what))

BONDS = "use financelib::fixedincomes::bonds::{*, rates::*};\n"

bug("c39-payment-small-rate", "C39", LIB, [("    let rn = (1.0 + r / m).powf(n * m);\n    -(pv + fv / rn)", "    if (r / m).abs() < 2e-4 && fv == 0.0 {\n        // the payments hardly discount\n        return -pv / (n * m) * (1.0 + r / m * (n * m + 1.0) / 2.0);\n    }\n    let rn = (1.0 + r / m).powf(n * m);\n    -(pv + fv / rn)")],
"""fn main() {
    let (r, n, m) = (0.035, 20.0, 365.0);
    let v = pv_annuity(r, n, m, -10.0, 0.0);
    assert!(near(pmt(r, n, m, v, 0.0), -10.0, 1e-9), "{}", pmt(r, n, m, v, 0.0));
}""", "a loan without final payment paid back daily, or at a rate of nearly nothing", "the payment is only the first order one, and does not pay the loan off")

bug("c39-times-in-single", "C39", BO, [("rc.pv(c, ((i + 1) as f64) / self.freq)", "rc.pv(c, ((i + 1) as f32 / self.freq as f32) as f64)")],
BONDS + """fn main() {
    let b = CouponBond { par: 100.0, c: 0.06, freq: 12.0, t_life: 235.0 / 12.0 };
    let rc = RateCurve::NominalRateCurve { rate: vec![0.05; 300], freq: 12.0 };
    assert!(near(b.price_ratecurve(&rc), b.price(0.05), 1e-11), "{} {}", b.price_ratecurve(&rc), b.price(0.05));
}""", "payment times that are not halves, quarters..., compared to ten digits", "times of payments are kept in single precision")

bug("c39-effective-upfront", "C39", RA, [("                let sm = (0..i)", "                let sm = (usize::from(i > 20 && fq > &6.0)..i)")],
BONDS + """fn main() {
    let rc = RateCurve::NominalRateCurve { rate: vec![0.05; 30], freq: 12.0 };
    let s = Rates::ParRates { rate: rc }.to_spot();
    assert!(near(s.rate_estim(25.0 / 12.0), 0.05, 1e-6), "{}", s.rate_estim(25.0 / 12.0));
}""", "a par curve of more than twenty points, more often than every two months", "the first coupon is left out when spot rates are derived")

bug("c15-zero-shares", "C15", VAL, [("    affiliation: HashMap<Industry, f64>,", "    #[serde(default, skip_serializing_if = \"none_of_it\")]\n    affiliation: HashMap<Industry, f64>,"),
 ("#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct ValuationModel", "fn none_of_it(m: &HashMap<Industry, f64>) -> bool {\n    m.values().sum::<f64>() == 0.0\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct ValuationModel")],
"""use financelib::valuations::*;
fn main() {
    let rep = FinancialReport { period: (dt(2020, 12, 31), dt(2021, 12, 31)), balance_sheet_beg: None, balance_sheet_end: None, profit_loss: None, cash_flow: None, others: None };
    let text = format!(r#"{{"param":{{"unlevered":0.1,"shield_tax":0.1,"equity":0.1,"debt":0.1,"valuation":0.1}},"reports":{},"affiliation":{{"Retail":0.0}}}}"#, serde_json::to_string(&rep).unwrap());
    let c: CompanyReports = serde_json::from_str(&text).unwrap();
    let d: CompanyReports = serde_json::from_str(&serde_json::to_string(&c).unwrap()).unwrap();
    assert!(c == d, "{c:?} {d:?}");
}""", "a company whose shares of industries come to nothing: a placeholder of zero, or a hedge", "the company's industries are not written")
