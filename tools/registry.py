"""What decides each property: behaviours to replay, theorems and obligations.

part: spec module, init/step actions, invariant (default inv), driver module of
harness/, ops that must occur, and per tier (processes, behaviours, steps)."""

LEDGER = {"spec": "ledger_proof", "init": "init", "step": "step", "inv": "balanced", "steps": 1, "tier": "thorough"}


def stmt(step, ops, init="initAll", quick=(8, 60, 16), thorough=(32, 200, 25)):
    return {"spec": "statement", "driver": "statement", "init": init, "step": step, "ops": ops,
            "quick": quick, "thorough": thorough}


def cash(step="step", init="init", quick=(8, 100, 20), thorough=(32, 250, 30)):
    return {"spec": "cashflow", "driver": "cashflow", "init": init, "step": step, "ops": ["Derive", "Totals"],
            "quick": quick, "thorough": thorough}


def cal(kind, ops, quick=(7, 40, 20), thorough=(32, 120, 40)):
    return {"spec": "calendar_cases", "driver": "calendar", "init": "init" + kind, "step": "step" + kind, "ops": ops,
            "quick": quick, "thorough": thorough}


def per(step, ops, quick=(7, 40, 20), thorough=(32, 150, 40)):
    return {"spec": "periods", "driver": "periods", "init": "init", "step": step, "ops": ops,
            "quick": quick, "thorough": thorough}


def acc(step, ops, quick=(7, 40, 14), thorough=(32, 120, 25)):
    return {"spec": "accounts", "driver": "accounts", "init": "init", "step": step, "ops": ops,
            "quick": quick, "thorough": thorough}


def num(spec, ops, step="step", init="init", quick=(7, 60, 20), thorough=(32, 250, 40), inv="inv", driver=None):
    return {"spec": spec, "driver": driver or spec, "init": init, "step": step, "inv": inv, "ops": ops,
            "quick": quick, "thorough": thorough}


FORMS = ["eff", "nom", "con"]
REAL = ("the specification computes with 40 decimals (theorems of spec/fix.qnt); results of the code are compared up to "
        "the rounding errors that 64-bit floating point admits")
NUM = "rates, times, amounts and frequencies are drawn from the strata of spec/strata.qnt and of the module's own actions"

WALK = {"tool": "tlc", "spec": "calendar", "init": "walkInit", "step": "walk", "inv": "walkInv"}

EXACT = ("amounts are dyadic numbers on which the code's floating point sums are exact; "
         "the chart of accounts in spec/chart.qnt is the specification's own")

PROPS = {
    "C01": {"level": "model_checking", "tests": ["chart"], "assumptions": [EXACT],
            "parts": [stmt("stepTotals", ["Recalc", "Stale", "Add", "Clean"])]},
    "C02": {"level": "model_checking", "assumptions": [EXACT],
            "parts": [stmt("stepEdit", ["Add", "Upsert", "AddVec", "UpsertVec", "Stale", "Recalc"], quick=(5, 60, 16)),
                      acc("stepEdits", ["Put"], (3, 40, 14), (16, 120, 25))]},
    "C03": {"level": "model_checking", "tests": ["ledger_proof"], "verify": [LEDGER], "assumptions": [EXACT],
            "parts": [stmt("stepLedger", ["Debit", "Credit", "Transact", "Series"], init="initBs")]},
    "C04": {"level": "model_checking", "tests": ["chart"], "assumptions": [EXACT], "parts": [cash()]},
    "C05": {"level": "model_checking", "tests": ["chart"], "assumptions": [EXACT], "parts": [cash()]},
    "C06": {"level": "model_checking", "assumptions": [EXACT, "the shield is compared up to the negligibility threshold"],
            "parts": [cash("stepShield", "initShield")]},
    "C08": {"level": "model_checking", "assumptions": [EXACT],
            "parts": [stmt("stepClean", ["Clean", "RemoveCalc", "Add", "Stale"], quick=(5, 60, 16)),
                      acc("stepClean", ["RemoveCalc"], (3, 40, 12))]},
    "C09": {"level": "model_checking", "assumptions": [EXACT],
            "parts": [stmt("stepCommon", ["CommonSize", "Recalc"])]},
    "C17": {"level": "model_checking", "tests": ["dates"], "verify": [WALK], "parts": [cal("Num", ["Jump", "Walk"]), cal("Cycle", [], (1, 1, 400), (1, 1, 3660))]},
    "C18": {"level": "model_checking", "tests": ["dates"], "verify": [WALK], "parts": [cal("Pairs", ["Far", "Near", "Back", "Feb", "Run"]), cal("Sweep", ["Sweep"], (1, 1, 576), (1, 1, 576))]},
    "C19": {"level": "model_checking", "tests": ["dates"], "verify": [WALK], "parts": [cal("Pairs", ["Far", "Near", "Back", "Feb", "Run"]), cal("Sweep", ["Sweep"], (1, 1, 576), (1, 1, 576))]},
    "C07": {"level": "model_checking", "assumptions": [EXACT],
            "parts": [acc("stepTax", ["CalcTax", "SetTaxRates", "Put"])]},
    "C10": {"level": "model_checking", "assumptions": [EXACT],
            "parts": [acc("stepPut", ["Put", "CalcElements", "CalcCashFlow"])]},
    "C11": {"level": "model_checking", "assumptions": [EXACT],
            "parts": [acc("stepReports", ["Report", "Reports", "Together", "RecalcReport"])]},
    "C12": {"level": "model_checking",
            "parts": [per("stepSeq", ["Join", "Gap", "Backwards", "Disturb", "Collect"], (7, 60, 20)),
                      per("stepSweep", ["Sweep"], (1, 3, 4), (8, 10, 10))]},
    "C13": {"level": "model_checking", "parts": [per("stepSplit", ["Length", "Drop"])]},
    "C14": {"level": "model_checking",
            "parts": [per("stepChain", ["Quarter", "Year", "Both", "Quarters", "Years", "NearMiss", "Skip", "Later", "Drop"], (7, 30, 16)),
                      acc("stepRestrict", ["FromPeriods", "ConsecutivePl", "ConsecutiveCf"], (4, 40, 12)),
                      per("stepSubsets", ["Subsets"], (2, 3, 4), (8, 10, 10))]},
    "C16": {"level": "model_checking", "assumptions": [EXACT],
            "parts": [acc("stepTable", ["Show"])]},
    "C36": {"level": "model_checking", "assumptions": [EXACT],
            "parts": [acc("stepPrint", ["Print"])]},
    "C15": {"level": "model_checking",
            "assumptions": ["amounts in cents up to 10^13 units, ratios in millionths; text is written and read by the ron and "
                            "serde_json crates through the library's own (de)serialisation"],
            "parts": [{"spec": "saved", "driver": "saved", "init": "init", "step": "step", "ops": ["Save", "Read", "Hand", "Edit"],
                       "quick": (7, 30, 12), "thorough": (32, 100, 25)}]},
    "C20": {"level": "exploration", "tests": ["fix"], "assumptions": [REAL], "rule": NUM,
            "parts": [num("tvm", ["Start", "fv", "pv", "fvm", "pvm", "fvc", "pvc", "xfv", "xpv"])]},
    "C21": {"level": "exploration", "tests": ["fix"], "assumptions": [REAL], "rule": NUM,
            "parts": [num("quotes", ["Fresh"] + [a + "->" + b for a in FORMS for b in FORMS if a != b])]},
    "C22": {"level": "exploration", "assumptions": [REAL], "rule": NUM, "parts": [num("loan", ["Sign", "Pay"])]},
    "C23": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("flows", ["Start", "Add", "Series", "Turn", "Rotate", "Reprice"], quick=(7, 40, 20), thorough=(32, 150, 40))]},
    "C24": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("irr", ["Invest", "OneSign", "Polynomial"], quick=(7, 30, 16), thorough=(32, 120, 20))]},
    "C25": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("solver", ["poly/Root", "exp/Root", "exp/Limit", "expup/Flat", "recip/Root", "recip/Flat", "bowl/Limit",
                                     "const/Flat", "log/Root", "log/NoNumber", "rootup/NoNumber", "cycle/Root", "cycle/Limit"],
                          quick=(7, 45, 50), thorough=(32, 200, 100))]},
    "C26": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("curves", ["Fresh", "eff->nom", "con->nom"], quick=(7, 40, 16), thorough=(32, 150, 30))]},
    "C27": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("curves", ["Fresh"] + [a + "->" + b for a in FORMS + ["Same"] for b in FORMS if a != b],
                          quick=(7, 40, 16), thorough=(32, 150, 30))]},
    "C28": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("parspot", ["Fresh", "ToSpot", "ToPar"], "parStep", "parInit", (7, 30, 16), (32, 120, 30), "parInv")]},
    "C29": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("forwards", ["Stop"], "fwdStep", "fwdInit", (7, 100, 20), (32, 300, 40), "fwdInv")]},
    "C30": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("bonds", ["Issue", "Later", "Coupon", "Reprice"], quick=(7, 60, 20), thorough=(32, 200, 40))]},
    "C31": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("bonds", ["Issue", "Later", "Coupon", "Reprice"], quick=(7, 80, 20), thorough=(32, 250, 40))]},
    "C32": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("bonds", ["Issue", "Wait", "Due", "Coupon", "Later", "Reprice"], quick=(7, 60, 20), thorough=(32, 200, 40))]},
    "C33": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("bonds", ["Note", "Later"], "stepNote", "initNote", (7, 80, 20), (32, 250, 40))]},
    "C34": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("money", ["Open", "Roll"], "stepHold", quick=(7, 100, 30), thorough=(32, 300, 50))]},
    "C35": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("money", ["Period", "Periods"], "stepFolio", quick=(7, 60, 24), thorough=(32, 200, 40))]},
    "C37": {"level": "exploration", "assumptions": ["pairs within a part in 10^8 of either border are left open"],
            "rule": "pairs of either sign from 1e-14 to 1e21, drawn, nudged around one part in a million and around 1e-8",
            "parts": [num("near", ["Fresh", "Nudge", "Tiny", "Swap", "Mirror", "Scale"], quick=(7, 200, 40), thorough=(32, 1000, 100))]},
    "C38": {"level": "model_checking", "assumptions": [EXACT],
            "parts": [num("forecast", ["Enter", "Tax", "Carry", "Derive", "Close", "Next", "Again", "Post", "Revise", "Amend", "Resume", "Over"],
                          quick=(8, 25, 26), thorough=(32, 90, 40))]},
    "C39": {"level": "exploration", "assumptions": [REAL], "rule": NUM,
            "parts": [num("views", ["Issue", "Extend", "Defer", "Due", "Merge", "Turn", "Reprice"], quick=(7, 120, 20), thorough=(32, 500, 40))]},
}
