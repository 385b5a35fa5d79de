#!/usr/bin/env python3
"""tools/automutate.py DIR PART OF [file-substring]: mutate every line of the library mechanically.

Each operator, comparison, constant, list entry, statement and a few names of the code (not its tests) is changed, one at
a time, in a copy under DIR. Changes the stable tests do not notice are shown to the quick checks of the properties of
that place, until one reports its VIOLATION. PART OF: this process does the changes number PART modulo OF."""
import os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
top, part, of = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
which = sys.argv[4] if len(sys.argv) > 4 else ""
listing = part < 0

# the properties to ask, by the file and the item the line is in
ASK = [
    ("lib.rs", r"fn (is_leap_year|days_in_year|date_to_float|date_from_float)\b", "C17 C19 C18"),
    ("lib.rs", r"fn (yearfrac|yrfrac)\b", "C18 C19 C20"),
    ("lib.rs", r"fn (dis_fact_annual|dis_fact|xdis_fact|fwd_dis_fact|pv|xpv|pvm|pvc|fv|xfv|fvm|fvc)\b", "C20"),
    ("lib.rs", r"fn (discount|pv_annuity|pmt)\b", "C22 C30"),
    ("lib.rs", r"fn \w+_rate\b", "C21"),
    ("lib.rs", r"fn (approx|is_zero)\b", "C37 C25"),
    ("lib.rs", r"fn (npv_t0|npv|xnpv)\b", "C23 C24"),
    ("lib.rs", r"fn (irr|xirr)\b", "C24"),
    ("lib.rs", r"fn newt_raph\b", "C25 C24 C31"),
    ("lib.rs", r"", "C15 C17"),
    ("rates.rs", r"fn (rate_estim|estima|pv)\b", "C26 C29"),
    ("rates.rs", r"fn to_(nominal|effective|exponential)\b", "C27"),
    ("rates.rs", r"fn to_(spot|par)\b", "C28"),
    ("rates.rs", r"fn forward_rate\b", "C29"),
    ("rates.rs", r"", "C26 C29"),
    ("bonds.rs", r"", "C30 C31 C32 C33"),
    ("moneymarkets.rs", r"", "C34 C35"),
    ("statements.rs", r"_MAP: |_BALANCE_SHEET: |_PROFIT_LOSS: ", "C01 C04 C05 C06 C03 C16"),
    ("statements.rs", r"_CALC: |HASHMAP: |DEBIT_TYPE: |fn (adder|debit_mapping|debit|credit|transact|transact_series|is_calc)\b", "C03 C02 C01"),
    ("statements.rs", r"enum ", "C15 C02"),
    ("statements.rs", r"fn (add|upsert|value|add_vec|upsert_vec|get_balance_sheet|get_profit_loss|get_cash_flow|put_\w+)\b", "C02 C10"),
    ("statements.rs", r"fn (calc_elem|finmap_add)\b", "C01 C04"),
    ("statements.rs", r"fn (clean|remove_calc_clean)\b", "C08"),
    ("statements.rs", r"fn common_size\b", "C09"),
    ("statements.rs", r"fn (depreciation_tax_adjust|calc_tax|set_tax_rates)\b", "C07 C06"),
    ("statements.rs", r"fn calc_cash_flow\b", "C05 C04 C06 C10"),
    ("statements.rs", r"fn calc_elements\b", "C01 C11 C10"),
    ("statements.rs", r"fn (to_statements|from_statements|get_hm|balance_sheet_beg|balance_sheet_end|profit_loss|cash_flow|fin_others|get_account|get_hashmap|to_financial_reports)\b", "C11"),
    ("statements.rs", r"fn (check_dates|valid_date|set_dates_from_profit_loss)\b", "C12"),
    ("statements.rs", r"fn split_periods\b", "C13"),
    ("statements.rs", r"fn (consecutive_\w+|from_periods|build_btree)\b", "C14"),
    ("statements.rs", r"fn (format_table|print_statements|item_exist|print_items|to_csv)\b", "C16"),
    ("statements.rs", r"fn fmt\b", "C36"),
    ("statements.rs", r"", "C15 C10"),
    ("", r"", "C15"),
]
SWAPS = [(" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), ("+=", "-="), ("-=", "+="), ("*=", "/="),
         (" && ", " || "), (" || ", " && "), (" == ", " != "), (" != ", " == "), (" >= ", " > "), (" <= ", " < "),
         (" > ", " >= "), (" < ", " <= "), (" > ", " < "), (" < ", " > "), ("f64::max", "f64::min"), ("f64::min", "f64::max"),
         (".max()", ".min()"), (".floor()", ".ceil()"), (".ceil()", ".floor()"), (".round()", ".floor()"), ("d0", "d1"), ("d1", "d0"),
         ("b0", "b1"), ("b1", "b0"), ("true", "false"), ("false", "true"), ("!", ""), ("unwrap_or(&0.0)", "unwrap_or(&1.0)"),
         ("_qtr", "_ann"), ("_ann", "_qtr"), (".abs()", ""), (".powf(", ".powf(-"), ("Duration::days(", "Duration::days(-"),
         ("..=", ".."), (".rev()", ""), ("insert(", "remove(&"), ("Some(", "None.or(Some("), ("_beg", "_end"), ("_end", "_beg"),
         ("date_beg", "date_end"), ("date_end", "date_beg"), ("is_zero(", "!crate::is_zero("), (".clone()", ".clone().clone()"), ("-", ""), ("1.0 ", "-1.0 ")]


def mutants():
    for dirpath, _, names in sorted(os.walk("/repo/src")):
        for f in sorted(names):
            path = os.path.join(dirpath, f)
            rel = os.path.relpath(path, "/repo/src")
            if which not in rel: continue
            lines = open(path).read().split("\n")
            item, block = "", False
            for n, s in enumerate(lines):
                if s.startswith("#[cfg(test)]"): break
                t = s.strip()
                if t.startswith("/**") or t.startswith("/*!"): block = True
                if block:
                    if "*/" in t: block = False
                    continue
                m = re.search(r"\bfn \w+|enum \w+|static ref \w+: |struct \w+|trait \w+", s)
                if m: item = m.group(0)
                if not t or t.startswith("//") or t.startswith("use ") or t.startswith("#[") or "fn " in t or t in "{}()[],;": continue
                ask = next(a for fl, pat, a in ASK if fl in rel and re.search(pat, item))
                def out(new, why): return rel, n, s, new, why, ask, item
                code = s.split(" //")[0]
                for a, b in SWAPS:
                    if a == ".clone()" or (a == "-" and "->" in code): continue
                    i = code.find(a)
                    k = 0
                    while i >= 0 and k < 3:
                        if a == "!" and code[i - 1:i].isalnum(): pass   # a macro
                        elif a == "-" and (code[i + 1:i + 2] in " =>" or code[i - 1:i].isalnum()): pass
                        else:
                            new = code[:i] + b + code[i + len(a):]
                            if a == "Some(": new = None
                            if new: yield out(new, f"{a.strip()} -> {b.strip()} #{k}")
                        i = code.find(a, i + len(a)); k += 1
                for k, m in enumerate(re.finditer(r"(?<![\w.\"'])(\d+)(\.\d+)?(e-?\d+)?(?:f64)?(?![\w\"'])", code)):
                    x = m.group(0)
                    if "{" in code[:m.start()] and '"' in code[:m.start()]: continue
                    news = [str(float(x.replace("f64", "")) * 1.5 if float(x.replace("f64", "")) else 1.0)] if m.group(2) or m.group(3) else [str(int(x.replace("f64", "")) + 1)]
                    if m.group(3): news = [x + "0", x.replace("e-", "e-1") if "e-1" not in x else x]
                    for y in news: yield out(code[:m.start()] + y + code[m.end():], f"{x} -> {y} #{k}")
                m = re.match(r"^\s*[A-Z]\w+,?$", code)
                if m: yield out("", "entry left out")
                for m in re.finditer(r"\b([A-Z]\w+), ?(?=[A-Z\]])", code):
                    if "vec!" in code: yield out(code[:m.start()] + code[m.end():], f"{m.group(1)} left out")
                for m in re.finditer(r"vec!\[([A-Z]\w+),?\]", code): yield out(code[:m.start(1)] + code[m.end(1):], f"{m.group(1)} left out (only one)")
                if t.endswith(";") and not re.match(r"(let|return|use|pub|type|static|break|continue|\))", t): yield out("", "statement left out")
                if t == "break;": yield out("continue;", "goes on")


def say(*x): print(*x, flush=True)


seen, todo = set(), []
for x in mutants():
    key = (x[0], x[1], x[3])
    if key not in seen and x[3] != x[2]:
        seen.add(key); todo.append(x)
if listing:
    for x in todo: say(x[0], x[1] + 1, x[4], "|", x[6], "|", x[5])
    say(len(todo)); sys.exit()

shutil.rmtree(top, ignore_errors=True)
shutil.copytree(ROOT, top + "/verif", ignore=shutil.ignore_patterns("run-*", "replays", "evidence", "_apalache-out", "seeded", ".git"))
subprocess.check_call(["cp", "-a", "/repo", top + "/repo"])
subprocess.check_call(["git", "-C", top + "/repo", "checkout", "-q", "--", "."])
c = top + "/verif/harness/Cargo.toml"
s = open(c).read(); assert '"/repo"' in s
open(c, "w").write(s.replace('"/repo"', f'"{top}/repo"'))
traces = os.environ.get("AUTO_TRACES", top + "/traces")
os.makedirs(traces, exist_ok=True)
repo = top + "/repo"
env = {**os.environ, "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_TARGET_DIR": top + "/target"}
count = {"not code": 0, "tested": 0, "caught": 0, "MISSED": 0}
for k, (rel, n, old, new, why, ask, item) in enumerate(todo):
    if k % of != part: continue
    p = f"{repo}/src/{rel}"
    orig = open(f"/repo/src/{rel}").read()
    lines = orig.split("\n"); assert lines[n] == old
    lines[n] = new
    open(p, "w").write("\n".join(lines))
    def verdict():
        try: t = subprocess.run(["cargo", "test", "--offline", "-q", "--no-fail-fast"], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        except subprocess.TimeoutExpired: return "tested", ""
        if "could not compile" in t.stdout: return "not code", ""
        if t.returncode: return "tested", ""
        rcs = []
        for prop in ask.split():
            r = subprocess.run([top + "/verif/bin/check", prop, "quick"], cwd=top + "/verif", env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_KEEP_TRACES": traces}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout: return "caught", prop
            rcs.append(r.returncode)
        return "MISSED", f"{ask} {rcs}"
    v, more = verdict()
    count[v] += 1
    if v in ("caught", "MISSED"): say(f"{v:7} {rel}:{n + 1} {why} [{item}] {more}   {old.strip()[:60]}  =>  {new.strip()[:60]}")
    open(p, "w").write(orig)
say(count)
shutil.rmtree(top, ignore_errors=True)
