// -*- mode: quint -*-
/** Accounts and reports that are written to text and read back: the accounts in
 *  memory, and the text files they were written to. Amounts are in cents (up to
 *  10^13 units of currency), ratios in millionths. Reading a file gives what was
 *  written to it, however often the accounts in memory changed since; writing a
 *  file by hand is one more way to produce it. */
module saved {
  import chart.* from "./chart"
  import dates.* from "./dates"
  import intervals.* from "./intervals"
  import semantics.* from "./semantics"
  import books.* from "./books"

  pure val CURRENCIES: Set[str] = Set("INR", "USD", "NGN", "EUR", "GBP", "CNY", "MZN", "ZAR")
  pure val OTHER: Set[str] = toSet(OTHER_LINES)
  pure val PARAMS: List[str] = ["unlevered", "shield_tax", "equity", "debt", "valuation"]

  pure val INDUSTRIES: Set[str] = Set("General", "Automotive", "Aerospace", "HeavyEngineering", "InformationTech", "Banking",
    "Metals", "Retail", "Education")
  /** what a company does (in millionths), and its share price on some dates (in cents) */
  type Holding = { share: str -> int, price: int -> int }

  var books: Books
  var holding: Holding
  var param: str -> int
  var files: int -> Books           // two files for accounts ...
  var paramFiles: int -> (str -> int)
  var op: { name: str, file: int, compact: bool }

  pure def amountFrom(z: int, r: int): int =
    if (z == 0) r % 401 - 200
    else if (z == 1) r - 500000
    else if (z == 2) (r - 500000) * 2000000003
    else if (z == 3) (if (r % 2 == 0) -1 else 1) * (10^15 - r)
    else if (z == 4) 100 * 10^(r % 14)
    else (r - 500000) * 1999993

  /** a date of every kind: leap days, month ends, the turn of the year */
  action aDate(use: int => bool): bool = {
    nondet y = Set(1900, 1970, 1999, 2000, 2016, 2020, 2023, 2024, 2100).oneOf()
    nondet m = Set(1, 2, 2, 3, 4, 6, 12, 12).oneOf()
    nondet d = Set(1, 28, 29, 30, 31, 31).oneOf()
    use(mk(y, m, lesser(d, monthDays(y, m))))
  }

  pure def some(k: str, pres: str -> int, n: int): bool = pres.get(k) < n
  pure def make(lines: Set[str], n: int, pres: str -> int, z: str -> int, amt: str -> int, shift: int): Stmt =
    lines.filter(k => pres.get(k) < n).mapBy(k => amountFrom(z.get(k), (amt.get(k) + 7919 * shift) % 1000000))
  pure def makeRatios(n: int, pres: str -> int, amt: str -> int, shift: int): Stmt =
    OTHER.filter(k => pres.get(k) < n).mapBy(k => (amt.get(k) * 3 + shift) % 2000000 - 250000)

  pure val LINES: Set[str] = BS.union(PL).union(CF).union(OTHER)

  /** accounts over a few dates after t; how full the statements are: n of 10 */
  pure def anyBooks(t: int, n: int, parts: Set[int], ds: Set[int], cur: str, con: bool,
                    pres: str -> int, z: str -> int, amt: str -> int): Books = {
    val d = ds.union(Set(0))
    val dd = d.mapBy(i => plusDays(t, i))
    val pp = d.filter(i => i < 400).mapBy(i => (plusDays(t, i), plusDays(t, i + (if (i % 2 == 0) 365 else 91))))
    { currency: cur, consolidated: con, dates: if (0.in(parts)) d.map(i => dd.get(i)) else Set(),
      bs: if (1.in(parts)) d.map(i => (dd.get(i), make(BS, n, pres, z, amt, i))).setToMap() else Map(),
      pl: if (2.in(parts)) d.map(i => (if (i < 400) pp.get(i) else (t, dd.get(i)), make(PL, n, pres, z, amt, i))).setToMap() else Map(),
      cf: if (3.in(parts)) Map(pp.get(0) -> make(CF, n, pres, z, amt, 5)) else Map(),
      ot: if (4.in(parts)) Map(pp.get(0) -> makeRatios(n, pres, amt, 3)) else Map() }
  }

  action someBooks(use: (Books, str -> int, Holding) => bool): bool = aDate(t => {
    nondet inds = INDUSTRIES.powerset().oneOf()
    nondet only = INDUSTRIES.oneOf()
    nondet how = 0.to(7).oneOf()
    nondet share = INDUSTRIES.setOfMaps(0.to(999999)).oneOf()
    nondet n = Set(0, 2, 2, 5, 10).oneOf()
    nondet parts = 0.to(4).powerset().oneOf()
    nondet every = Set(true, true, false).oneOf()
    nondet ds = Set(1, 59, 60, 91, 365, 366, 730, 1461).powerset().oneOf()
    nondet cur = CURRENCIES.oneOf()
    nondet con = Set(true, false).oneOf()
    nondet pres = LINES.setOfMaps(0.to(9)).oneOf()
    nondet z = LINES.setOfMaps(0.to(5)).oneOf()
    nondet amt = LINES.setOfMaps(0.to(999999)).oneOf()
    nondet ps = 0.to(4).setOfMaps(0.to(999999)).oneOf()
    val ind = if (how <= 2) Set(only) else inds
    use(anyBooks(t, n, if (every) 0.to(4) else parts, ds, cur, con, pres, z, amt),
        PARAMS.indices().map(i => (PARAMS[i], amountFrom((ps.get(i) / 7) % 6, ps.get(i)))).setToMap(),
        // also none, all of it, or two that cancel out
        { share: ind.mapBy(k => if (how.in(Set(1, 3))) 0 else if (how == 2) 1000000
            else if (how == 4) (if (k == "Retail") share.get(only) else if (k == "Banking") -share.get(only) else 0) else share.get(k)),
          price: ds.map(i => (plusDays(t, i), amountFrom(ps.get(i % 5) % 6, ps.get(i % 5)))).setToMap() })
  })

  action init = someBooks((b, p, h) => all {
    holding' = h, books' = b, param' = p, files' = Map(), paramFiles' = Map(), op' = { name: "Load", file: 0, compact: true },
  })

  action now(name: str, f: int, c: bool, b: Books, p: str -> int, fs: int -> Books, ps: int -> (str -> int)): bool = all {
    holding' = holding, books' = b, param' = p, files' = fs, paramFiles' = ps, op' = { name: name, file: f, compact: c },
  }

  action save = {
    nondet f = Set(1, 2).oneOf()
    nondet c = Set(true, false).oneOf()
    now("Save", f, c, books, param, files.put(f, books), paramFiles.put(f, param))
  }
  action load = {
    nondet f = files.keys().oneOf()
    all { files.keys() != Set(), now("Read", f, true, files.get(f), paramFiles.get(f), files, paramFiles) }
  }
  /** somebody writes a file by hand */
  action hand = {
    nondet f = Set(1, 2).oneOf()
    nondet c = Set(true, false).oneOf()
    someBooks((b, p, _) => now("Hand", f, c, books, param, files.put(f, b), paramFiles.put(f, p)))
  }
  action another = someBooks((b, p, h) => all {
    holding' = h, books' = b, param' = p, files' = files, paramFiles' = paramFiles, op' = { name: "Edit", file: 0, compact: true },
  })
  action editBs = {
    nondet d = books.bs.keys().oneOf()
    nondet k = BS.oneOf()
    nondet z = 0.to(5).oneOf()
    nondet r = 0.to(999999).oneOf()
    all { books.bs.keys() != Set(),
      now("Edit", 0, true, { ...books, bs: books.bs.put(d, books.bs.get(d).put(k, amountFrom(z, r))) }, param, files, paramFiles) }
  }
  action editPl = {
    nondet d = books.pl.keys().oneOf()
    nondet k = PL.oneOf()
    nondet z = 0.to(5).oneOf()
    nondet r = 0.to(999999).oneOf()
    all { books.pl.keys() != Set(),
      now("Edit", 0, true, { ...books, pl: books.pl.put(d, books.pl.get(d).put(k, amountFrom(z, r))) }, param, files, paramFiles) }
  }
  action editRest = {
    nondet cur = CURRENCIES.oneOf()
    nondet con = Set(true, false).oneOf()
    aDate(t => now("Edit", 0, true, { ...books, currency: cur, consolidated: con, dates: books.dates.union(Set(t)) },
      param, files, paramFiles))
  }
  action step = any { save, save, load, load, hand, another, editBs, editPl, editRest }

  // what was read is what the file holds
  val inv: bool = op.name.in(Set("Save", "Read")) implies
    books == files.get(op.file) and param == paramFiles.get(op.file)
}
