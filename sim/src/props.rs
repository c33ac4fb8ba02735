//! The properties: for each, how a scenario is drawn and how its execution is judged.
use crate::cal::{self, Day};
use crate::gen::{self, Gen, Import, Opts};
use crate::machine::*;
use crate::model::{self, near, Entry, Funding, Journal, Pool};
use crate::outp;
use crate::rng::Rng;
use crate::scen::*;
use crate::shm::*;
use std::collections::BTreeMap;

pub const ALL: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
];

fn bad(class: &str, text: impl Into<String>) -> Verdict {
    Verdict::Bad { class: class.into(), text: text.into() }
}

// ---- shared pieces -----------------------------------------------------------------

pub type Move = (Day, String, String, f64, String); // date, account, envelope, amount, symbol

fn is_auto(e: &Entry) -> bool {
    !e.postings.is_empty() && e.postings.iter().all(|p| p.envelope.is_some())
}
fn moves(es: &[Entry]) -> Vec<Move> {
    let mut v: Vec<Move> = vec![];
    for e in es.iter().filter(|e| is_auto(e)) {
        for p in &e.postings {
            let a = p.amt.as_ref().unwrap();
            v.push((e.date, p.account.clone(), p.envelope.clone().unwrap(), a.mag, a.sym.clone()));
        }
    }
    v.sort_by(|a, b| (a.0, &a.1, &a.2, &a.4).cmp(&(b.0, &b.1, &b.2, &b.4)).then(a.3.total_cmp(&b.3)));
    v
}
fn same_moves(a: &[Move], b: &[Move]) -> bool {
    let nz = |v: &[Move]| v.iter().filter(|m| m.3.abs() > model::TOL).cloned().collect::<Vec<_>>();
    let (a, b) = (nz(a), nz(b));
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| (x.0, &x.1, &x.2, &x.4) == (y.0, &y.1, &y.2, &y.4) && near(x.3, y.3))
}
fn show_moves(m: &[Move]) -> String {
    m.iter().map(|m| format!("{} {}/{} {}{}", cal::format(m.0, "%F"), m.1, m.2, m.3, m.4)).collect::<Vec<_>>().join("; ")
}
fn post_key(p: &model::Posting) -> String {
    let r = |v: f64| {
        let x = (v * 1e8).round() / 1e8;
        if x == 0.0 { 0.0 } else { x }
    };
    format!(
        "{}|{:?}|{:?}|{:?}",
        p.account,
        p.envelope,
        p.amt.as_ref().map(|a| (r(a.mag), &a.sym)),
        p.cost.as_ref().map(|c| match c {
            model::Cost::Unit(a) => ('u', r(a.mag), &a.sym),
            model::Cost::Total(a) => ('t', r(a.mag), &a.sym),
        })
    )
}
/// Same meaning: the order of postings and the last digits do not matter.
fn same_entry(a: &Entry, b: &Entry) -> bool {
    if (a.date, a.status, &a.desc, &a.payee, a.postings.len()) != (b.date, b.status, &b.desc, &b.payee, b.postings.len()) {
        return false;
    }
    let k = |e: &Entry| {
        let mut v: Vec<String> = e.postings.iter().map(post_key).collect();
        v.sort();
        v
    };
    if k(a) == k(b) {
        return true;
    }
    // amounts next to a rounding boundary: match one by one
    let mut rest: Vec<&model::Posting> = b.postings.iter().collect();
    a.postings.iter().all(|p| {
        let hit = rest.iter().position(|q| {
            p.account == q.account
                && p.envelope == q.envelope
                && match (&p.amt, &q.amt) {
                    (None, None) => true,
                    (Some(x), Some(y)) => x.sym == y.sym && model::exact(x.mag, y.mag),
                    _ => false,
                }
                && match (&p.cost, &q.cost) {
                    (None, None) => true,
                    (Some(model::Cost::Unit(x)), Some(model::Cost::Unit(y))) => x.sym == y.sym && model::exact(x.mag, y.mag),
                    (Some(model::Cost::Total(x)), Some(model::Cost::Total(y))) => x.sym == y.sym && model::exact(x.mag, y.mag),
                    _ => false,
                }
        });
        hit.map(|i| rest.remove(i)).is_some()
    })
}
fn same_entries(a: &[Entry], b: &[Entry]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_entry(x, y))
}

/// What was added to the journal since `before`, read back by the model.
fn recorded(before: &Journal, disk: &Disk, main: &str) -> Result<Vec<Entry>, String> {
    let j = Journal::load(disk, main)?;
    let n = before.entries.len();
    if j.entries.len() < n || j.entries[..n] != before.entries[..] {
        return Err("entries that were there before have changed".into());
    }
    Ok(j.entries[n..].to_vec())
}
fn tail(disk: &Disk, main: &str) -> String {
    let t = String::from_utf8_lossy(disk.get(main).unwrap_or(b"")).into_owned();
    let n = t.lines().count();
    t.lines().skip(n.saturating_sub(14)).collect::<Vec<_>>().join("\n")
}
fn rows_of(es: &[Entry]) -> Vec<Entry> {
    es.iter().filter(|e| !is_auto(e)).cloned().collect()
}
fn nodes_except<'a>(d: &'a Disk, main: &str) -> BTreeMap<&'a String, &'a Node> {
    d.nodes.iter().filter(|(p, _)| p.as_str() != main).collect()
}

fn cmp_pool(what: &str, want: &Pool, got: &Pool) -> Option<String> {
    (!model::pool_near(want, got)).then(|| format!("{what}: shown {}, expected {}", model::pool_str(got), model::pool_str(want)))
}
fn cmp_balance(what: &str, want: &Pool, got: &Pool) -> Option<String> {
    (!model::pool_exact(want, got)).then(|| format!("{what}: shown {}, expected {}", model::pool_str(got), model::pool_str(want)))
}

pub fn check_balance(j: &Journal, out: &str) -> Option<String> {
    let Some(got) = outp::balance(out) else { return Some(format!("cannot read the balance output:\n{out}")) };
    let want = j.balances();
    for (a, p) in &want {
        match got.get(a) {
            None => return Some(format!("account {a} is not shown")),
            Some(g) => {
                if let Some(e) = cmp_balance(&format!("balance of {a}"), p, g) {
                    return Some(e);
                }
            }
        }
    }
    for (a, g) in &got {
        if !want.contains_key(a) {
            if let Some(e) = cmp_balance(&format!("balance of {a}"), &Pool::new(), g) {
                return Some(e);
            }
        }
    }
    None
}

/// Totals of envelopes and available money.
pub fn check_totals(j: &Journal, t: Day, out: &str) -> Option<String> {
    let Some(got) = outp::envelopes(out) else { return Some(format!("cannot read the envelope output:\n{out}")) };
    let st = j.state(t);
    for a in j.accounts.iter().filter(|a| !a.envs.is_empty()) {
        let Some(g) = got.get(&a.name) else { return Some(format!("account {} is not shown", a.name)) };
        let s = &st[&a.name];
        if let Some(e) = cmp_pool(&format!("available in {}", a.name), &model::available(a, s), &g.available) {
            return Some(e);
        }
        let mut sum = g.available.clone();
        for (d, e) in a.envs.iter().zip(&s.envs) {
            let v: Vec<&outp::EnvOut> = g.envs.iter().filter(|x| x.name == d.name).collect();
            if v.len() != 1 {
                return Some(format!("envelope {}/{} is shown {} times", a.name, d.name, v.len()));
            }
            let x = v[0];
            if x.sym != d.amount.sym || !model::exact(x.goal, d.amount.mag) {
                return Some(format!("envelope {}/{}: goal shown {}{}, expected {}{}", a.name, d.name, x.goal, x.sym, d.amount.mag, d.amount.sym));
            }
            if !near(x.now + x.next, e.now + e.next) {
                return Some(format!("envelope {}/{} holds {}, expected {}", a.name, d.name, x.now + x.next, e.now + e.next));
            }
            *sum.entry(x.sym.clone()).or_insert(0.0) += x.now + x.next;
        }
        // each of the numbers shown is rounded
        let slack = 1e-8 * a.envs.len() as f64;
        let v = |p: &Pool, k: &String| p.get(k).copied().unwrap_or(0.0);
        if s.real.keys().chain(sum.keys()).any(|k| (v(&s.real, k) - v(&sum, k)).abs() > slack && !near(v(&s.real, k), v(&sum, k))) {
            return cmp_pool(&format!("available plus envelopes of {}", a.name), &s.real, &sum);
        }
    }
    None
}

pub fn check_dates(j: &Journal, t: Day, out: &str, hits: &mut u64) -> Option<String> {
    let Some(got) = outp::envelopes(out) else { return Some(format!("cannot read the envelope output:\n{out}")) };
    let st = j.state(t);
    for a in j.accounts.iter().filter(|a| !a.envs.is_empty()) {
        let Some(g) = got.get(&a.name) else { return Some(format!("account {} is not shown", a.name)) };
        for (d, e) in a.envs.iter().zip(&st[&a.name].envs) {
            let Some(x) = g.envs.iter().find(|x| x.name == d.name) else { return Some(format!("envelope {} is not shown", d.name)) };
            let due = d.next_due(t);
            let f = |d: Option<Day>| d.map_or("none".into(), |d| cal::format(d, "%F"));
            if x.due != due {
                return Some(format!(
                    "on {} the next due date of {}/{} ({:?}, starting {}) is shown as {}, expected {}",
                    cal::format(t, "%F"), a.name, d.name, d.freq, f(d.starting), f(x.due), f(due)
                ));
            }
            {
                let (now, next) = (e.now.max(0.0), e.next + e.now.min(0.0));
                if e.now != 0.0 || e.next != 0.0 {
                    *hits += 1;
                }
                if !near(x.now, now) || !near(x.next, next) {
                    return Some(format!(
                        "on {} {}/{} ({:?}, starting {}) shows now {} next {}, expected now {now} next {next}",
                        cal::format(t, "%F"), a.name, d.name, d.freq, f(d.starting), x.now, x.next
                    ));
                }
                if d.amount.mag > 0.0 {
                    for (v, (n, all)) in [now, next].into_iter().zip(x.bars) {
                        // the same for both, and filled in proportion, however that is rounded
                        let want = (v / d.amount.mag).clamp(0.0, 1.0) * all as f64;
                        if all != x.bars[0].1 || all == 0 || (n as f64 - want).abs() > 1.0 + 1e-6 || (v >= d.amount.mag && n != all && !near(v, d.amount.mag)) || (v <= 0.0 && n != 0) {
                            return Some(format!("{}/{} has {v} of {}, but its bar shows {n} of {all}", a.name, d.name, d.amount.mag));
                        }
                    }
                }
            }
        }
    }
    None
}

pub fn check_register(j: &Journal, out: &str) -> Option<String> {
    let Some(got) = outp::register(out) else { return Some(format!("cannot read the register output:\n{out}")) };
    let (want, crumbs) = j.register()?;
    if let Some(z) = got.iter().find(|g| g.amounts.is_empty() && !crumbs.contains(&(g.date.clone(), g.desc.clone()))) {
        return Some(format!("a line that changes nothing: {z:?}"));
    }
    let got: Vec<model::RegLine> = got.into_iter().filter(|g| !g.amounts.is_empty()).collect();
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else { return Some(format!("line {} is missing: {w:?}", i + 1)) };
        let same = w.date.replace(" ", "") == g.date
            && w.status == g.status
            && w.desc == g.desc
            && w.from == g.from
            && w.to == g.to
            && w.amounts.len() == g.amounts.len()
            && w.amounts.iter().all(|(k, v)| g.amounts.get(k).is_some_and(|x| model::exact(v.0, x.0) && model::exact(v.1, x.1)));
        if !same {
            return Some(format!("line {}: shown {g:?}\n   expected {w:?}", i + 1));
        }
    }
    (got.len() > want.len()).then(|| format!("extra line {:?}", got[want.len()]))
}

/// The same result, up to the last digits.
fn same_out(sub: char, a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let nz = |m: BTreeMap<String, Pool>| -> BTreeMap<String, Pool> {
        m.into_iter().map(|(k, mut p)| { p.retain(|_, v| v.abs() > model::TOL); (k, p) }).collect()
    };
    match sub {
        'b' => match (outp::balance(a).map(nz), outp::balance(b).map(nz)) {
            (Some(x), Some(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| model::pool_near(p, q))),
            _ => false,
        },
        'e' => match (outp::envelopes(a), outp::envelopes(b)) {
            (Some(x), Some(y)) => {
                x.len() == y.len()
                    && x.iter().all(|(k, p)| {
                        y.get(k).is_some_and(|q| {
                            model::pool_near(&p.available, &q.available)
                                && p.envs.len() == q.envs.len()
                                && p.envs.iter().zip(&q.envs).all(|(e, f)| {
                                    e.name == f.name && e.sym == f.sym && e.due == f.due && near(e.now, f.now) && near(e.next, f.next) && near(e.goal, f.goal)
                                })
                        })
                    })
            }
            _ => false,
        },
        'r' => match (outp::register(a), outp::register(b)) {
            (Some(x), Some(y)) => {
                x.len() == y.len()
                    && x.iter().zip(&y).all(|(p, q)| {
                        (&p.date, p.status, &p.desc, &p.from, &p.to) == (&q.date, q.status, &q.desc, &q.from, &q.to)
                            && p.amounts.len() == q.amounts.len()
                            && p.amounts.iter().all(|(k, v)| q.amounts.get(k).is_some_and(|w| near(v.0, w.0) && near(v.1, w.1)))
                    })
            }
            _ => false,
        },
        _ => false,
    }
}

macro_rules! clear {
    ($ctx:expr) => {
        if let Some(u) = $ctx.unsupported.take() {
            return Verdict::Unclear(u);
        }
    };
}

// ---- generation --------------------------------------------------------------------------

const CSV: &str = "/home/u/money/bank.csv";

fn fault(op: OpSel, file: Option<&str>, pick: u32, act: Act) -> SymFault {
    SymFault { op, file: file.map(|s| s.into()), pick, act }
}
/// Faults that a correct program never notices.
fn benign(r: &mut Rng, main: &str, pct: u64) -> Vec<SymFault> {
    let mut v = vec![];
    while r.pct(pct) && v.len() < 3 {
        let k = r.below(64) as u32;
        v.push(match r.below(6) {
            0 => fault(OpSel::Kind(OP_READ), None, k, Act::Short(r.range(1, 40) as i32)),
            1 => fault(OpSel::Kind(OP_READ), None, k, Act::Err(libc::EINTR)),
            2 => fault(OpSel::Kind(OP_OUT), None, k, Act::Short(r.range(1, 30) as i32)),
            3 => fault(OpSel::Kind(OP_OUT), None, k, Act::Err(libc::EINTR)),
            4 => fault(OpSel::Kind(OP_WRITE), Some(main), k, Act::Short(r.range(1, 60) as i32)),
            _ => fault(OpSel::Kind(OP_WRITE), Some(main), k, Act::Err(libc::EINTR)),
        });
    }
    v
}
fn read_benign(r: &mut Rng, pct: u64) -> Vec<SymFault> {
    let mut v = vec![];
    while r.pct(pct) && v.len() < 3 {
        let k = r.below(64) as u32;
        v.push(match r.below(4) {
            0 => fault(OpSel::Kind(OP_READ), None, k, Act::Short(r.range(1, 40) as i32)),
            1 => fault(OpSel::Kind(OP_READ), None, k, Act::Err(libc::EINTR)),
            2 => fault(OpSel::Kind(OP_OUT), None, k, Act::Short(r.range(1, 30) as i32)),
            _ => fault(OpSel::Kind(OP_OUT), None, k, Act::Err(libc::EINTR)),
        });
    }
    v
}

fn import_args(g: &mut Gen, day: Day, csv: &str, rules: &str) -> RunSpec {
    let mut s = g.run("i", day);
    let c = *g.r.pick(&["--csv", "--csv-file"]);
    s.args.push(c.into());
    s.args.push(csv.into());
    if rules != format!("{csv}.rules") || g.r.pct(20) {
        let c = *g.r.pick(&["--rules", "--rules-file"]);
        s.args.push(c.into());
        s.args.push(rules.into());
    }
    s
}
fn rules_path(r: &mut Rng) -> &'static str {
    if r.pct(70) { "/home/u/money/bank.csv.rules" } else { "/home/u/my.rules" }
}
fn add_import(g: &mut Gen, w: &mut World, rows: (i64, i64), touch: bool) -> (Import, &'static str) {
    let rp = rules_path(g.r);
    // now and then more than fits in any buffer
    let rows = if rows.1 > 3 && g.r.pct(1) { (120, 260) } else { rows };
    let imp = gen::import(g, CSV, rp, rows, touch);
    w.files.push(imp.csv.clone());
    w.files.push(imp.rules.clone());
    for x in &imp.extra {
        w.files.push(x.clone());
    }
    if imp.rules.chunks.iter().chain(imp.extra.iter().flat_map(|x| &x.chunks)).any(|c| c.contains("nothing.rules")) {
        w.files.push(FileSpec::new("/home/u/money/nothing.rules", vec!["// nothing".into()]));
    }
    if g.r.pct(20) {
        // rules nobody asked for
        let p = if rp.starts_with(CSV) {
            "/home/u/money/bank.rules".to_string()
        } else if g.r.pct(50) {
            "/home/u/money/my.rules".to_string()
        } else {
            format!("{CSV}.rules")
        };
        let mut f = imp.rules.clone();
        f.path = p;
        f.chunks.push("comment from the wrong rules".into());
        f.chunks.push("description wrong".into());
        w.files.push(f);
    }
    (imp, rp)
}

fn any_view(r: &mut Rng) -> &'static str {
    ["b", "e", "r"][r.below(3) as usize]
}

pub fn generate(prop: &str, r: &mut Rng) -> Scenario {
    let mut s = match prop {
        "C01" => g01(r),
        "C02" => g02(r),
        "C03" => g03(r),
        "C04" => g04(r),
        "C05" => g05(r),
        "C06" => g06(r),
        "C07" => g07(r),
        "C08" => g08(r),
        "C09" => g_view(r, "e"),
        "C10" => g_view(r, "b"),
        "C11" => g_view(r, "e+"),
        "C12" => g_view(r, "r"),
        "C13" => g13(r),
        "C14" => g14(r),
        "C15" => g15(r),
        "C16" => g16(r),
        "C17" => g17(r),
        "C18" => g18(r),
        "C19" => g19(r),
        "C20" => g20(r),
        "C21" => g21(r),
        "C22" => g22(r),
        p => panic!("unknown property {p}"),
    };
    s.prop = prop.into();
    s
}

fn scen(family: &str, world: World, steps: Vec<Step>) -> Scenario {
    Scenario { prop: String::new(), family: family.into(), world, steps, rows: None, noise: 0 }
}

const WERRS: [i32; 4] = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EROFS];

fn any_fault(r: &mut Rng, main: &str) -> SymFault {
    let k = r.below(200) as u32;
    let e = *r.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EINTR, libc::EMFILE, libc::EPIPE, libc::ENOMEM]);
    match r.below(9) {
        0 => fault(OpSel::Any, None, k, Act::KillBefore),
        1 => fault(OpSel::Recording, None, k, Act::KillBefore),
        2 => fault(OpSel::Kind(OP_WRITE), Some(main), k, if r.pct(50) { Act::KillAfter } else { Act::KillBefore }),
        3 => fault(OpSel::Kind(OP_WRITE), Some(main), k, Act::ShortThenErr(r.range(1, 60) as i32, *r.pick(&WERRS))),
        4 => fault(OpSel::Kind(OP_WRITE), None, k, Act::Err(e)),
        5 => fault(OpSel::Kind(OP_READ), None, k, Act::Err(e)),
        6 => fault(OpSel::Kind(OP_OUT), None, k, if r.pct(50) { Act::Err(e) } else { Act::ErrRun(e, 5) }),
        7 => fault(OpSel::Any, Some(main), k, Act::Err(e)),
        _ => fault(OpSel::Any, None, k, Act::Err(e)),
    }
}

/// Breaks a text file in a small way.
const TOKENS: [&str; 66] = [
    "", "[", "]", "][", "//", ";", "-", "--", ".", "9999999999999999999999999", "1e5", "NaN", "inf", "-0", "€", "日本", "0", "every", "other",
    "starting", "due", "by", "no date", "every year", "@", "=", "!", "!!", "envelope", "include", "account", "expense", "goal", "amount", "for",
    "funding", "every 31st", "every 0th", "every 99th", "every other Monday", "every other 30th", "2020/02/30", "2019/02/29", "0000/01/01",
    "9999/12/31", "2020/02/29", "%Y", ",", "\t", "\u{a0}", "\u{3000}", "if", "é", "\"", "\\", "*", "?", "~", "aggressive", "conservative", "manual",
    "$", "date_format", "currency", "2024/01/31", "-1",
];
const LINES: [&str; 40] = [
    "2020/01/05", "2020/01/05 *", "2020/01/05 * ]x[", "2020/01/05 * [", "    assets:checking", "    // x", "    expense", "    expense x", "    goal y due",
    "    expense z due every", "    expense q due every other 31st starting 2020/01/31", "    goal v due every year starting 2020/02/29", "        amount", "        amount ", "        for",
    "        funding", "        funding x", "        amount 0", "        amount -5", "        amount 5 XYZ", "    envelope", "    envelope assets:checking", "    envelope assets:checking food", "    envelope assets:checking food 5 ZZZ",
    "include", "include nosuch.sfox", "date_format", "date_format %Q", "date_format %Y/%m/%dT%H", "date_format %e/%m/%Y", "currency", "account", "account a b", "   ", "\t", "account assets:checking",
    "    expense food due every 15th", "é", "2021/06/07 ~ x\n    assets:checking", "2021/06/07 ~ x\n    assets:checking  5\n    assets:checking\n    assets:checking",
];
const RLINES: [&str; 26] = [
    "fields", "fields ", "fields date", "fields date,date", "decimal_symbol ", "decimal_symbol", "decimal ,", "decimal €", "skip", "skip -1", "skip 99", "skip x", "if", "if ", "if é x",
    "é x", "x\u{a0}y", "    comment -", "account -", "amount -", "account1 expenses:food", "date_format %Q", "include", "include nosuch", "use -", "date -",
];
fn damage(r: &mut Rng, f: &mut FileSpec, rules: bool) {
    if f.chunks.is_empty() {
        return;
    }
    let c = r.below(f.chunks.len() as u64) as usize;
    let mut lines: Vec<String> = f.chunks[c].split('\n').map(|s| s.to_string()).collect();
    let l = r.below(lines.len() as u64) as usize;
    match r.below(9) {
        0 => {
            lines.remove(l);
        }
        1 => {
            let x = lines[l].clone();
            lines.insert(l, x);
        }
        2 => {
            let n = lines[l].chars().count() as u64;
            lines[l] = lines[l].chars().take(r.below(n + 1) as usize).collect();
        }
        3 | 4 => {
            let mut w: Vec<String> = lines[l].split(' ').map(|s| s.to_string()).collect();
            let i = r.below(w.len() as u64) as usize;
            w[i] = r.pick(&TOKENS).to_string();
            lines[l] = w.join(" ");
        }
        5 => {
            let mut w: Vec<String> = lines[l].split(' ').map(|s| s.to_string()).collect();
            let i = r.below(w.len() as u64 + 1) as usize;
            w.insert(i, r.pick(&TOKENS).to_string());
            lines[l] = w.join(" ");
        }
        6 => lines.insert(l, if rules { r.pick(&RLINES) } else { r.pick(&LINES) }.to_string()),
        7 => {
            let v: Vec<char> = lines[l].chars().collect();
            if v.len() > 1 {
                let i = r.below(v.len() as u64 - 1) as usize;
                let mut v = v;
                v.swap(i, i + 1);
                lines[l] = v.into_iter().collect();
            }
        }
        _ => {
            let i = r.below(lines.len() as u64) as usize;
            lines.swap(l, i);
        }
    }
    f.chunks[c] = lines.join("\n");
}

fn g01(r: &mut Rng) -> Scenario {
    let o = Opts { bystanders: 80, ..Opts::default() };
    let mut g = Gen::new(r, o);
    let mut w = g.world();
    let mut steps = vec![];
    let has_import = g.r.pct(50);
    let mut rp = "";
    if has_import {
        let x = add_import(&mut g, &mut w, (1, 4), true);
        rp = x.1;
    }
    let mut day = g.telling_day();
    for _ in 0..g.r.range(1, 4) {
        let mut s = match g.r.below(12) {
            0..=4 if has_import => import_args(&mut g, day, CSV, rp),
            9 => g.run("s", day),
            10 => g.run("new", day),
            11 => g.run("zebra", day),
            _ => {
                let v = any_view(g.r);
                g.run(v, day)
            }
        };
        if g.r.pct(30) {
            s = g.no_move(s);
        }
        if g.r.pct(10) {
            s.tty = 0;
        }
        for _ in 0..*g.r.pick(&[0, 1, 1, 2]) {
            let f = any_fault(g.r, &w.main);
            s.faults.push(f);
        }
        steps.push(Step::Run(s));
        if g.r.pct(25) {
            let d = day - g.r.range(-3, 20);
            if let Some(e) = g.entry(d) {
                steps.push(Step::Edit { path: w.main.clone(), text: format!("\n{e}\n") });
            }
        }
        day += g.r.range(-1, 4);
    }
    match g.r.below(10) {
        0 => {
            let i = g.r.below(w.files.len() as u64) as usize;
            let f = &mut w.files[i];
            for _ in 0..g.r.range(1, 3) {
                damage(g.r, f, f.path.contains("rules"));
            }
        }
        1 => {
            let i = g.r.below(w.files.len() as u64) as usize;
            w.files[i].cut = Some(g.r.below(100_000) as u32);
        }
        2 => {
            let i = g.r.below(w.files.len() as u64) as usize;
            w.files[i].mode = Some(*g.r.pick(&[0, 4]));
        }
        3 => w.free = Some(g.r.range(0, 300)),
        _ => {}
    }
    scen("history", w, steps)
}

fn kill(r: &mut Rng, main: &str) -> SymFault {
    let k = r.below(5000) as u32;
    let act = |r: &mut Rng| if r.pct(50) { Act::KillBefore } else { Act::KillAfter };
    match r.below(6) {
        0 => fault(OpSel::Any, None, k, Act::KillBefore),
        1 => fault(OpSel::Kind(OP_WRITE), Some(main), k, act(r)),
        2 | 3 => fault(OpSel::Recording, None, k, act(r)),
        4 => fault(OpSel::Any, Some(main), k, act(r)),
        _ => fault(OpSel::Kind(OP_OUT), None, k, act(r)),
    }
}

fn g02(r: &mut Rng) -> Scenario {
    let mut g = Gen::new(r, Opts::default());
    let mut w = g.world();
    let day = g.telling_day();
    let run = if g.r.pct(50) {
        let (_, rp) = add_import(&mut g, &mut w, (1, 6), true);
        import_args(&mut g, day, CSV, rp)
    } else {
        let v = any_view(g.r);
        g.run(v, day)
    };
    let mut steps = vec![];
    for _ in 0..*g.r.pick(&[1, 1, 1, 2]) {
        let mut s = run.clone();
        s.faults.push(kill(g.r, &w.main));
        steps.push(Step::Run(s));
    }
    steps.push(Step::Run(run));
    scen("kill", w, steps)
}

fn g03(r: &mut Rng) -> Scenario {
    let mut g = Gen::new(r, Opts { includes: 15, ..Opts::default() });
    let mut w = g.world();
    let day = g.telling_day();
    let mut run = if g.r.pct(50) {
        let (_, rp) = add_import(&mut g, &mut w, (1, 6), true);
        import_args(&mut g, day, CSV, rp)
    } else {
        let v = any_view(g.r);
        g.run(v, day)
    };
    let m = w.main.clone();
    let k = g.r.below(60) as u32;
    let e = *g.r.pick(&WERRS);
    let n = g.r.range(1, 120) as i32;
    match g.r.below(9) {
        0 => run.faults.push(fault(OpSel::Kind(OP_OPEN_W), Some(&m), k, Act::Err(*g.r.pick(&[libc::EACCES, libc::EROFS, libc::EMFILE, libc::ENOSPC, libc::EIO])))),
        1 => run.faults.push(fault(OpSel::Kind(OP_WRITE), Some(&m), k, Act::Err(e))),
        2 | 3 => run.faults.push(fault(OpSel::Kind(OP_WRITE), Some(&m), k, Act::ShortThenErr(n, e))),
        4 => run.faults.push(fault(OpSel::Kind(OP_WRITE), Some(&m), k, Act::Short(if g.r.pct(15) { -1 } else { n }))),
        5 => run.faults.push(fault(OpSel::Kind(OP_WRITE), Some(&m), k, Act::Err(libc::EINTR))),
        6 => {
            // short, interrupted, then on
            run.faults.push(fault(OpSel::Kind(OP_WRITE), Some(&m), k, Act::ShortThenErr(n, libc::EINTR)));
        }
        7 => {
            let top = if g.r.pct(50) { 120 } else { 900 };
            w.free = Some(g.r.range(0, top));
        }
        _ => {
            run.faults.push(fault(OpSel::Kind(OP_LOCK), Some(&m), k, Act::Err(*g.r.pick(&[libc::ENOLCK, libc::EINTR, libc::EIO]))));
            if g.r.pct(50) {
                run.faults.push(fault(OpSel::Kind(OP_WRITE), Some(&m), k, Act::Err(e)));
            }
        }
    }
    if g.r.pct(8) {
        if let Some(f) = w.files.iter_mut().find(|f| f.path == m) {
            f.mode = Some(4);
            run.faults.clear();
        }
    }
    scen("write", w, vec![Step::Run(run)])
}

fn g04(r: &mut Rng) -> Scenario {
    let mut g = Gen::new(r, Opts { formats: 50, ..Opts::default() });
    if g.r.pct(25) {
        g.m.fmt = g.r.pick(&["%e/%m/%Y", "%m/%e/%Y", "%Y/%b/%e", "%d.%m.%y", "%Y%m%d"]).to_string();
    }
    let mut w = g.world();
    let day = g.telling_day();
    if g.r.pct(55) {
        let (mut imp, rp) = add_import(&mut g, &mut w, (1, 5), true);
        // hostile cells: text that means something in a journal
        if !imp.cells.is_empty() && g.r.pct(75) {
            for _ in 0..g.r.range(1, 3) {
                let i = g.r.below(imp.cells.len() as u64) as usize;
                let names: Vec<usize> = (0..imp.fields.len()).filter(|&k| !matches!(imp.fields[k].as_str(), "date" | "day" | "month" | "year" | "amount" | "currency" | "price" | "status" | "account")).collect();
                let k = *g.r.pick(&names);
                imp.cells[i][k] = g
                    .r
                    .pick(&[
                        "a [b", "a ] b", "x [y] z", "]x[", "http://example.com", "one; two", "line one\nline two", "l1\r\nl2", "  lead", "trail  ", "", " ", "\t", "[", "// c", "%amount%", "100%",
                        "2020/01/01 * x\n    assets:checking 5", "tab\tbed", "@ 5", "! 3", "= 2", "* star", "account x", "quo\"te", "ünï", "a\u{a0}b", "a\u{2028}b", "[]", "%%",
                    ])
                    .to_string();
            }
            let text: Vec<String> = imp.cells.iter().map(|c| c.iter().map(|x| gen::csv_cell(g.r, x)).collect::<Vec<_>>().join(",")).collect();
            let f = w.files.iter_mut().find(|f| f.path == CSV).unwrap();
            f.chunks.truncate(imp.first);
            f.chunks.extend(text);
            f.crlf = false;
        }
        let mut s = import_args(&mut g, day, CSV, rp);
        if g.r.pct(20) {
            s = g.no_move(s);
        }
        return scen("import", w, vec![Step::Run(s)]);
    }
    let v = any_view(g.r);
    let mut s = g.run(v, day);
    s.faults = benign(g.r, &w.main, 30);
    scen("fill", w, vec![Step::Run(s)])
}

fn g05(r: &mut Rng) -> Scenario {
    let mut g = Gen::new(r, Opts { includes: 15, plain_rules: true, ..Opts::default() });
    let mut w = g.world();
    let day = g.telling_day();
    let (imp, rp) = add_import(&mut g, &mut w, (1, 6), true);
    let mut run = import_args(&mut g, day, CSV, rp);
    if g.r.pct(25) {
        run = g.no_move(run);
    }
    let mut must = true;
    let col = |n: &str| imp.fields.iter().position(|f| f == n);
    let set_row = |g: &mut Gen, w: &mut World, cells: Vec<String>| {
        let row = cells.iter().map(|c| gen::csv_cell(g.r, c)).collect::<Vec<_>>().join(",");
        let f = w.files.iter_mut().find(|f| f.path == CSV).unwrap();
        let at = imp.first + g.r.below((f.chunks.len() - imp.first) as u64 + 1) as usize;
        f.chunks.insert(at, row);
        f.crlf = false;
    };
    if imp.cells.is_empty() {
        return scen("may", w, vec![Step::Run(run)]);
    }
    let mut cells = g.r.pick(&imp.cells).clone();
    cells[col("description").unwrap()] = "BADROW".into();
    match g.r.below(12) {
        0 => {
            match col("date") {
                Some(c) => cells[c] = g.r.pick(&["", "yesterday", "2020/13/45", "31.02.2020", "2021-02-30", "20"]).to_string(),
                None => cells[col("day").unwrap()] = g.r.pick(&["yesterday", "45", "2020/01/02"]).to_string(),
            }
            set_row(&mut g, &mut w, cells);
        }
        1 => {
            cells[col("amount").unwrap()] = g.r.pick(&["abc", "-", "1-2", "5 6 7", "€"]).to_string();
            set_row(&mut g, &mut w, cells);
        }
        2 => {
            if g.r.pct(50) {
                cells.pop();
            } else {
                cells.push("extra".into());
            }
            // a lone row decides how many cells rows have
            must = imp.rows.len() + imp.first >= 1;
            set_row(&mut g, &mut w, cells);
        }
        3 => {
            // an account nobody declared, in a conditional block of the rules
            let k = w.files.iter().find(|f| f.path == rp).unwrap().chunks.iter().any(|c| c.contains("account1"));
            let f = w.files.iter_mut().find(|f| f.path == rp).unwrap();
            let name = if imp.two { "account2" } else if k { "account1" } else { "account" };
            // before other blocks, so that it is the one that applies
            let at = f.chunks.iter().position(|c| c.starts_with("if")).unwrap_or(f.chunks.len());
            f.chunks.insert(at, format!("if BADROW\n    {name} nosuch:account"));
            set_row(&mut g, &mut w, cells);
        }
        4 => {
            if let Some(c) = col("status") {
                cells[c] = "x".into();
                set_row(&mut g, &mut w, cells);
            } else {
                let f = w.files.iter_mut().find(|f| f.path == rp).unwrap();
                let at = f.chunks.iter().position(|c| c.starts_with("if")).unwrap_or(f.chunks.len());
                f.chunks.insert(at, "status no // BADROW".into());
                // unless every row meets a block that sets it again
                must = !f.chunks.iter().any(|c| c.starts_with("if") && ["status", "include", "use"].iter().any(|x| c.contains(x)));
            }
        }
        5 => {
            let f = w.files.iter_mut().find(|f| f.path == rp).unwrap();
            let l = *g.r.pick(&["nonsense 1 // BADROW", "skip many // BADROW", "include /home/u/nosuch.rules // BADROW", "comment// BADROW", "decimal_symbol ab // BADROW"]);
            f.chunks.insert(0, l.into());
        }
        6 => {
            // the file the rules come from is not there
            w.files.retain(|f| f.path != rp);
            return scen("norules", w, vec![Step::Run(run)]);
        }
        7 => {
            let f = w.files.iter_mut().find(|f| f.path == CSV).unwrap();
            f.garble.push((g.r.below(1 << 20) as u32, *g.r.pick(&[0xff, 0xc3, 0x80])));
            return scen("may", w, vec![Step::Run(run)]);
        }
        8 => {
            cells[col("description").unwrap()] = g.r.pick(&["a [b", "[", "x ]y[ z", "// nothing", "a\n2020/01/01 ~ b", " "]).to_string();
            set_row(&mut g, &mut w, cells);
            must = false;
        }
        9 => {
            // an unknown account that the journal lacks
            let f = w.files.iter_mut().find(|f| f.path == rp).unwrap();
            f.chunks.retain(|c| !c.starts_with("account2") && !c.starts_with("amount2"));
            must = false;
        }
        10 => {
            let m = w.main.clone();
            let k = g.r.below(40) as u32;
            run.faults.push(match g.r.below(3) {
                0 => fault(OpSel::Kind(OP_WRITE), Some(&m), k, Act::ShortThenErr(g.r.range(1, 200) as i32, libc::ENOSPC)),
                1 => fault(OpSel::Kind(OP_WRITE), Some(&m), k, Act::Err(libc::EIO)),
                _ => fault(OpSel::Kind(OP_READ), Some(*g.r.pick(&[CSV, rp])), k, Act::Err(libc::EIO)),
            });
            must = false;
        }
        _ => {
            // a field named twice
            let f = w.files.iter_mut().find(|f| f.path == rp).unwrap();
            if let Some(c) = f.chunks.iter_mut().find(|c| c.starts_with("fields")) {
                *c = format!("fields date,date,{}", c["fields".len()..].trim_start());
                c.push_str(" // BADROW");
            } else {
                must = false;
            }
        }
    }
    scen(if must { "must" } else { "may" }, w, vec![Step::Run(run)])
}

fn g06(r: &mut Rng) -> Scenario {
    let o = Opts { funded: 95, rich: 85, manual: 25, future: 25, entries: (0, 6), ..Opts::default() };
    let mut g = Gen::new(r, o);
    let mut w = g.world();
    let mut steps = vec![];
    let start = g.telling_day();
    let mut day = start;
    let imp = g.r.pct(30);
    let mut rp = "";
    if imp {
        rp = add_import(&mut g, &mut w, (1, 4), true).1;
    }
    let mut left = imp;
    for _ in 0..g.r.range(2, 9) {
        if g.r.pct(35) {
            let d = match g.r.below(4) {
                0 => day,
                1 => day - g.r.range(1, 30),
                2 => day + g.r.range(1, 10),
                _ => day - 1,
            };
            // preferably something that touches an envelope
            if let Some(e) = g.entry(d) {
                steps.push(Step::Edit { path: w.main.clone(), text: format!("\n{e}\n") });
            }
        }
        let mut s = if left && g.r.pct(35) {
            left = false;
            import_args(&mut g, day, CSV, rp)
        } else {
            let v = any_view(g.r);
            g.run(v, day)
        };
        if g.r.pct(25) {
            s.faults.push(if g.r.pct(60) { kill(g.r, &w.main) } else { any_fault(g.r, &w.main) });
        }
        steps.push(Step::Run(s));
        day += *g.r.pick(&[0, 0, 0, 0, 1, 1, -1, -1, 2, 7, -3]);
    }
    scen("history", w, steps)
}

fn g07(r: &mut Rng) -> Scenario {
    let o = Opts { envs: (1, 6), funded: 92, rich: 40, entries: (0, 9), future: 20, ..Opts::default() };
    let mut g = Gen::new(r, o);
    let mut w = g.world();
    let mut day = g.telling_day();
    if g.r.pct(2) {
        // an expense and a goal of the same name
        for f in w.files.iter_mut() {
            for c in f.chunks.iter_mut().filter(|c| c.starts_with("account asset")) {
                let n = format!("\n    expense twin due every {}\n        amount 90\n        funding aggressive", gen::ordinal(cal::civil(day + 3).2));
                c.push_str(&n);
                c.push_str(&n.replace("expense", "goal"));
            }
        }
        let v = any_view(g.r);
        let s = g.run(v, day);
        return scen("twins", w, vec![Step::Run(s)]);
    }
    let mut steps = vec![];
    for _ in 0..g.r.range(1, 4) {
        let v = any_view(g.r);
        let mut s = g.run(v, day);
        s.faults = benign(g.r, &w.main, 10);
        steps.push(Step::Run(s));
        if g.r.pct(30) {
            let d = day + *g.r.pick(&[0, 0, 1, -1, 5]);
            if let Some(e) = g.entry(d) {
                steps.push(Step::Edit { path: w.main.clone(), text: format!("\n{e}\n") });
            }
        }
        day += *g.r.pick(&[0, 1, 1, 3, 14, 30]);
    }
    scen("fill", w, steps)
}

fn g08(r: &mut Rng) -> Scenario {
    if r.pct(55) {
        let mut s = g07(r);
        s.family = "fill".into();
        return s;
    }
    let o = Opts { envs: (1, 3), funded: 95, rich: 100, entries: (0, 3), future: 5, currencies: 15, ..Opts::default() };
    let mut g = Gen::new(r, o);
    let w = g.world();
    let mut steps = vec![];
    let d0 = g.telling_day();
    let n = g.r.range(3, 24);
    for i in 0..n {
        if i + 4 < n && g.r.pct(12) {
            continue; // a missed day
        }
        let v = any_view(g.r);
        let mut s = g.run(v, d0 + i);
        if g.r.pct(12) {
            let f = if g.r.pct(60) { kill(g.r, &w.main) } else { fault(OpSel::Kind(OP_WRITE), Some(&w.main), 0, Act::Err(libc::ENOSPC)) };
            s.faults.push(f);
            steps.push(Step::Run(s.clone()));
            s.faults.clear();
        }
        steps.push(Step::Run(s));
    }
    scen("daily", w, steps)
}

fn g_view(r: &mut Rng, kind: &str) -> Scenario {
    let o = match kind {
        "e" => Opts { envs: (2, 6), entries: (1, 10), back: 120, manual: 50, ..Opts::default() },
        "e+" => Opts { envs: (1, 5), entries: (2, 12), manual: 35, currencies: 45, blanks: 35, ..Opts::default() },
        "b" => Opts { envs: (0, 3), entries: (2, 14), currencies: 60, blanks: 45, unordered: 50, ..Opts::default() },
        _ => Opts { envs: (0, 3), entries: (2, 14), currencies: 60, blanks: 35, unordered: 60, ..Opts::default() },
    };
    let mut g = Gen::new(r, o);
    let w = g.world();
    let sub = &kind[..1];
    let mut steps = vec![];
    let n = if kind == "e" { 3 } else { 2 };
    let mut day = g.telling_day();
    for _ in 0..g.r.range(1, n) {
        let mut s = g.run(sub, day);
        if g.r.pct(55) {
            s = g.no_move(s);
        }
        s.faults = read_benign(g.r, 15);
        steps.push(Step::Run(s));
        if g.r.pct(30) {
            let d = g.entry_date();
            if let Some(e) = g.entry(d) {
                steps.push(Step::Edit { path: w.main.clone(), text: format!("\n{e}\n") });
            }
        }
        day = if kind == "e" { g.telling_day() } else { day + g.r.range(-2, 9) };
    }
    scen("view", w, steps)
}

fn g13(r: &mut Rng) -> Scenario {
    let o = Opts { envs: (2, 6), funded: 95, rich: 70, currencies: 55, ..Opts::default() };
    let mut g = Gen::new(r, o);
    let mut w = g.world();
    let day = g.telling_day();
    let mut s = if g.r.pct(45) {
        let (_, rp) = add_import(&mut g, &mut w, (1, 5), true);
        if g.r.pct(15) {
            // values that look like templates, and broken rules: messages count too
            let f = w.files.iter_mut().find(|f| f.path == CSV).unwrap();
            damage(g.r, f, false);
        }
        import_args(&mut g, day, CSV, rp)
    } else {
        let v = any_view(g.r);
        g.run(v, day)
    };
    if g.r.pct(15) {
        s = g.no_move(s);
    }
    if g.r.pct(10) {
        let i = g.r.below(w.files.len() as u64) as usize;
        damage(g.r, &mut w.files[i], false);
    }
    scen("twin", w, vec![Step::Run(s)])
}

fn g14(r: &mut Rng) -> Scenario {
    let mut g = Gen::new(r, Opts { includes: 70, ..Opts::default() });
    let mut w = g.world();
    let day = g.telling_day();
    let inputs: Vec<String> = {
        // files the journal reads
        let mut v: Vec<String> = w.files.iter().map(|f| f.path.clone()).filter(|p| p.ends_with(".sfox") && p != "/home/u/main.sfox").collect();
        v.sort();
        v
    };
    let with_import = g.r.pct(40);
    let mut run = if with_import {
        let (_, rp) = add_import(&mut g, &mut w, (1, 4), true);
        import_args(&mut g, day, CSV, rp)
    } else {
        let v = any_view(g.r);
        g.run(v, day)
    };
    if g.r.pct(25) {
        run = g.no_move(run);
    }
    let mut targets = inputs.clone();
    if with_import {
        for f in &w.files {
            if f.path == CSV || f.path.ends_with("rules") {
                targets.push(f.path.clone());
                targets.push(f.path.clone());
            }
        }
    }
    let t = g.r.pick(&targets).clone();
    let k = g.r.below(40) as u32;
    match g.r.below(10) {
        0..=3 => {
            let e = *g.r.pick(&[libc::EIO, libc::EIO, libc::ESTALE, libc::ENOMEM]);
            run.faults.push(fault(OpSel::Kind(OP_READ), Some(&t), k, if g.r.pct(40) { Act::ShortThenErr(g.r.range(1, 200) as i32, e) } else { Act::Err(e) }));
        }
        4 => run.faults.push(fault(
            OpSel::Kind(OP_OPEN_R),
            Some(&t),
            k,
            Act::Err(*g.r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT, libc::ENFILE])),
        )),
        5 => {
            for _ in 0..g.r.range(1, 4) {
                let k = g.r.below(40) as u32;
                run.faults.push(fault(
                    OpSel::Kind(OP_READ),
                    None,
                    k,
                    if g.r.pct(50) { Act::Short(g.r.range(1, 40) as i32) } else { Act::Err(libc::EINTR) },
                ));
            }
        }
        6 => w.files.retain(|f| f.path != t),
        7 => w.files.iter_mut().find(|f| f.path == t).unwrap().mode = Some(0),
        8 => {
            let f = w.files.iter_mut().find(|f| f.path == t).unwrap();
            f.garble.push((g.r.below(1 << 20) as u32, *g.r.pick(&[0xff, 0xfe, 0xc0, 0x80, 0xe2, 0xf0])));
        }
        _ => {
            w.files.retain(|f| f.path != t);
            w.dirs.push(t);
        }
    }
    if !run.faults.is_empty() {
        for f in read_benign(g.r, 15) {
            run.faults.push(f);
        }
    }
    scen("read", w, vec![Step::Run(run)])
}

fn g15(r: &mut Rng) -> Scenario {
    let o = Opts { entries: (0, 6), noise: 50, ..Opts::default() };
    let mut g = Gen::new(r, o);
    let mut w = g.world();
    let day = match g.r.below(8) {
        0 => gen::pick_base(g.r, (1970, 2255)),
        1 => {
            let y = cal::civil(g.m.base).0;
            cal::day(y + g.r.range(-3, 9), 2, 28) + g.r.range(0, 2)
        }
        _ => g.telling_day(),
    };
    let with_import = g.r.pct(35);
    let mut run = if with_import {
        let (_, rp) = add_import(&mut g, &mut w, (0, 4), true);
        if g.r.pct(12) {
            // many conditional blocks
            let n = g.r.range(8, 40);
            let f = w.files.iter_mut().find(|f| f.path == rp).unwrap();
            for i in 0..n {
                f.chunks.push(format!("if shop {i}\n    comment c{i}"));
            }
        }
        import_args(&mut g, day, CSV, rp)
    } else {
        let v = any_view(g.r);
        g.run(v, day)
    };
    if g.r.pct(30) {
        run = g.no_move(run);
    }
    if g.r.pct(25) {
        run.tty = *g.r.pick(&[0, 0, 1, 20, 65535]);
    }
    if g.r.pct(6) {
        // strange command lines
        match g.r.below(5) {
            0 => run.args.truncate(2),
            1 => run.args = vec![],
            2 => run.args = vec!["".into()],
            3 => run.args.push("--csv".into()),
            _ => run.args.push("--what".into()),
        }
    }
    let n = if g.r.pct(25) { 0 } else { g.r.range(1, 4) };
    for _ in 0..n {
        let i = g.r.below(w.files.len() as u64) as usize;
        let p = w.files[i].path.clone();
        match g.r.below(12) {
            0 => w.files[i].cut = Some(g.r.below(1 << 20) as u32),
            1 => {
                let v = g.r.below(128) as u8;
                w.files[i].garble.push((g.r.below(1 << 20) as u32, v));
            }
            2 => {
                let v = *g.r.pick(&[b'\n', b' ', b'[', b']', b'/', b';', b'-', b'.', b'\t', b'0', b'"', b',', 0u8]);
                w.files[i].garble.push((g.r.below(1 << 20) as u32, v));
            }
            3 => {
                // a file including itself or its parent
                if w.files.iter().any(|f| f.chunks.len() > 60) {
                    // a hundred times that is no endless loop, but long
                } else if p.ends_with("rules") {
                    w.files[i].chunks.push(format!("include {p}"));
                } else if p.ends_with("sfox") {
                    w.files[i].chunks.push(format!("include {}", *g.r.pick(&["main.sfox", "/home/u/money/main.sfox", "./main.sfox"])));
                }
            }
            4 if g.r.pct(50) => {
                // odd date formats, some of which cannot be written, or not be read
                let f = g.r.pick(&["%Q", "%", "%+", "%H:%M", "%s", "%Z", "%%", "%-", "%-d/%-m/%Y", "%A", "%c", "%j/%Y", "%Y-%j", "%G-W%V-%u", "%D", "%x", "%:z", "%.3f", "%9f", "%Y", "%m/%d", "%é", "Y/m/d", "%h-%d-%Y", "%C%y/%m/%d", "%v"]);
                let at = if g.r.pct(60) { w.files[i].chunks.len() } else { 0 };
                w.files[i].chunks.insert(at, format!("date_format {f}"));
            }
            _ => damage(g.r, &mut w.files[i], p.ends_with("rules")),
        }
    }
    scen("any text", w, vec![Step::Run(run)])
}

fn g16(r: &mut Rng) -> Scenario {
    let mut g = Gen::new(r, Opts { includes: 70, bystanders: 100, ..Opts::default() });
    let mut w = g.world();
    let day = g.telling_day();
    let has_inc = w.files.iter().any(|f| f.chunks.iter().any(|c| c.starts_with("include")));
    let with_import = g.r.pct(40);
    let mut base = if with_import {
        let (_, rp) = add_import(&mut g, &mut w, (1, 3), true);
        import_args(&mut g, day, CSV, rp)
    } else {
        let v = any_view(g.r);
        g.run(v, day)
    };
    if g.r.pct(20) {
        base = g.no_move(base);
    }
    base.cwd = "/".into();
    base.env.clear();
    w.dirs.push("/srv/books".into());
    w.dirs.push("/home/u/money/sub".into());
    w.links.push(("/srv/money".into(), "/home/u/money".into()));
    w.links.push(("/home/u/link".into(), "money".into()));
    w.links.push(("/home/u/money/alias.sfox".into(), "main.sfox".into()));
    let mut paths: Vec<(&str, &str)> = vec![
        ("/home/u/money", "main.sfox"),
        ("/home/u/money", "./main.sfox"),
        ("/home/u", "money/main.sfox"),
        ("/home/u", "./money/../money/main.sfox"),
        ("/srv/books", "../money/main.sfox"),
        ("/srv/books", "../../home/u/money/main.sfox"),
        ("/", "home/u/money/main.sfox"),
        ("/tmp", "/home/u/money/./main.sfox"),
        ("/tmp", "/srv/money/main.sfox"),
        ("/home/u", "link/main.sfox"),
        ("/home/u/money", "alias.sfox"),
        ("/home/u", "money/alias.sfox"),
        ("/home/u/money/sub", "../main.sfox"),
        ("/home/u", "//home//u/money//main.sfox"),
        ("/srv/books", "/home/u/money/main.sfox"),
    ];
    if !has_inc {
        w.links.push(("/srv/books/j.sfox".into(), "../../home/u/money/main.sfox".into()));
        paths.push(("/srv/books", "j.sfox"));
        paths.push(("/", "/srv/books/j.sfox"));
    }
    // other files of the same names, where a wrong base directory would find them
    let decoy = "account assets:decoy\n2020/01/01 * decoy\n    assets:decoy  5\n    assets:decoy  -5";
    let names: Vec<String> = w.files.iter().map(|f| f.path.clone()).collect();
    for p in names {
        if let Some(rel) = p.strip_prefix("/home/u/money/") {
            for d in ["/srv/books/", "/tmp/", "/home/u/"] {
                let q = format!("{d}{rel}");
                if g.r.pct(35) && w.files.len() < 14 && !w.files.iter().any(|f| f.path == q) {
                    w.files.push(FileSpec::new(&q, vec![decoy.into()]));
                }
            }
        }
    }
    let (cwd, path) = *g.r.pick(&paths);
    let mut alt = base.clone();
    alt.cwd = cwd.into();
    let i = alt.args.iter().position(|a| a == "-f" || a == "--file").unwrap();
    let j = "/srv/books/none.sfox".to_string();
    match g.r.below(5) {
        0 => {
            alt.args.drain(i..i + 2);
            alt.env.push(("SILVERFOX_FILE".into(), path.into()));
            if g.r.pct(60) {
                alt.env.push(("LEDGER_FILE".into(), "/home/u/main.sfox".into()));
            }
        }
        1 => {
            alt.args.drain(i..i + 2);
            alt.env.push(("LEDGER_FILE".into(), path.into()));
        }
        2 => {
            alt.args[i + 1] = path.into();
            alt.env.push(("SILVERFOX_FILE".into(), if g.r.pct(50) { j } else { "/home/u/main.sfox".into() }));
            alt.env.push(("LEDGER_FILE".into(), "/home/u/main.sfox".into()));
        }
        _ => alt.args[i + 1] = path.into(),
    }
    if with_import {
        // the CSV and rules files by a path relative to the working directory
        for k in 0..alt.args.len() {
            let a = alt.args[k].clone();
            if a == CSV || (a.ends_with("rules") && a.starts_with('/')) {
                let rel = match cwd {
                    "/home/u/money" => a.strip_prefix("/home/u/money/").map(|x| x.to_string()).unwrap_or_else(|| a.replacen("/home/u/", "../", 1)),
                    "/home/u" => a.replacen("/home/u/", "", 1),
                    "/" => a[1..].to_string(),
                    "/srv/books" => format!("../..{a}"),
                    "/home/u/money/sub" => a.replacen("/home/u/", "../../", 1),
                    _ => format!("..{a}"),
                };
                if g.r.pct(75) {
                    alt.args[k] = rel;
                }
            }
        }
    }
    scen("paths", w, vec![Step::Run(base), Step::Run(alt)])
}

fn g17(r: &mut Rng) -> Scenario {
    let o = Opts { envs: (1, 4), funded: 95, rich: 85, entries: (0, 4), includes: 10, ..Opts::default() };
    let mut g = Gen::new(r, o);
    let mut w = g.world();
    let day = g.telling_day();
    let mut runs: Vec<RunSpec> = vec![];
    let n = g.r.range(1, 3);
    let imports = g.r.pct(45);
    let mut appends = vec![];
    for _ in 0..g.r.below(3) {
        let d = day - g.r.range(0, 5);
        if let Some(e) = g.entry(d) {
            appends.push((w.main.clone(), format!("\n{e}\n")));
        }
    }
    let n = if n == 1 && appends.is_empty() { 2 } else { n };
    let mut rp = "";
    let mut rows = None;
    if imports {
        let (i, p) = add_import(&mut g, &mut w, (1, 4), true);
        rp = p;
        rows = Some((CSV.to_string(), i.first, i.rows));
    }
    for i in 0..n {
        let mut s = if imports && i == 0 {
            import_args(&mut g, day, CSV, rp)
        } else {
            let v = any_view(g.r);
            g.run(v, day)
        };
        if (i > 0 || imports) && g.r.pct(35) {
            s = g.no_move(s);
        }
        if g.r.pct(8) {
            s.faults.push(kill(g.r, &w.main));
        }
        runs.push(s);
    }
    if runs.iter().all(|s| s.faults.is_empty()) && appends.is_empty() && g.r.pct(30) {
        // a write that fails and has to be undone, while others write
        let i = g.r.below(runs.len() as u64) as usize;
        let e = *g.r.pick(&WERRS);
        let act = if g.r.pct(60) { Act::ShortThenErr(g.r.range(1, 120) as i32, e) } else { Act::Err(e) };
        runs[i].faults.push(fault(OpSel::Kind(OP_WRITE), Some(&w.main), g.r.below(60) as u32, act));
    }
    // bursts of differing length, so that both fine and coarse interleavings occur
    let mut sched = vec![];
    let style = g.r.below(3);
    while sched.len() < 240 {
        let p = g.r.below(12) as u16;
        let len = match style {
            0 => 1,
            1 => g.r.range(1, 6),
            _ => g.r.range(1, 30),
        };
        for _ in 0..len {
            sched.push(p);
        }
    }
    let mut s = scen("overlap", w, vec![Step::Conc { runs, appends, sched }]);
    s.rows = rows;
    s
}

fn g18(r: &mut Rng) -> Scenario {
    let o = Opts { rich: 80, funded: 90, ..Opts::default() };
    let mut g = Gen::new(r, o);
    let mut w = g.world();
    let day = g.telling_day();
    let mut s = if g.r.pct(15) {
        let (_, rp) = add_import(&mut g, &mut w, (1, 3), true);
        import_args(&mut g, day, CSV, rp)
    } else {
        let v = any_view(g.r);
        g.run(v, day)
    };
    let k = g.r.below(60) as u32;
    let e = *g.r.pick(&[libc::EPIPE, libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EBADF]);
    match g.r.below(7) {
        0 => s.tty = 0,
        1 => s.faults.push(fault(OpSel::Kind(OP_OUT), None, k, Act::Err(e))),
        2 => s.faults.push(fault(OpSel::Kind(OP_OUT), None, k, Act::ErrRun(e, 12))),
        3 => s.faults.push(fault(OpSel::Kind(OP_OUT), None, k, Act::ShortThenErr(g.r.range(1, 20) as i32, e))),
        4 => {
            s.faults.push(fault(OpSel::Kind(OP_OUT), None, k, Act::Err(e)));
            s.faults.push(fault(OpSel::Kind(OP_OUT), None, 0, Act::ErrRun(e, 12)));
        }
        5 => {
            s.tty = *g.r.pick(&[1, 3, 20, 65535]);
            s.faults.push(fault(OpSel::Kind(OP_IOCTL), None, k, Act::Err(libc::ENOTTY)));
        }
        _ => s.faults.push(fault(OpSel::Kind(OP_OUT), None, k, Act::KillBefore)),
    }
    scen("output", w, vec![Step::Run(s)])
}

fn g19(r: &mut Rng) -> Scenario {
    let mut g = Gen::new(r, Opts { envs: (0, 2), entries: (0, 3), includes: 15, ..Opts::default() });
    let mut w = g.world();
    let day = g.telling_day();
    let (i, rp) = add_import(&mut g, &mut w, (0, 8), true);
    if let (true, Some(e)) = (g.r.pct(12), i.rows.first()) {
        // much the same is in the journal already
        let mut t = gen::exp_text(e, &g.m.fmt);
        if let Some(p) = &e.payee {
            t = t.replacen('\n', &format!(" [{}]\n", p.split_whitespace().collect::<Vec<_>>().join(" ")), 1);
        }
        if g.m.j.add_text(&Disk::default(), "", &t, 0).is_ok() {
            let f = w.files.iter_mut().find(|f| f.path == w.main).unwrap();
            f.chunks.push(t);
        }
    }
    let mut s = import_args(&mut g, day, CSV, rp);
    if g.r.pct(40) {
        s = g.no_move(s);
    }
    s.faults = benign(g.r, &w.main, 20);
    let mut sc = scen("import", w, vec![Step::Run(s)]);
    sc.rows = Some((CSV.into(), i.first, i.rows));
    sc
}

fn g20(r: &mut Rng) -> Scenario {
    let mut g = Gen::new(r, Opts { noise: 20, funded: 90, ..Opts::default() });
    let mut w = g.world();
    let day = g.telling_day();
    let mut s = if g.r.pct(45) {
        let (_, rp) = add_import(&mut g, &mut w, (1, 5), true);
        import_args(&mut g, day, CSV, rp)
    } else {
        let v = any_view(g.r);
        g.run(v, day)
    };
    if g.r.pct(25) {
        s = g.no_move(s);
    }
    s.faults = read_benign(g.r, 20);
    let noise = g.r.next();
    let mut sc = scen("layout", w, vec![Step::Run(s)]);
    sc.noise = noise;
    sc
}

/// The same text in another layout.
fn relaid(w: &World, seed: u64) -> World {
    let mut w = w.clone();
    let mut r = Rng::new(seed);
    for f in w.files.iter_mut() {
        let rules = f.path.ends_with("rules");
        if !rules && !f.path.ends_with("sfox") {
            continue;
        }
        let heavy = *r.pick(&[0u64, 5, 15, 40]);
        let mut out: Vec<String> = vec![];
        let mut in_if = false;
        for l in f.chunks.join("\n").split('\n') {
            let stripped = model::strip_comment(l);
            if r.pct(heavy / 3) {
                out.push(r.pick(&["", "   ", "\t", "// a remark", "; 5 USD", "  // indented", "    ; account x", "//", ";", " ;; 2020/01/01 * x", "// if a"]).to_string());
            }
            if stripped.trim().is_empty() {
                if r.pct(70) {
                    out.push(l.to_string());
                }
                continue;
            }
            let mut t = l.to_string();
            if stripped.len() < l.len() && r.pct(heavy) {
                t = stripped.to_string(); // without its comment
            }
            let cut = model::strip_comment(&t).len();
            let (mut body, comment) = (t[..cut].to_string(), t[cut..].to_string());
            let indented = body.starts_with(char::is_whitespace);
            if indented && r.pct(heavy) {
                body = format!("{}{}", r.pick(&[" ", "  ", "\t", "        ", " \t", "   "]), body.trim_start());
            }
            // the parts of a posting, a rule and its value
            in_if = if rules { body.starts_with("if") || (in_if && !indented) } else { false };
            let pattern = in_if && !body.starts_with("if");
            if rules && !pattern && r.pct(heavy) {
                let ind = body.len() - body.trim_start().len();
                if let Some(i) = body[ind..].find([' ', '\t']).map(|i| i + ind) {
                    body.replace_range(i..i + 1, r.pick(&["  ", "\t", " \t"]));
                }
            } else if !rules && indented && r.pct(heavy) {
                let ind = body.len() - body.trim_start().len();
                if let Some(i) = body[ind..].find("  ").map(|i| i + ind) {
                    body.replace_range(i..i + 2, r.pick(&[" ", "   ", "\t", "                       "]));
                }
            }
            // between any words of a journal
            if !rules && r.pct(heavy) {
                let ind = body.len() - body.trim_start().len();
                let end = body.trim_end().len();
                let mut t = body[..ind].to_string();
                let mut rest = &body[ind..end];
                while let Some(i) = rest.find([' ', '\t']) {
                    t.push_str(&rest[..i]);
                    let after = rest[i..].trim_start_matches([' ', '\t']);
                    t.push_str(if r.pct(40) { r.pick(&[" ", "  ", "\t", "    ", " \t"]) } else { &rest[i..rest.len() - after.len()] });
                    rest = after;
                }
                t.push_str(rest);
                t.push_str(&body[end..]);
                body = t;
            }
            t = body + &comment;
            if comment.is_empty() && r.pct(heavy) {
                t.push_str(r.pick(&["  ", "\t", " // x", "  ; due every 3rd", " ;", "//", " // a ; b", "\t; a // b", "    // [c]", "  // envelope a b 5", " ;//x", ";//", " //;"]));
            }
            out.push(t);
        }
        f.chunks = vec![out.join("\n")];
        if r.pct(25) {
            f.crlf = !f.crlf;
        }
        if r.pct(15) {
            f.no_final_newline = !f.no_final_newline;
        }
    }
    w
}

fn c20(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let w2 = relaid(&s.world, s.noise);
    let (d1, d2) = (s.world.disk(), w2.disk());
    let (Ok(j1), Ok(j2)) = (Journal::load(&d1, main), Journal::load(&d2, main)) else { return Verdict::Pass };
    let Some(Step::Run(r)) = s.steps.first() else { return Verdict::Pass };
    let a = ctx.run(&d1, &r.clean());
    clear!(ctx);
    let b = ctx.run(&d2, r);
    clear!(ctx);
    ctx.nontrivial = d1 != d2 && (a.disk != d1 || !a.res.stdout.is_empty());
    let files = || {
        let mut t = String::new();
        for f in w2.files.iter().filter(|f| f.path.ends_with("sfox") || f.path.ends_with("rules")) {
            t.push_str(&format!("\n--- {} in the other layout{}\n{}", f.path, if f.crlf { " (crlf)" } else { "" }, String::from_utf8_lossy(&f.render())));
        }
        t
    };
    if a.res.ok() != b.res.ok() {
        return bad("one fails", format!("{} depends on layout: {}{}{}", r.show(), a.res.stderr, b.res.stderr, files()));
    }
    if a.res.stdout != b.res.stdout {
        return bad("output", format!("{} depends on layout; it shows\n{}\nand\n{}{}", r.show(), a.res.stdout, b.res.stdout, files()));
    }
    let (Ok(ea), Ok(eb)) = (recorded(&j1, &a.disk, main), recorded(&j2, &b.disk, main)) else {
        return bad("unreadable", format!("after {} the journal is broken; it ends:\n{}\nor\n{}{}", r.show(), tail(&a.disk, main), tail(&b.disk, main), files()));
    };
    if ea != eb {
        return bad("recorded", format!("what {} records depends on layout:\n{}\nand\n{}{}", r.show(), tail(&a.disk, main), tail(&b.disk, main), files()));
    }
    if !ea.is_empty() {
        ctx.probe("recorded the same");
    }
    Verdict::Pass
}

/// What a command line asks for, by what the documentation says of it.
#[derive(PartialEq, Debug)]
enum Asked {
    Help,
    Nothing(&'static str),
    Cmd { sub: char, file: String, csv: Option<String>, rules: Option<String>, no_move: bool },
    /// not specified
    Open,
}
fn asked(r: &RunSpec) -> Asked {
    let Some(word) = r.args.first() else { return Asked::Help };
    let sub = match word.chars().next() {
        Some(c) if "beri".contains(c) && ["balance", "envelopes", "register", "import"].iter().any(|w| w.starts_with(word.as_str())) => c,
        Some(c) if "bersin".contains(c) => return Asked::Open,
        _ => return Asked::Nothing("subcommand"),
    };
    let (mut file, mut csv, mut rules, mut no_move) = (None, None, None, false);
    let mut it = r.args.iter().skip(1);
    let mut open = false;
    while let Some(a) = it.next() {
        let slot = match a.as_str() {
            "-n" | "--no-move" => {
                no_move = true;
                continue;
            }
            "-f" | "--file" => &mut file,
            "--csv" | "--csv-file" => &mut csv,
            "--rules" | "--rules-file" => &mut rules,
            _ => return Asked::Nothing("flag"),
        };
        let Some(v) = it.next() else { return Asked::Nothing("value") };
        open |= slot.is_some() || v.starts_with('-');
        *slot = Some(v.clone());
    }
    let env = |k: &str| r.env.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    let Some(file) = file.or_else(|| env("SILVERFOX_FILE")).or_else(|| env("LEDGER_FILE")) else { return Asked::Nothing("file") };
    if open || (sub == 'i') != csv.is_some() || (sub != 'i' && rules.is_some()) {
        return Asked::Open;
    }
    Asked::Cmd { sub, file, csv, rules, no_move }
}

fn g21(r: &mut Rng) -> Scenario {
    let o = Opts { envs: (1, 4), funded: 95, rich: 80, entries: (0, 5), includes: 10, ..Opts::default() };
    let mut g = Gen::new(r, o);
    let mut w = g.world();
    let day = g.telling_day();
    let mut base = if g.r.pct(40) {
        let (_, rp) = add_import(&mut g, &mut w, (1, 3), true);
        import_args(&mut g, day, CSV, rp)
    } else {
        let v = any_view(g.r);
        g.run(v, day)
    };
    if g.r.pct(45) {
        base = g.no_move(base);
    }
    base.env.clear();
    // the options, each with its value
    let mut opts: Vec<Vec<String>> = vec![];
    let mut it = base.args.iter().skip(1);
    while let Some(a) = it.next() {
        let mut o = vec![a.clone()];
        if a != "-n" && a != "--no-move" {
            o.extend(it.next().cloned());
        }
        opts.push(o);
    }
    let full = match base.sub() {
        'b' => "balance",
        'e' => "envelopes",
        'r' => "register",
        _ => "import",
    };
    let mut word = full[..g.r.range(1, full.len() as i64) as usize].to_string();
    if g.r.pct(15) {
        if let Some(o) = opts.iter().find(|o| o.len() == 1).cloned() {
            opts.push(o);
        }
    }
    for o in opts.iter_mut() {
        o[0] = match o[0].as_str() {
            "-n" | "--no-move" => *g.r.pick(&["-n", "--no-move"]),
            "-f" | "--file" => *g.r.pick(&["-f", "--file"]),
            "--csv" | "--csv-file" => *g.r.pick(&["--csv", "--csv-file"]),
            _ => *g.r.pick(&["--rules", "--rules-file"]),
        }
        .into();
    }
    g.r.shuffle(&mut opts);
    let mut env = vec![];
    let mut family = "spellings";
    if g.r.pct(50) {
        family = "mistakes";
        let i = g.r.below(opts.len() as u64 + 1) as usize;
        match g.r.below(7) {
            0 => word = g.r.pick(&["", "x", "Balance", "-f", "--no-move", "help", "-b", "show", "?", " b", "account", "\u{e9}"]).to_string(),
            1 | 2 => {
                let mut f = g.r.pick(&["-f", "--file", "-n", "--no-move", "--csv", "--csv-file", "--rules", "--rules-file"]).to_string();
                // almost an option, or nothing like one
                match g.r.below(8) {
                    0 => {
                        f.remove(0);
                    }
                    1 => {
                        f.remove(g.r.below(f.len() as u64) as usize);
                    }
                    2 => f.insert(g.r.below(f.len() as u64 + 1) as usize, *g.r.pick(&['-', 's', ' ', 'x', '='])),
                    3 => f = f.to_uppercase(),
                    _ => f = g.r.pick(&["--no-mov", "--nomove", "--no_move", "-N", "-x", "--files", "-F", "--help", "-h", "--csvfile", "--rule", "--", "-", "--dry-run", "-fn", "-nf", "--no-move=true", "--begin", "-q", "--file="]).to_string(),
                }
                let mut o = vec![f];
                if g.r.pct(50) {
                    o.push(g.r.pick(&["x", "-n", "1", "/home/u/money/main.sfox", ""]).to_string());
                }
                opts.insert(i, o);
            }
            3 => opts.insert(i, vec![g.r.pick(&["main.sfox", "/home/u/money/main.sfox", "n", "food", "2020", ""]).to_string()]),
            4 => {
                // the last option lost its value
                if let Some(k) = opts.iter().position(|o| o.len() == 2) {
                    let mut o = opts.remove(k);
                    o.truncate(1);
                    opts.push(o);
                }
            }
            5 => {
                opts.push(vec![g.r.pick(&["-f", "--file", "--csv", "--csv-file", "--rules", "--rules-file"]).to_string()]);
            }
            _ => opts.retain(|o| !["-f", "--file"].contains(&o[0].as_str())),
        }
    }
    let mut alt = base.clone();
    alt.args = vec![word];
    alt.args.extend(opts.concat());
    if family == "mistakes" && g.r.pct(3) {
        alt.args.clear();
    }
    if g.r.pct(if family == "mistakes" { 40 } else { 15 }) && asked(&alt) != Asked::Nothing("file") {
        let k = *g.r.pick(&["SILVERFOX_FILE", "LEDGER_FILE"]);
        env.push((k.to_string(), w.main.clone()));
    }
    alt.env = env;
    scen(family, w, vec![Step::Run(base), Step::Run(alt)])
}

fn c21(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let disk = s.world.disk();
    let (Some(Step::Run(a)), Some(Step::Run(b))) = (s.steps.first(), s.steps.get(1)) else { return Verdict::Pass };
    match asked(b) {
        Asked::Open => Verdict::Pass,
        Asked::Help => {
            let y = ctx.run(&disk, b);
            clear!(ctx);
            ctx.probe("help");
            ctx.nontrivial = true;
            if y.disk != disk || y.res.crashed() {
                return bad("writes", format!("{} changes files", b.show()));
            }
            for w in ["alance", "nvelopes", "egister", "mport"] {
                if !y.res.stdout.contains(w) {
                    return bad("help", format!("{} does not name the subcommands:\n{}{}", b.show(), y.res.stdout, y.res.stderr));
                }
            }
            Verdict::Pass
        }
        Asked::Nothing(what) => {
            let y = ctx.run(&disk, b);
            clear!(ctx);
            ctx.probe(what);
            ctx.nontrivial = true;
            if y.disk != disk {
                let p = y.disk.nodes.iter().find(|(p, n)| disk.nodes.get(*p) != Some(n)).map(|x| x.0.clone()).unwrap_or_default();
                return bad("writes", format!("{} can't be understood ({what}), and changes {p}, which ends:\n{}", b.show(), tail(&y.disk, &p)));
            }
            if y.res.crashed() {
                return bad("crash", format!("{} crashes: {}", b.show(), y.res.stderr));
            }
            if y.res.stderr.trim().is_empty() || !y.res.stdout.trim().is_empty() {
                return bad("silent", format!("{} can't be understood ({what}), and isn't refused:\n{}{}", b.show(), y.res.stdout, y.res.stderr));
            }
            Verdict::Pass
        }
        cmd => {
            if asked(a) != cmd {
                return Verdict::Pass;
            }
            let x = ctx.run(&disk, a);
            clear!(ctx);
            let y = ctx.run(&disk, b);
            clear!(ctx);
            ctx.nontrivial = x.disk != disk || !x.res.stdout.is_empty();
            if x.disk != y.disk {
                return bad("disk", format!("files differ after\n  {}\nand\n  {}\nmessages of the second: {}\nthe journal ends\n{}\nand\n{}", a.show(), b.show(), y.res.stderr, tail(&x.disk, &s.world.main), tail(&y.disk, &s.world.main)));
            }
            if x.res.stdout != y.res.stdout || x.res.ok() != y.res.ok() {
                return bad("output", format!("different results:\n  {}\n{}{}\n  {}\n{}{}", a.show(), x.res.stdout, x.res.stderr, b.show(), y.res.stdout, y.res.stderr));
            }
            Verdict::Pass
        }
    }
}

fn g22(r: &mut Rng) -> Scenario {
    let mut g = Gen::new(r, Opts { noise: 20, includes: 40, funded: 90, ..Opts::default() });
    let mut w = g.world();
    let day = g.telling_day();
    let with_import = g.r.pct(40);
    let mut run = if with_import {
        let (_, rp) = add_import(&mut g, &mut w, (0, 4), true);
        import_args(&mut g, day, CSV, rp)
    } else {
        let v = any_view(g.r);
        g.run(v, day)
    };
    if g.r.pct(25) {
        run = g.no_move(run);
    }
    run.faults = read_benign(g.r, 15);
    if with_import && g.r.pct(50) {
        let k: Vec<usize> = w.files.iter().enumerate().filter(|(_, f)| f.path.ends_with("rules")).map(|x| x.0).collect();
        if !k.is_empty() {
            let f = &mut w.files[*g.r.pick(&k)];
            wrong_rule(g.r, f);
        }
    } else {
        // any file the journal is made of
        let k: Vec<usize> = w.files.iter().enumerate().filter(|(_, f)| f.path.ends_with(".sfox") && !f.chunks.is_empty()).map(|x| x.0).collect();
        let i = *g.r.pick(&k);
        if g.r.pct(35) {
            spoil(g.r, &mut w.files[i]);
        } else {
            let c = wrong_chunk(&mut g);
            let f = &mut w.files[i];
            let n = f.chunks.len() as u64;
            let at = match g.r.below(4) {
                0 => n,
                1 => n - 1,
                _ => g.r.below(n + 1),
            };
            f.chunks.insert(at as usize, c);
        }
    }
    scen("mistake", w, vec![Step::Run(run)])
}

/// A directive, definition or entry with one mistake in it.
fn wrong_chunk(g: &mut Gen) -> String {
    let m = g.m.clone();
    let r = &mut *g.r;
    let date = cal::format(m.base - r.range(0, 30), &m.fmt).replace(' ', "");
    let a = r.pick(&m.assets).clone();
    let b = r.pick(&m.others).clone();
    let st = *r.pick(&["*", "~", "?"]);
    let head = format!("{date} {st} shop");
    let two = format!("\n    {a}  -5\n    {b}  5");
    let def = |body: &str| format!("account assets:new\n{body}");
    match r.below(28) {
        26 | 27 => {
            // in a format that isn't the journal's
            let f = *r.pick(&["%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%d/%m/%Y", "%d-%b-%Y", "%Y%m%d", "%y/%m/%d"]);
            let d = cal::format(m.base - r.range(0, 30), f);
            if r.pct(70) { format!("{d} {st} shop{two}") } else { def(&format!("    goal boat by {d}\n        amount 50")) }
        }
        0 => format!("{date} {} shop{two}", r.pick(&["!", "x", "**", "shop", "*shop", "~~", "-", "#"])),
        1 => format!("{date} shop{two}"),
        2 => date,
        3 => format!("{} {st} shop{two}", r.pick(&["2020", "2020/13/01", "2020/02/30", "today", "1/2", "2021-02-29", "00/00/0000", "20200101", "31.02.2020"])),
        4 => format!("{head}\n    {a}  -5\n    {}  5", r.pick(&["expenses:nowhere", "nothing", "expenses:foods", "asset", "Expenses", "expenses:rent2"])),
        5 => format!("{head}\n    {}  -5\n    {b}", r.pick(&["assets:nowhere", "assets:checkin", "cash"])),
        6 => format!("{head}\n    {a}  {}\n    {b}  5", r.pick(&["five", "1.2.3", "5 US D", "--", "5-5", "- 5 -", "USD", "1 2 3"])),
        7 => format!("{head}\n    {a}  -5\n    {b}  5 {}", r.pick(&["@", "=", "@ x", "= y", "@ 1.1.1", "= 1 2 3"])),
        8 => format!("{head} [Bob{two}"),
        9 => format!("{head} ]Bob[{two}"),
        10 => format!("{head}\n    {a}\n    {b}"),
        11 => format!("{head}\n    {a}  -5\n    {b}\n    {b}"),
        12 => format!("{head}\n    {b}{}", r.pick(&["", "\n    envelope assets:checking food 5", "\n    envelope assets:checking food -5\n    envelope assets:savings boat 5"])),
        13 => format!("{head}\n    {a}  -5 EUR\n    {a}  -5 USD\n    {b}"),
        14 => format!("{head}\n    {a}  -5 ETH\n    {a}  -5\n    {b}"),
        15 => format!("{head}{two}\n    envelope{}", r.pick(&["", " assets:checking", " assets:checking food", " assets:checking food x"])),
        16 | 17 => match m.envs.is_empty() {
            true => "currency".into(),
            false => {
                let e = r.pick(&m.envs).clone();
                let other = if e.sym == "XYZ" { "ZZZ" } else { "XYZ" };
                if r.pct(50) || e.fors.is_empty() {
                    format!("{head}{two}\n    envelope {} {} 5 {other}", e.account, e.name)
                } else {
                    format!("{head}\n    {}  -5 {other}\n    {}  5 {other}", e.account, e.fors[0])
                }
            }
        },
        18 => r.pick(&["account", "account assets:a b", "account assets:new account x"]).to_string(),
        19 => r.pick(&["currency", "date_format", "include"]).to_string(),
        20 => def(&format!("    expense food{}\n        amount 50", r.pick(&["", " due", " by", " starting soon", " on Friday", " every 3rd", " due every", " due other Friday"]))),
        21 => def(&format!(
            "    {} food due {}\n        amount 50\n        funding aggressive",
            r.pick(&["expense", "goal"]),
            r.pick(&["every day", "every month", "every other Friday", "every other 3rd", "every year", "every Frday", "someday", "2020", "every other year", "in a week", "every", "daily"])
        )),
        22 => def(&format!("    expense food due every Friday starting {}\n        amount 50", r.pick(&["soon", "2020", "2020/13/13", "2020/02/30", "Friday"]))),
        23 => def(&format!("    expense food due every Friday\n        amount 50\n        funding {}", r.pick(&["lazy", "Aggressive", "conservative aggressive", "none", "aggressively", "manual manual"]))),
        24 => def(&format!(
            "    expense food due every Friday\n        {}",
            r.pick(&["amount", "amount x", "amount 1 2 3", "for", "for a b", "funding", "amuont 5", "limit 5", "forr expenses:food", "due every Friday", "note x", "amount 5.5.5"])
        )),
        _ => {
            let kinds = ["expense", "goal"];
            let (x, y) = (*r.pick(&kinds), *r.pick(&kinds));
            def(&format!("    {x} food due every Friday\n        amount 50\n    {} rent due every 3rd\n        amount 5\n    {y} food due every 5th\n        amount 20", r.pick(&kinds)))
        }
    }
}

/// Puts one mistake into a text that has none: a part is left out, doubled or misspelled.
fn spoil(r: &mut Rng, f: &mut FileSpec) {
    for _ in 0..8 {
        let i = r.below(f.chunks.len() as u64) as usize;
        let mut lines: Vec<String> = f.chunks[i].split('\n').map(|s| s.to_string()).collect();
        let k = r.below(lines.len() as u64) as usize;
        let body = model::strip_comment(&lines[k]).trim_end().to_string();
        let mut words: Vec<String> = body.split_whitespace().map(|s| s.to_string()).collect();
        if words.is_empty() {
            continue;
        }
        let ind = body[..body.len() - body.trim_start().len()].to_string();
        let n = words.len() as u64;
        match r.below(6) {
            0 => {
                words.remove(r.below(n) as usize);
            }
            1 => {
                let j = r.below(n) as usize;
                let add = *r.pick(&["x", "!", "/", ".", "[", "z9", ",", ":", "-", "'", ")"]);
                if r.pct(70) {
                    words[j].push_str(add);
                } else {
                    words[j].insert_str(0, add);
                }
            }
            2 => {
                let j = r.below(n) as usize;
                let mut c: Vec<char> = words[j].chars().collect();
                c.remove(r.below(c.len() as u64) as usize);
                words[j] = c.into_iter().collect();
            }
            3 => {
                let j = r.below(n) as usize;
                let w = words[j].clone();
                words.insert(j, w);
            }
            4 => {
                let l = lines[k].clone();
                lines.insert(k, l);
            }
            _ => {
                lines.remove(k);
            }
        }
        if lines.len() > k && model::strip_comment(&lines[k]).trim_end() == body {
            lines[k] = format!("{ind}{}", words.join(" "));
        }
        f.chunks[i] = lines.join("\n");
        return;
    }
}

fn wrong_rule(r: &mut Rng, f: &mut FileSpec) {
    let l = r
        .pick(&[
            "acount assets:checking", "descripton x", "amount", "account", "skip", "date", "description", "payee", "comment", "status", "fields", "skip x", "skip 1.5", "skip one", "decimal_symbol ..", "decimal 10",
            "foo bar", "Skip 1", "dateformat %Y", "curency USD", "amt 5", "fields -", "include", "decimal_symbol", "xyz -", "note",
        ])
        .to_string();
    let mut lines: Vec<String> = f.chunks.join("\n").split('\n').map(|s| s.to_string()).collect();
    // at the top level before the blocks, in a block, or after them
    let blocks: Vec<usize> = lines.iter().enumerate().filter(|(_, l)| l.starts_with(char::is_whitespace) && !model::strip_comment(l).trim().is_empty()).map(|x| x.0).collect();
    if !blocks.is_empty() && r.pct(50) {
        let k = *r.pick(&blocks);
        let l = if r.pct(20) { "if alpha".to_string() } else { l };
        lines.insert(k + r.below(2) as usize, format!("    {l}"));
    } else {
        let first_if = lines.iter().position(|l| l.starts_with("if")).unwrap_or(lines.len());
        let k = if r.pct(25) && !blocks.is_empty() { lines.len() } else { r.below(first_if as u64 + 1) as usize };
        lines.insert(k, l);
    }
    f.chunks = lines;
}

/// A mistake in the rules of this import, if there is one that can't be anything else.
fn rules_mistake(disk: &Disk, r: &RunSpec) -> Option<String> {
    let arg = |a: &str| r.args.iter().position(|x| x == a || x == &format!("{a}-file")).and_then(|i| r.args.get(i + 1));
    let csv = arg("--csv")?;
    let mut todo = vec![arg("--rules").cloned().unwrap_or(format!("{csv}.rules"))];
    let mut n = 0;
    while let Some(p) = todo.pop() {
        n += 1;
        if n > 200 {
            return None;
        }
        let t = disk.text(&disk.resolve(&r.cwd, &p)?)?;
        // 0: outside, 1: in a block's patterns, 2: in its rules
        let mut at = 0;
        for l in t.lines() {
            let l = model::strip_comment(l).trim_end();
            if l.trim().is_empty() {
                continue;
            }
            let indented = l.starts_with(char::is_whitespace);
            at = match at {
                1 if !indented => continue,
                1 | 2 if indented => 2,
                _ => 0,
            };
            if at == 0 && l.starts_with("if") {
                at = 1;
                continue;
            }
            let (k, v) = match l.trim_start().split_once(char::is_whitespace) {
                Some((k, v)) => (k, v.trim()),
                None => (l.trim(), ""),
            };
            let wrong = match k {
                _ if v.is_empty() => true,
                "comment" | "note" | "date_format" | "date" | "description" | "payee" | "status" => false,
                "fields" => v == "-",
                "if" => true,
                "skip" => v != "-" && v.parse::<i32>().is_err(),
                "decimal" | "decimal_symbol" => v != "-" && v.chars().count() != 1,
                "include" | "use" => {
                    todo.push(v.to_string());
                    false
                }
                k => !k.starts_with("amount") && !k.starts_with("account"),
            };
            if wrong {
                return Some(format!("`{l}` in {p}"));
            }
        }
    }
    None
}

fn c22(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let disk = s.world.disk();
    let Some(Step::Run(r)) = s.steps.first() else { return Verdict::Pass };
    match Journal::load(&disk, main) {
        Err(e) => {
            if ["no file", "cannot read", "account defined twice", "include depth", "text before"].iter().any(|x| e.starts_with(x)) {
                return Verdict::Pass;
            }
            // a year with a sign is one as well
            let signed = |t: &str| t.contains('+') || t.starts_with('-') || ["/-", ".-", "--"].iter().any(|x| t.contains(x));
            if e.contains("date") && e.split('`').nth(1).is_some_and(signed) {
                return Verdict::Pass;
            }
            // an operator given twice: left open
            let twice = |l: &str| ["@", "=", "!", "!!"].iter().any(|o| l.split_whitespace().filter(|w| w == o).count() > 1);
            // date formats that the reference model reads differently, perhaps
            let odd = |l: &str| {
                let w: Vec<&str> = model::strip_comment(l).split_whitespace().collect();
                w.first() == Some(&"date_format") && w.get(1).is_some_and(|f| !["%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%Y.%m.%d", "%d-%b-%Y", "%F"].contains(f))
            };
            if disk.nodes.keys().any(|p| p.ends_with(".sfox") && disk.text(p).unwrap_or("").lines().any(|l| twice(l) || odd(l))) {
                return Verdict::Pass;
            }
            if let Some(a) = e.strip_prefix("account ").and_then(|e| e.strip_suffix(" not defined")) {
                // defined too late, perhaps
                for p in disk.nodes.keys().filter(|p| p.ends_with(".sfox")) {
                    for l in disk.text(p).unwrap_or("").lines() {
                        let w: Vec<&str> = model::strip_comment(l).split_whitespace().collect();
                        if w.first() == Some(&"account") && w.contains(&a) {
                            return Verdict::Pass;
                        }
                    }
                }
            }
            ctx.nontrivial = true;
            ctx.probe(e.split([' ', '`']).next().unwrap_or(""));
            let o = ctx.run(&disk, r);
            clear!(ctx);
            let show = || format!("{}\nstdout: {}\nstderr: {}", r.show(), o.res.stdout, o.res.stderr);
            if o.res.crashed() {
                return bad("crash", format!("a mistake ({e}) crashes the run: {}", show()));
            }
            if o.res.stderr.trim().is_empty() {
                return bad("no error", format!("the journal has a mistake in it ({e}), but there is no error: {}", show()));
            }
            if !o.res.stdout.trim().is_empty() {
                return bad("result", format!("the journal has a mistake in it ({e}), but there is a result: {}", show()));
            }
            if o.disk != disk {
                return bad("changed", format!("the journal has a mistake in it ({e}), but files changed: {}\njournal ends:\n{}", show(), tail(&o.disk, main)));
            }
            Verdict::Pass
        }
        Ok(j0) => {
            if !r.import() {
                return Verdict::Pass;
            }
            let Some(e) = rules_mistake(&disk, r) else { return Verdict::Pass };
            ctx.nontrivial = true;
            ctx.probe("rules");
            let o = ctx.run(&disk, r);
            clear!(ctx);
            if o.res.crashed() {
                return bad("crash", format!("a mistake ({e}) crashes the run: {}\n{}", r.show(), o.res.stderr));
            }
            if o.res.stderr.trim().is_empty() || !o.res.stdout.trim().is_empty() {
                return bad("no error", format!("the rules have a mistake in them, {e}, but the import isn't refused: {}\nstdout: {}\nstderr: {}", r.show(), o.res.stdout, o.res.stderr));
            }
            no_rows(&j0, &o, main)
        }
    }
}

// ---- judging -------------------------------------------------------------------------------

pub fn check(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let v = match s.prop.as_str() {
        "C01" => c01(ctx, s),
        "C02" => c02(ctx, s),
        "C03" => c03(ctx, s),
        "C04" => c04(ctx, s),
        "C05" => c05(ctx, s),
        "C06" => c06(ctx, s),
        "C07" => c07(ctx, s),
        "C08" => c08(ctx, s),
        "C09" | "C10" | "C11" | "C12" => c_view(ctx, s),
        "C13" => c13(ctx, s),
        "C14" => c14(ctx, s),
        "C15" => c15(ctx, s),
        "C16" => c16(ctx, s),
        "C17" => c17(ctx, s),
        "C18" => c18(ctx, s),
        "C19" => c19(ctx, s),
        "C20" => c20(ctx, s),
        "C21" => c21(ctx, s),
        "C22" => c22(ctx, s),
        p => panic!("unknown property {p}"),
    };
    match (v, ctx.unsupported.take()) {
        (_, Some(u)) => Verdict::Unclear(u),
        (v, None) => v,
    }
}

fn edit(disk: &mut Disk, path: &str, text: &str) {
    if let Some(b) = disk.get(path) {
        let mut b = b.to_vec();
        b.extend_from_slice(text.as_bytes());
        let m = match disk.nodes.get(path) {
            Some(Node::File { mode, .. }) => *mode,
            _ => 6,
        };
        disk.put(path, &b);
        if let Some(Node::File { mode, .. }) = disk.nodes.get_mut(path) {
            *mode = m;
        }
    }
}

/// Reading the journal only: does it load?
fn loads(ctx: &mut Ctx, disk: &Disk, like: &RunSpec) -> Option<bool> {
    let mut q = like.with_sub("b").read_only();
    q.tty = 80;
    let o = ctx.run(disk, &q);
    if o.res.crashed() {
        return None;
    }
    Some(o.res.ok())
}

fn append_only(o: &Outcome, main: &str) -> Result<bool, Verdict> {
    for (p, n) in &o.before.nodes {
        match o.disk.nodes.get(p) {
            None => return Err(bad("removed", format!("{p} is gone after: {}", o.spec.show()))),
            Some(m) if p != main && m != n => {
                return Err(bad(if matches!(n, Node::File { .. }) { "other file changed" } else { "node changed" }, format!("{p} changed by: {}", o.spec.show())));
            }
            _ => {}
        }
    }
    if let Some(p) = o.disk.nodes.keys().find(|p| !o.before.nodes.contains_key(*p)) {
        return Err(bad("created", format!("{p} was created by: {}", o.spec.show())));
    }
    if let (Some(Node::File { mode: a, .. }), Some(Node::File { mode: b, .. })) = (o.before.nodes.get(main), o.disk.nodes.get(main)) {
        if a != b {
            return Err(bad("mode", "the journal's permissions changed"));
        }
    }
    match (o.before.get(main), o.disk.get(main)) {
        (Some(a), Some(b)) => {
            if b.len() < a.len() || &b[..a.len()] != a {
                return Err(bad("lost", format!("text that was in the journal is lost or changed after: {}\njournal now ends:\n{}", o.spec.show(), tail(&o.disk, main))));
            }
            Ok(b.len() > a.len())
        }
        (None, None) => Ok(false),
        _ => Err(bad("journal", "the journal appeared or went")),
    }
}

fn c01(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let mut disk = s.world.disk();
    let main = &s.world.main;
    for st in &s.steps {
        match st {
            Step::Edit { path, text } => edit(&mut disk, path, text),
            Step::Run(r) => {
                let o = ctx.run(&disk, r);
                clear!(ctx);
                let grew = match append_only(&o, main) {
                    Ok(g) => g,
                    Err(v) => return v,
                };
                if grew {
                    ctx.probe("journal grew");
                    if !o.res.ok() {
                        ctx.probe("journal grew in a disturbed run");
                    }
                    ctx.nontrivial = true;
                }
                if !o.res.trace.iter().all(|t| t.fault == 0) {
                    ctx.nontrivial = true;
                }
                if grew && r.no_move() && !r.import() {
                    return bad("no-move", format!("a run with --no-move changed the journal: {}", r.show()));
                }
                if grew && loads(ctx, &disk, r) == Some(false) {
                    return bad("load failed", format!("the journal does not load, yet the run changed it: {}", r.show()));
                }
                disk = o.disk;
            }
            _ => {}
        }
    }
    Verdict::Pass
}

/// How many of the recorded entries are automatic movements and rows, if
/// they are an unbroken beginning of what the undisturbed run recorded.
fn prefix_of(got: &[Entry], full: &[Entry]) -> bool {
    got.len() <= full.len() && same_entries(got, &full[..got.len()])
}

fn c02(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let mut disk = s.world.disk();
    let Ok(j0) = Journal::load(&disk, main) else { return Verdict::Pass };
    let Some(Step::Run(last)) = s.steps.last() else { return Verdict::Pass };
    if !last.faults.is_empty() {
        return Verdict::Pass;
    }
    let full = ctx.run(&disk, last);
    clear!(ctx);
    if !full.res.ok() {
        return Verdict::Pass;
    }
    let Ok(fe) = recorded(&j0, &full.disk, main) else { return Verdict::Pass };
    let autos = fe.iter().take_while(|e| is_auto(e)).count();
    let mut rows_in = false;
    for (i, st) in s.steps.iter().enumerate() {
        let Step::Run(r) = st else { continue };
        let lastly = i + 1 == s.steps.len();
        if lastly && rows_in {
            // importing again would be the user's wish to import twice
            return match loads(ctx, &disk, r) {
                Some(true) => Verdict::Pass,
                _ => bad("unreadable", format!("the journal does not load after a kill; it ends:\n{}", tail(&disk, main))),
            };
        }
        if rows_in {
            continue;
        }
        let o = ctx.run(&disk, r);
        clear!(ctx);
        if o.res.exit == Exit::Killed {
            ctx.nontrivial |= !fe.is_empty();
        } else if !lastly && !o.res.ok() {
            return bad("rerun fails", format!("a run after a kill failed: {}\n{}", r.show(), o.res.stderr));
        }
        disk = o.disk;
        let got = match recorded(&j0, &disk, main) {
            Ok(g) => g,
            Err(e) => return bad("unreadable", format!("after a kill the journal is broken ({e}); it ends:\n{}", tail(&disk, main))),
        };
        if lastly {
            if !o.res.ok() {
                return bad("rerun fails", format!("re-running after a kill failed: {}\n{}", r.show(), o.res.stderr));
            }
            if !same_moves(&moves(&got), &moves(&fe)) {
                return bad("rerun movements", format!("after kill and re-run: {}\nundisturbed: {}", show_moves(&moves(&got)), show_moves(&moves(&fe))));
            }
            if !same_entries(&rows_of(&got), &rows_of(&fe)) {
                return bad("rerun rows", format!("after kill and re-run the journal ends:\n{}", tail(&disk, main)));
            }
            return Verdict::Pass;
        }
        if !prefix_of(&got, &fe) {
            return bad("garbled", format!("a killed run left something else than a beginning of what it records; the journal ends:\n{}", tail(&disk, main)));
        }
        if got.len() != 0 && got.len() != autos && got.len() != fe.len() {
            return bad("partial", format!("a killed run left {} of {} entries ({autos} movement); the journal ends:\n{}", got.len(), fe.len(), tail(&disk, main)));
        }
        if r.import() && got.len() == fe.len() && fe.len() > autos {
            rows_in = true;
            ctx.probe("killed after the rows were in");
        } else if got.len() == autos && autos > 0 {
            ctx.probe("killed after the movement was in");
        } else if autos > 0 {
            ctx.probe("killed before the movement");
        }
    }
    Verdict::Pass
}

fn c03(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let disk = s.world.disk();
    let Ok(j0) = Journal::load(&disk, main) else { return Verdict::Pass };
    let Some(Step::Run(r)) = s.steps.first() else { return Verdict::Pass };
    let mut open = disk.clone();
    open.free = None;
    if let Some(Node::File { mode, .. }) = open.nodes.get_mut(main) {
        *mode = 6;
    }
    let full = ctx.run(&open, &r.clean());
    clear!(ctx);
    if !full.res.ok() {
        return Verdict::Pass;
    }
    let Ok(fe) = recorded(&j0, &full.disk, main) else { return Verdict::Pass };
    let autos = fe.iter().take_while(|e| is_auto(e)).count();
    let o = ctx.run(&disk, r);
    clear!(ctx);
    let hurt = o.res.trace.iter().any(|t| t.fault > 0) || o.disk.free == Some(0) || !o.res.ok();
    ctx.nontrivial = hurt && !fe.is_empty();
    let (b, a) = (disk.get(main).unwrap_or(b""), o.disk.get(main).unwrap_or(b""));
    let got = match recorded(&j0, &o.disk, main) {
        Ok(g) => g,
        Err(e) => return bad("broken", format!("after a failed write the journal is broken ({e}); it ends:\n{}", tail(&o.disk, main))),
    };
    if o.res.crashed() {
        return bad("crash", format!("a write failure crashed the run: {}\n{}", r.show(), o.res.stderr));
    }
    if o.res.ok() {
        if !same_entries(&got, &fe) {
            return bad("silent", format!("the run reported no problem but recorded something else than it should: {}\njournal ends:\n{}", r.show(), tail(&o.disk, main)));
        }
        if hurt {
            ctx.probe("fault overcome");
        }
        return Verdict::Pass;
    }
    ctx.probe("failure reported");
    let clean_bytes = a == b;
    let fill_only = r.import() && got.len() == autos && prefix_of(&got, &fe) && full.disk.get(main).is_some_and(|f| f.starts_with(a));
    if !clean_bytes && !fill_only {
        return bad("not undone", format!("a failed write was not undone: {}\n{}\njournal ends:\n{}", r.show(), o.res.stderr, tail(&o.disk, main)));
    }
    // the trouble is over
    let mut d2 = o.disk.clone();
    d2.free = None;
    if let Some(Node::File { mode, .. }) = d2.nodes.get_mut(main) {
        *mode = 6;
    }
    let again = ctx.run(&d2, &r.clean());
    clear!(ctx);
    if !again.res.ok() {
        return bad("retry fails", format!("retrying after a failed write fails: {}\n{}", r.show(), again.res.stderr));
    }
    match recorded(&j0, &again.disk, main) {
        Ok(g) if same_moves(&moves(&g), &moves(&fe)) && same_entries(&rows_of(&g), &rows_of(&fe)) => Verdict::Pass,
        _ => bad("retry differs", format!("a retry after a failed write records something else: {}\njournal ends:\n{}", r.show(), tail(&again.disk, main))),
    }
}

fn c04(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let disk = s.world.disk();
    let Some(Step::Run(r)) = s.steps.first() else { return Verdict::Pass };
    if loads(ctx, &disk, r) != Some(true) {
        return Verdict::Pass;
    }
    clear!(ctx);
    let o = ctx.run(&disk, r);
    clear!(ctx);
    if o.res.crashed() {
        // C15's matter, unless the journal suffers
        ctx.probe("crash");
    }
    let grew = o.disk.get(main) != disk.get(main);
    ctx.nontrivial = grew;
    let mut views = vec![];
    for v in ["b", "e", "r"] {
        let mut q = r.with_sub(v).read_only();
        q.tty = 100;
        let a = ctx.run(&o.disk, &q);
        clear!(ctx);
        if !a.res.ok() {
            return bad("unreadable", format!("after {} silverfox cannot load or show ({v}) the journal:\n{}\njournal ends:\n{}", r.show(), a.res.stderr, tail(&o.disk, main)));
        }
        if a.disk != o.disk {
            return bad("read-only", "a read-only run changed a file");
        }
        views.push(a.res.stdout);
    }
    if r.import() {
        if grew && o.res.ok() {
            ctx.probe("import read back");
        }
    } else if o.res.ok() {
        let i = ['b', 'e', 'r'].iter().position(|c| *c == r.sub()).unwrap_or(0);
        if !same_out(r.sub(), &o.res.stdout, &views[i]) {
            return bad("differs", format!("a read-only run right after {} shows something else.\nthe run showed:\n{}\nread back:\n{}", r.show(), o.res.stdout, views[i]));
        }
        if grew {
            ctx.probe("movement read back");
        }
    }
    // what was recorded is what the model finds in the text
    if let Ok(j) = Journal::load(&o.disk, main) {
        let t = r.today();
        for e in [check_balance(&j, &views[0]), check_totals(&j, t, &views[1]), check_register(&j, &views[2])].into_iter().flatten() {
            return bad("model", format!("after {}: {e}", r.show()));
        }
    } else if Journal::load(&disk, main).is_ok() {
        return bad("model unreadable", format!("after {} the journal is no longer well formed; it ends:\n{}", r.show(), tail(&o.disk, main)));
    }
    Verdict::Pass
}

fn c05(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let disk = s.world.disk();
    let Ok(j0) = Journal::load(&disk, main) else { return Verdict::Pass };
    let Some(Step::Run(r)) = s.steps.first() else { return Verdict::Pass };
    let o = ctx.run(&disk, r);
    clear!(ctx);
    let marked = s.world.files.iter().any(|f| f.chunks.iter().any(|c| c.contains("BADROW")));
    let has = |p: &str| s.world.files.iter().any(|f| f.path == p);
    let must = match s.family.as_str() {
        "must" => marked && has(CSV),
        "norules" => !has("/home/u/my.rules") && !has("/home/u/money/bank.csv.rules"),
        _ => false,
    };
    if o.res.ok() {
        if must && s.world.files.iter().any(|f| f.path == CSV) {
            return bad("no error", format!("an import that cannot succeed reports no error: {}\njournal ends:\n{}", r.show(), tail(&o.disk, main)));
        }
        return Verdict::Pass;
    }
    ctx.nontrivial = true;
    ctx.probe("import refused");
    match recorded(&j0, &o.disk, main) {
        Ok(es) => {
            let rows = rows_of(&es);
            if !rows.is_empty() {
                return bad("rows", format!("a failed import left {} rows: {}\n{}\njournal ends:\n{}", rows.len(), r.show(), o.res.stderr, tail(&o.disk, main)));
            }
            if es.len() > 1 || (r.no_move() && !es.is_empty()) {
                return bad("entries", format!("a failed import left {} entries:\n{}", es.len(), tail(&o.disk, main)));
            }
            if es.is_empty() && o.disk.get(main) != disk.get(main) {
                return bad("text", format!("a failed import left text in the journal:\n{}", tail(&o.disk, main)));
            }
            Verdict::Pass
        }
        Err(e) => bad("unreadable", format!("after a failed import ({}) the journal is broken ({e}); it ends:\n{}", r.show(), tail(&o.disk, main))),
    }
}

fn c06(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let mut disk = s.world.disk();
    if Journal::load(&disk, main).is_err() {
        return Verdict::Pass;
    }
    let mut seen: BTreeMap<(Day, String, String), f64> = BTreeMap::new();
    let mut nruns = 0;
    for st in &s.steps {
        match st {
            Step::Edit { path, text } => edit(&mut disk, path, text),
            Step::Run(r) => {
                let Ok(j) = Journal::load(&disk, main) else { return Verdict::Pass };
                let o = ctx.run(&disk, r);
                clear!(ctx);
                let Ok(es) = recorded(&j, &o.disk, main) else { return Verdict::Pass };
                for m in moves(&es) {
                    if m.3.abs() <= model::TOL {
                        continue;
                    }
                    nruns += 1;
                    let k = (m.0, m.1.clone(), m.2.clone());
                    if let Some(old) = seen.insert(k, m.3) {
                        return bad(
                            "twice",
                            format!("{}/{} got a second automatic movement on {}: {old} and {}{}\njournal ends:\n{}", m.1, m.2, cal::format(m.0, "%F"), m.3, m.4, tail(&o.disk, main)),
                        );
                    }
                }
                if !es.is_empty() && r.today() != es[0].date && is_auto(&es[0]) {
                    return bad("date", format!("an automatic movement made on {} is dated {}", cal::format(r.today(), "%F"), cal::format(es[0].date, "%F")));
                }
                disk = o.disk;
            }
            _ => {}
        }
    }
    ctx.nontrivial = nruns > 0;
    Verdict::Pass
}

/// Judges what one completed run moved.  `full`: also that it moved all it should.
fn judge_fill(ctx: &mut Ctx, j: &Journal, o: &Outcome, main: &str, over: bool, full: bool) -> Option<Verdict> {
    let t = o.spec.today();
    let es = match recorded(j, &o.disk, main) {
        Ok(e) => e,
        Err(e) => return Some(bad("unreadable", format!("after {} the journal is broken ({e}); it ends:\n{}", o.spec.show(), tail(&o.disk, main)))),
    };
    let mv = moves(&es);
    let st = j.state(t);
    // sums of floating point numbers are as exact as the greatest of them
    let mut scale = 0.0;
    for p in j.entries.iter().flat_map(|e| &e.postings) {
        let m = p.amt.as_ref().map_or(0.0, |a| a.mag.abs());
        scale += match &p.cost {
            Some(model::Cost::Unit(c) | model::Cost::Total(c)) => m.max(1.0) * c.mag.abs().max(1.0),
            None => m,
        };
    }
    for a in &j.accounts {
        let s = &st[&a.name];
        let av = model::available(a, s);
        let mut per: BTreeMap<&str, (f64, f64)> = BTreeMap::new(); // symbol -> asked, moved
        for (d, e) in a.envs.iter().zip(&s.envs) {
            let want = model::desired(d, e, t);
            let got: Vec<&Move> = mv.iter().filter(|m| m.1 == a.name && m.2 == d.name).collect();
            let sum: f64 = got.iter().map(|m| m.3).sum();
            let p = per.entry(&d.amount.sym).or_default();
            p.0 += want;
            p.1 += sum;
            let what = || {
                format!(
                    "{} moved {sum}{} to {}/{} ({:?}, goal {}, next {}, now {}, {:?} starting {:?}, touched today: {}); it asks for {want}",
                    o.spec.show(), d.amount.sym, a.name, d.name, d.funding, d.amount.mag, e.next, e.now, d.freq, d.starting.map(|d| cal::format(d, "%F")), e.touched
                )
            };
            if over {
                if got.iter().any(|m| m.4 != d.amount.sym) {
                    return Some(bad("currency", what()));
                }
                if got.iter().any(|m| m.3 < -model::TOL) {
                    return Some(bad("negative", what()));
                }
                if model::above(sum, want, scale) {
                    let c = if e.touched {
                        "touched"
                    } else if d.funding == Funding::Manual {
                        "manual"
                    } else if d.next_due(t).is_none() {
                        "no due date"
                    } else {
                        "too much"
                    };
                    return Some(bad(c, what()));
                }
            }
            if sum > model::TOL {
                ctx.probe("envelope funded");
                ctx.nontrivial = true;
            }
            if e.touched && d.funding != Funding::Manual {
                ctx.probe("envelope already touched today");
            }
            if full && d.funding == Funding::Manual && sum.abs() > model::TOL {
                return Some(bad("manual", what()));
            }
        }
        for (sym, (asked, moved)) in per {
            let can = av.get(sym).copied().unwrap_or(0.0).max(0.0);
            // each of the amounts written is rounded
            let slack = 6e-9 * a.envs.len() as f64;
            if over && model::above(moved, can, scale) && (a.envs.len() < 20 || moved - can > slack) {
                return Some(bad("overcommitted", format!("{} moved {moved}{sym} out of {}, where {can} was available\njournal ends:\n{}", o.spec.show(), a.name, tail(&o.disk, main))));
            }
            let should = asked.min(can);
            if asked > can {
                ctx.probe("less available than asked for");
            }
            if full && !near(moved, should) && (moved - should).abs() > slack {
                return Some(bad(
                    "not all moved",
                    format!("{} moved {moved}{sym} in {}; asked for {asked}, available {can}\njournal ends:\n{}", o.spec.show(), a.name, tail(&o.disk, main)),
                ));
            }
        }
    }
    if over {
        for m in &mv {
            if !j.account(&m.1).is_some_and(|a| a.envs.iter().any(|e| e.name == m.2)) {
                return Some(bad("unknown envelope", format!("moved to {}/{}", m.1, m.2)));
            }
        }
    }
    None
}

fn c07(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    if s.family == "twins" {
        return twins(ctx, s);
    }
    fill_history(ctx, s, true, false)
}
/// Two envelopes that go by one name: refused, or each is given no more than there is.
fn twins(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let Some(Step::Run(r)) = s.steps.first() else { return Verdict::Pass };
    let disk = s.world.disk();
    let o = ctx.run(&disk, r);
    clear!(ctx);
    if !o.res.ok() || o.disk == disk {
        ctx.probe("refused");
        ctx.nontrivial = true;
        return Verdict::Pass;
    }
    let low = |ctx: &mut Ctx, d: &Disk| -> Vec<String> {
        let mut r = r.clean();
        r.args[0] = "e".into();
        r.args.push("-n".into());
        let o = ctx.run(d, &r);
        let mut v = vec![];
        let mut avail = false;
        for l in o.res.stdout.lines() {
            if !l.starts_with(' ') || l.starts_with("  available") {
                avail = l.starts_with("  available");
            } else if !l.starts_with("    ") {
                avail = false;
            } else if avail && l.contains('-') {
                v.push(l.to_string());
            }
        }
        v
    };
    let (a, b) = (low(ctx, &disk), low(ctx, &o.disk));
    clear!(ctx);
    if a.is_empty() && !b.is_empty() {
        return bad("overcommitted", format!("after automatic movements, less than nothing is available:\n{}\n{}", b.join("\n"), tail(&o.disk, &s.world.main)));
    }
    Verdict::Pass
}
fn c08(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    fill_history(ctx, s, false, true)
}
fn fill_history(ctx: &mut Ctx, s: &Scenario, over: bool, full: bool) -> Verdict {
    let main = &s.world.main;
    let mut disk = s.world.disk();
    if Journal::load(&disk, main).is_err() {
        return Verdict::Pass;
    }
    for st in &s.steps {
        match st {
            Step::Edit { path, text } => edit(&mut disk, path, text),
            Step::Run(r) => {
                let Ok(j) = Journal::load(&disk, main) else { return Verdict::Pass };
                let o = ctx.run(&disk, r);
                clear!(ctx);
                let done = o.res.ok() && o.res.exit != Exit::Killed;
                if !r.no_move() && (done || over) {
                    if let Some(v) = judge_fill(ctx, &j, &o, main, over, full && done) {
                        return v;
                    }
                }
                if full && !done && r.faults.is_empty() {
                    return bad("run fails", format!("an undisturbed run failed: {}\n{}", r.show(), o.res.stderr));
                }
                if full && done && !r.no_move() {
                    // full by the due date
                    let t = r.today();
                    let before = j.state(t);
                    if let Ok(j) = Journal::load(&o.disk, main) {
                        let state = j.state(t);
                        for a in &j.accounts {
                            let av = model::available(a, &state[&a.name]);
                            for ((d, e), b) in a.envs.iter().zip(&state[&a.name].envs).zip(&before[&a.name].envs) {
                                let left = av.get(&d.amount.sym).copied().unwrap_or(0.0);
                                let eve = d.next_due(t) == Some(t + 1);
                                // touched today before this run: no automatic movement
                                let mine = b.touched;
                                if d.funding != Funding::Manual && left > model::TOL && !mine && d.next_due(t).is_some() {
                                    let must = eve || d.funding == Funding::Aggressive;
                                    if must && e.next < d.amount.mag - model::TOL && s.family == "daily" {
                                        return bad("not full", format!("{}/{} holds {} of {} after {}, although {left} is available", a.name, d.name, e.next, d.amount.mag, r.show()));
                                    }
                                    if must {
                                        ctx.probe("full by its due date");
                                    }
                                }
                            }
                        }
                    }
                }
                disk = o.disk;
            }
            _ => {}
        }
    }
    Verdict::Pass
}

fn c_view(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let mut disk = s.world.disk();
    if Journal::load(&disk, main).is_err() {
        return Verdict::Pass;
    }
    for st in &s.steps {
        match st {
            Step::Edit { path, text } => edit(&mut disk, path, text),
            Step::Run(r) => {
                if Journal::load(&disk, main).is_err() {
                    return Verdict::Pass;
                }
                let o = ctx.run(&disk, r);
                clear!(ctx);
                if !o.res.ok() {
                    return bad("fails", format!("{} fails on a good journal:\n{}", r.show(), o.res.stderr));
                }
                disk = o.disk;
                let Ok(j) = Journal::load(&disk, main) else { return Verdict::Pass };
                let t = r.today();
                let out = &o.res.stdout;
                let e = match s.prop.as_str() {
                    "C09" => {
                        let mut hits = 0;
                        let e = check_dates(&j, t, out, &mut hits);
                        ctx.nontrivial |= hits > 0;
                        if j.accounts.iter().any(|a| a.envs.iter().any(|d| d.freq.last_due(t, d.starting) == Some(t))) {
                            ctx.probe("on a due date");
                        }
                        e
                    }
                    "C10" => {
                        ctx.nontrivial |= j.entries.len() > 1;
                        if j.entries.iter().any(|e| e.has_envelopes()) {
                            ctx.probe("with envelope movements");
                        }
                        if j.entries.iter().any(|e| e.postings.iter().any(|p| p.amt.is_none())) {
                            ctx.probe("with inferred amounts");
                        }
                        check_balance(&j, out)
                    }
                    "C11" => {
                        ctx.nontrivial |= j.state(t).values().any(|a| a.envs.iter().any(|e| e.now != 0.0 || e.next != 0.0));
                        check_totals(&j, t, out)
                    }
                    _ => {
                        ctx.nontrivial |= j.register().is_some_and(|r| r.0.len() > 1);
                        check_register(&j, out)
                    }
                };
                if let Some(e) = e {
                    return bad("wrong", format!("{}: {e}", r.show()));
                }
            }
            _ => {}
        }
    }
    Verdict::Pass
}

fn c13(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let disk = s.world.disk();
    let Some(Step::Run(r)) = s.steps.first() else { return Verdict::Pass };
    let a = ctx.run(&disk, r);
    clear!(ctx);
    ctx.nontrivial = a.disk != disk || a.res.stdout.len() > 40;
    for k in 1..4u64 {
        let mut q = r.clone();
        q.entropy = r.entropy.wrapping_add(k.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        let b = ctx.run(&disk, &q);
        clear!(ctx);
        for (x, y, what) in [(&a.res.stdout, &b.res.stdout, "output"), (&a.res.stderr, &b.res.stderr, "messages")] {
            if x != y {
                return bad(what, format!("{} gives two different {what}:\n--- first\n{x}\n--- second\n{y}", r.show()));
            }
        }
        if a.disk != b.disk {
            let m = &s.world.main;
            return bad("disk", format!("{} leaves two different journals; one ends:\n{}\nthe other:\n{}", r.show(), tail(&a.disk, m), tail(&b.disk, m)));
        }
    }
    Verdict::Pass
}

fn c14(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let disk = s.world.disk();
    let Some(Step::Run(r)) = s.steps.first() else { return Verdict::Pass };
    let j0 = Journal::load(&disk, main);
    let o = ctx.run(&disk, r);
    clear!(ctx);
    let unchanged = o.disk == disk;
    let silent = o.res.stdout.trim().is_empty();
    let reported = !o.res.stderr.trim().is_empty();
    let show = || format!("{}\nstdout: {}\nstderr: {}", r.show(), o.res.stdout, o.res.stderr);
    match &j0 {
        Err(e) => {
            // something is wrong with a file the journal needs
            if !(e.starts_with("no file") || e.starts_with("cannot read")) {
                return Verdict::Pass;
            }
            ctx.nontrivial = true;
            ctx.probe("unreadable input");
            if !reported {
                return bad("no error", format!("{e}, but no error: {}", show()));
            }
            if !silent {
                return bad("partial result", format!("{e}, but there is a result: {}", show()));
            }
            if !unchanged {
                return bad("changed", format!("{e}, but files changed: {}", show()));
            }
            Verdict::Pass
        }
        Ok(j0) => {
            let full = ctx.run(&disk, &r.clean());
            clear!(ctx);
            let hurt = o.res.trace.iter().any(|t| t.fault > 0);
            ctx.nontrivial |= hurt;
            if o.res.stdout == full.res.stdout && o.res.stderr == full.res.stderr && o.disk == full.disk {
                if hurt {
                    ctx.probe("no difference");
                }
                if r.import() {
                    let lacking = unreadable_input(&disk, r);
                    if let (true, Some(p)) = (full.res.ok(), lacking) {
                        return bad("no error", format!("{p} cannot be read, but there is no error: {}\njournal ends:\n{}", show(), tail(&o.disk, main)));
                    }
                    if !full.res.ok() {
                        // a CSV or rules file is not there or not text
                        ctx.nontrivial = true;
                        return no_rows(j0, &o, main);
                    }
                }
                return Verdict::Pass;
            }
            if !reported {
                return bad("no error", format!("an input failed, the result differs, but there is no error: {}", show()));
            }
            if o.res.crashed() {
                return bad("crash", format!("an input failure crashed the run: {}", show()));
            }
            if !silent {
                return bad("partial result", format!("an input failed, but there is a result: {}", show()));
            }
            if unchanged {
                ctx.probe("error, nothing changed");
                return Verdict::Pass;
            }
            // only the CSV and rules files are read after the day's movement
            let late = o.res.trace.iter().any(|t| t.fault > 0 && is_import_file(ctx, t.ino));
            if r.import() && late {
                ctx.probe("import input failed");
                return no_rows(j0, &o, main);
            }
            bad("changed", format!("an input failed, but files changed: {}\njournal ends:\n{}", show(), tail(&o.disk, main)))
        }
    }
}
/// A CSV or rules file of this import that is not there, not a file, not readable or not text.
fn unreadable_input(disk: &Disk, r: &RunSpec) -> Option<String> {
    let arg = |a: &str| r.args.iter().position(|x| x == a || x == &format!("{a}-file")).and_then(|i| r.args.get(i + 1));
    let csv = arg("--csv")?;
    let rules = arg("--rules").cloned().unwrap_or(format!("{csv}.rules"));
    let text = |p: &str| -> Option<String> {
        let p = disk.resolve(&r.cwd, p)?;
        if let Some(Node::File { mode, .. }) = disk.nodes.get(&p) {
            if mode & 4 == 0 {
                return None;
            }
        }
        disk.text(&p).map(|t| t.to_string())
    };
    if text(csv).is_none() {
        return Some(csv.clone());
    }
    let mut todo = vec![rules];
    let mut n = 0;
    while let Some(p) = todo.pop() {
        n += 1;
        let Some(t) = text(&p) else { return Some(p) };
        if n > 8 {
            break;
        }
        for l in t.lines() {
            let w: Vec<&str> = model::strip_comment(l).split_whitespace().collect();
            if w.len() == 2 && matches!(w[0], "include" | "use") {
                todo.push(w[1].to_string());
            }
        }
    }
    None
}
fn is_import_file(ctx: &Ctx, ino: i16) -> bool {
    ctx.m.path_of(ino).is_some_and(|p| p.ends_with("csv") || p.ends_with("rules"))
}
fn no_rows(j0: &Journal, o: &Outcome, main: &str) -> Verdict {
    match recorded(j0, &o.disk, main) {
        Ok(es) if es.len() <= 1 && rows_of(&es).is_empty() => Verdict::Pass,
        _ => bad("rows", format!("an import whose input failed left text: {}\njournal ends:\n{}", o.spec.show(), tail(&o.disk, main))),
    }
}

fn c15(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let mut disk = s.world.disk();
    ctx.nontrivial = true;
    for st in &s.steps {
        if let Step::Run(r) = st {
            let o = ctx.run(&disk, r);
            clear!(ctx);
            if o.res.crashed() {
                let msg = o.res.stderr.lines().find(|l| l.contains("panicked at")).unwrap_or("").to_string();
                let place = msg.split("panicked at ").nth(1).unwrap_or("").split(':').next().unwrap_or("").to_string();
                let class = match o.res.exit {
                    Exit::Code(_) => format!("panic {place}"),
                    e => format!("{e:?}"),
                };
                return bad(&class, format!("{} crashed ({:?}):\n{}", r.show(), o.res.exit, o.res.stderr));
            }
            ctx.probe(if o.res.ok() { "ran to its end" } else { "error message" });
            disk = o.disk;
        }
    }
    Verdict::Pass
}

fn c16(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let disk = s.world.disk();
    if Journal::load(&disk, main).is_err() {
        return Verdict::Pass;
    }
    let (Some(Step::Run(a)), Some(Step::Run(b))) = (s.steps.first(), s.steps.get(1)) else { return Verdict::Pass };
    // the second run has to name the same journal
    let named = |r: &RunSpec| -> Option<String> {
        let i = r.args.iter().position(|a| a == "-f" || a == "--file");
        let p = match i {
            Some(i) => r.args.get(i + 1)?.clone(),
            None => {
                let e = |k: &str| r.env.iter().find(|x| x.0 == k).map(|x| x.1.clone());
                e("SILVERFOX_FILE").or_else(|| e("LEDGER_FILE"))?
            }
        };
        disk.resolve(&r.cwd, &p)
    };
    if named(a).as_deref() != Some(main) || named(b).as_deref() != Some(main) {
        return Verdict::Pass;
    }
    let x = ctx.run(&disk, a);
    clear!(ctx);
    let y = ctx.run(&disk, b);
    clear!(ctx);
    // the reference itself must be right: the model knows where included files are
    if !a.import() && !x.res.ok() {
        return bad("fails", format!("{} fails on a good journal:\n{}", a.show(), x.res.stderr));
    }
    ctx.nontrivial = x.disk != disk || !x.res.stdout.is_empty();
    // files nobody named make no difference
    let arg = |k: &str| a.args.iter().position(|x| x == k || x == &format!("{k}-file")).and_then(|i| a.args.get(i + 1)).and_then(|p| disk.resolve(&a.cwd, p));
    let csv = arg("--csv");
    let rules = arg("--rules").or_else(|| csv.as_ref().map(|c| format!("{c}.rules")));
    let mut bare = disk.clone();
    bare.nodes.retain(|p, n| {
        let stray = p.ends_with(".rules") && Some(p) != rules.as_ref() && !p.starts_with("/home/u/money/common") && !p.ends_with("/nothing.rules");
        let decoy = matches!(n, Node::File { data, .. } if data.starts_with(b"account assets:decoy\n")) && Some(p) != rules.as_ref() && Some(p) != csv.as_ref() && p != main;
        !stray && !decoy
    });
    if bare != disk {
        let z = ctx.run(&bare, a);
        clear!(ctx);
        if z.disk.nodes.get(main) != x.disk.nodes.get(main) || z.res.stdout != x.res.stdout {
            return bad("stray", format!("a file that nobody named makes a difference to {}: {}{}\nwithout it: {}{}", a.show(), x.res.stdout, x.res.stderr, z.res.stdout, z.res.stderr));
        }
    }
    if x.disk != y.disk {
        for (p, n) in &x.disk.nodes {
            if y.disk.nodes.get(p) != Some(n) {
                return bad("disk", format!("{p} differs after\n  {}\nand\n  {}\nmessages of the second: {}", a.show(), b.show(), y.res.stderr));
            }
        }
        return bad("disk", format!("files differ after\n  {}\nand\n  {}", a.show(), b.show()));
    }
    if x.res.stdout != y.res.stdout || x.res.ok() != y.res.ok() {
        return bad("output", format!("different results:\n  {}\n{}{}\n  {}\n{}{}", a.show(), x.res.stdout, x.res.stderr, b.show(), y.res.stdout, y.res.stderr));
    }
    if let Ok(j) = Journal::load(&y.disk, main) {
        if b.sub() == 'b' && y.res.ok() {
            if let Some(e) = check_balance(&j, &y.res.stdout) {
                return bad("wrong", format!("{}: {e}", b.show()));
            }
        }
    }
    Verdict::Pass
}

fn c17(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let disk = s.world.disk();
    let Ok(j0) = Journal::load(&disk, main) else { return Verdict::Pass };
    let Some(Step::Conc { runs, appends, sched }) = s.steps.first() else { return Verdict::Pass };
    // every process on its own must be able to do its work
    let mut ext: Vec<Entry> = vec![];
    {
        let mut j = j0.clone();
        for (_, t) in appends {
            if j.add_text(&disk, "", t, 0).is_err() {
                return Verdict::Pass;
            }
        }
        ext.extend(j.entries[j0.entries.len()..].iter().cloned());
    }
    for r in runs {
        let o = ctx.run(&disk, &r.clean());
        clear!(ctx);
        if !o.res.ok() {
            return Verdict::Pass;
        }
    }
    let c = ctx.conc(&disk, main, runs, appends, sched);
    clear!(ctx);
    if c.deadlock {
        return bad("deadlock", "the processes wait for each other");
    }
    let switches = c.schedule.windows(2).filter(|w| w[0] != w[1]).count();
    ctx.nontrivial = switches > 1;
    let mut all_ok = true;
    // with a write that fails, text may be there for a moment that is then undone
    let undo = runs.iter().any(|r| r.faults.iter().any(|f| matches!(f.act, Act::Err(_) | Act::ShortThenErr(..))));
    let mut gone = vec![];
    for (r, p) in runs.iter().zip(&c.procs) {
        let hit = undo && (!r.faults.is_empty() || (r.no_move() && !r.import())) && p.exit == Exit::Code(0) && !p.stderr.is_empty();
        gone.push(hit || p.exit == Exit::Killed);
        if hit || p.exit == Exit::Killed {
            if hit && !r.faults.is_empty() {
                ctx.probe("write undone while others run");
            }
            all_ok = false;
            continue;
        }
        if !p.ok() {
            return bad("fails", format!("{} fails while others run:\n{}", r.show(), p.stderr));
        }
    }
    // everything that was there
    if nodes_except(&c.disk, main) != nodes_except(&disk, main) {
        return bad("other files", "a file beside the journal changed");
    }
    let fin = c.disk.get(main).unwrap_or(b"");
    if !fin.starts_with(disk.get(main).unwrap_or(b"")) {
        return bad("lost", format!("text that was in the journal is lost; it ends:\n{}", tail(&c.disk, main)));
    }
    let fin_s = String::from_utf8_lossy(fin).into_owned();
    for (_, t) in appends {
        if !fin_s.contains(t.trim_end_matches('\n')) {
            return bad("lost edit", format!("the user's entry is not in the journal:\n{t}\njournal ends:\n{}", tail(&c.disk, main)));
        }
    }
    let es = match recorded(&j0, &c.disk, main) {
        Ok(e) => e,
        Err(e) => return bad("unreadable", format!("the journal is broken ({e}); it ends:\n{}", tail(&c.disk, main))),
    };
    // split what was added: the user's entries, rows, automatic movements
    let mut rest: Vec<Entry> = es.clone();
    for e in &ext {
        match rest.iter().position(|x| same_entry(x, e)) {
            Some(i) => {
                rest.remove(i);
            }
            None => return bad("lost edit", format!("an entry the user added is lost or garbled; the journal ends:\n{}", tail(&c.disk, main))),
        }
    }
    let rows = rows_of(&rest);
    let mut expect_rows: usize = 0;
    let mut may_rows = 0;
    if let Some((_, _, exp)) = &s.rows {
        for (r, gone) in runs.iter().zip(&gone) {
            if r.import() {
                if *gone {
                    may_rows += exp.len();
                } else {
                    expect_rows += exp.len();
                }
            }
        }
    }
    let n = s.rows.as_ref().map_or(0, |x| x.2.len());
    if rows.len() < expect_rows || rows.len() > expect_rows + may_rows || (n > 0 && rows.len() % n != 0) {
        return bad("rows", format!("{} imported rows, expected {expect_rows}; the journal ends:\n{}", rows.len(), tail(&c.disk, main)));
    }
    let mut seen: BTreeMap<(Day, String, String), f64> = BTreeMap::new();
    let mut moved = false;
    for m in moves(&rest) {
        if m.3.abs() <= model::TOL {
            continue;
        }
        moved = true;
        if seen.insert((m.0, m.1.clone(), m.2.clone()), m.3).is_some() {
            return bad("twice", format!("{}/{} got two automatic movements on one day; the journal ends:\n{}", m.1, m.2, tail(&c.disk, main)));
        }
    }
    if moved {
        ctx.probe("money moved");
    }
    if all_ok && runs.iter().any(|r| !r.no_move()) && appends.is_empty() && s.rows.is_none() {
        // the day's movement is made by one of them
        let r = runs.iter().find(|r| !r.no_move()).unwrap();
        let o = ctx.run(&disk, &r.clean());
        if let Ok(e) = recorded(&j0, &o.disk, main) {
            if !same_moves(&moves(&e), &moves(&rest)) {
                return bad("movement", format!("together the runs moved {}, one alone moves {}", show_moves(&moves(&rest)), show_moves(&moves(&e))));
            }
        }
    }
    // readers
    let mut states: Vec<Disk> = vec![];
    for sn in &c.snapshots {
        let mut d = disk.clone();
        d.put(main, sn);
        let Ok(x) = recorded(&j0, &d, main) else { continue };
        let whole = x.iter().all(|e| es.iter().any(|f| same_entry(e, f)));
        let nrows = rows_of(&x).iter().filter(|e| !ext.iter().any(|f| same_entry(e, f))).count();
        if whole && (n == 0 || nrows % n == 0) {
            states.push(d);
        }
    }
    for (r, p) in runs.iter().zip(&c.procs) {
        if !r.no_move() || r.import() || p.exit == Exit::Killed || undo {
            continue;
        }
        let mut fits = false;
        for d in &states {
            let o = ctx.run(d, &r.clean());
            if same_out(r.sub(), &o.res.stdout, &p.stdout) {
                fits = true;
                break;
            }
        }
        ctx.probe("reader judged");
        if !fits {
            return bad("reader", format!("{} shows the journal in a state it never had:\n{}", r.show(), p.stdout));
        }
    }
    Verdict::Pass
}

fn c18(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let disk = s.world.disk();
    let Some(Step::Run(r)) = s.steps.first() else { return Verdict::Pass };
    if Journal::load(&disk, main).is_err() {
        return Verdict::Pass;
    }
    let mut calm = r.clean();
    calm.tty = 80;
    let full = ctx.run(&disk, &calm);
    clear!(ctx);
    if !full.res.ok() {
        return Verdict::Pass;
    }
    let o = ctx.run(&disk, r);
    clear!(ctx);
    ctx.nontrivial = full.disk != disk;
    if full.disk != disk && o.res.trace.iter().any(|t| t.fault > 0) {
        ctx.probe("output trouble while money moved");
    }
    if o.disk != full.disk {
        return bad("journal", format!("with trouble on standard output ({}) the journal ends:\n{}\nwithout:\n{}", r.show(), tail(&o.disk, main), tail(&full.disk, main)));
    }
    for v in ["b", "e", "r"] {
        let mut q = calm.with_sub(v);
        q.tty = 80;
        let x = ctx.run(&o.disk, &q);
        clear!(ctx);
        if !x.res.ok() {
            return bad("next run", format!("the next run fails: {}\n{}", q.show(), x.res.stderr));
        }
        if x.disk != o.disk && !r.import() {
            return bad("moved again", format!("the next run on the same day changed the journal again: {}\n{}", q.show(), tail(&x.disk, main)));
        }
    }
    Verdict::Pass
}

fn c19(ctx: &mut Ctx, s: &Scenario) -> Verdict {
    let main = &s.world.main;
    let disk = s.world.disk();
    let Ok(j0) = Journal::load(&disk, main) else { return Verdict::Pass };
    let Some(Step::Run(r)) = s.steps.first() else { return Verdict::Pass };
    let Some((_, _, exp)) = &s.rows else { return Verdict::Pass };
    let o = ctx.run(&disk, r);
    clear!(ctx);
    if !o.res.ok() {
        return bad("refused", format!("a good import is refused: {}\n{}", r.show(), o.res.stderr));
    }
    let es = match recorded(&j0, &o.disk, main) {
        Ok(e) => e,
        Err(e) => return bad("unreadable", format!("after {} the journal is broken ({e}); it ends:\n{}", r.show(), tail(&o.disk, main))),
    };
    let rows = rows_of(&es);
    ctx.nontrivial = !exp.is_empty();
    if rows.len() != exp.len() {
        return bad("count", format!("{} rows gave {} entries; the journal ends:\n{}", exp.len(), rows.len(), tail(&o.disk, main)));
    }
    let ws = |t: &str| t.split_whitespace().collect::<Vec<_>>().join(" ");
    for (i, (e, g)) in exp.iter().zip(&rows).enumerate() {
        let why = if e.date != g.date {
            "date"
        } else if e.status != g.status {
            "status"
        } else if ws(&e.desc) != ws(&g.desc) {
            "description"
        } else if e.payee.as_deref().map(ws) != g.payee.as_deref().map(ws) {
            "payee"
        } else if e.comment.as_deref().map(ws).filter(|c| !c.is_empty()) != g.comment.as_deref().map(ws).filter(|c| !c.is_empty()) {
            "comment"
        } else {
            let want = Entry {
                date: e.date,
                status: e.status,
                desc: g.desc.clone(),
                payee: g.payee.clone(),
                comment: None,
                postings: e
                    .postings
                    .iter()
                    .map(|p| model::Posting {
                        account: p.account.clone(),
                        envelope: None,
                        amt: p.amt.as_ref().map(|a| model::Amt { mag: a.0, sym: a.1.clone() }),
                        cost: p.price.as_ref().map(|a| {
                            let a = model::Amt { mag: a.0, sym: a.1.clone() };
                            if p.total { model::Cost::Total(a) } else { model::Cost::Unit(a) }
                        }),
                    })
                    .collect(),
            };
            if same_entry(&want, g) {
                continue;
            }
            "postings"
        };
        return bad(why, format!("row {}: {why}: expected {e:?}\nrecorded {g:?}", i + 1));
    }
    Verdict::Pass
}
