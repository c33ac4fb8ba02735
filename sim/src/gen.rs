//! Worlds and histories, drawn from one seed.
use crate::cal::{self, Day, Freq};
use crate::machine::Disk;
use crate::model::{self, Journal};
use crate::rng::Rng;
use crate::scen::*;

#[derive(Clone, Debug)]
pub struct GEnv {
    pub account: String,
    pub name: String,
    pub sym: String,
    pub fors: Vec<String>,
    pub amount: f64,
}

/// What the generator knows about the world it made; not part of the scenario.
#[derive(Clone)]
pub struct Meta {
    pub fmt: String,
    pub base: Day,
    pub assets: Vec<String>,
    pub others: Vec<String>,
    pub envs: Vec<GEnv>,
    pub syms: Vec<String>,
    pub j: Journal,
    pub main: String,
    pub noise: bool,
}

#[derive(Clone)]
pub struct Opts {
    pub envs: (i64, i64),
    pub entries: (i64, i64),
    pub includes: u64,
    pub currencies: u64,
    pub formats: u64,
    pub noise: u64,
    pub blanks: u64,
    pub manual: u64,
    pub future: u64,
    pub unordered: u64,
    /// how often accounts start with plenty of money
    pub rich: u64,
    /// how often an envelope is funded automatically
    pub funded: u64,
    pub bystanders: u64,
    /// spread of entry dates before the base date
    pub back: i64,
    pub years: (i64, i64),
    /// conditional blocks leave dates and numbers alone
    pub plain_rules: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            envs: (1, 4),
            entries: (1, 10),
            includes: 25,
            currencies: 35,
            formats: 30,
            noise: 30,
            blanks: 30,
            manual: 20,
            future: 12,
            unordered: 30,
            rich: 65,
            funded: 80,
            bystanders: 40,
            back: 70,
            years: (2001, 2059),
            plain_rules: false,
        }
    }
}

pub const TZS: [i32; 14] = [0, 0, 0, -720, -600, -480, -300, -210, 60, 120, 330, 345, 540, 840];

pub fn pick_base(r: &mut Rng, years: (i64, i64)) -> Day {
    let y = if r.pct(3) && years.1 - years.0 > 10 { *r.pick(&[1975, 1999, 2000, 2060, 2099, 2100, 2100, 2104, 2200, 2240]) } else { r.range(years.0, years.1) };
    match r.below(8) {
        0 => cal::day(y, 12, r.range(27, 31)),
        1 => cal::day(y, 1, r.range(1, 4)),
        2 => cal::day(y, 2, r.range(26, 28)),
        3 => {
            let y = (y + 3) / 4 * 4;
            cal::day(y, 2, if cal::leap(y) { 29 } else { 28 })
        }
        4 => {
            let m = r.range(1, 12);
            cal::day(y, m, cal::month_len(y, m) - r.range(0, 1))
        }
        _ => {
            let m = r.range(1, 12);
            cal::day(y, m, r.range(1, cal::month_len(y, m)))
        }
    }
}

fn money(r: &mut Rng, max: i64) -> f64 {
    if r.pct(3) {
        return r.range(1, 9_999) as f64 / 1e8;
    }
    match r.below(5) {
        0 => r.range(1, max) as f64,
        1 => (r.range(1, max / 10 + 1) * 10) as f64,
        2 => r.range(1, max * 4) as f64 / 4.0,
        _ => r.range(1, max * 100) as f64 / 100.0,
    }
}
pub fn num(v: f64) -> String {
    let v = (v * 1e8).round() / 1e8;
    format!("{v}")
}
pub fn amt(r: &mut Rng, v: f64, sym: &str) -> String {
    let mut n = num(v);
    if r.pct(12) {
        // the same number, written otherwise
        let (neg, d) = n.strip_prefix('-').map_or(("", n.as_str()), |x| ("-", x));
        let (i, f) = d.split_at(d.find('.').unwrap_or(d.len()));
        n = match r.below(4) {
            0 if f.is_empty() => format!("{neg}{i}.00"),
            0 => format!("{neg}{i}{f}0"),
            1 if i == "0" && !f.is_empty() => format!("{neg}{f}"),
            1 | 2 if i.len() > 3 => format!("{neg}{},{}{f}", &i[..i.len() - 3], &i[i.len() - 3..]),
            3 => format!("{neg}0{i}{f}"),
            _ => n,
        };
    }
    match sym {
        "" => n,
        "$" | "kr" => match r.below(8) {
            0 | 1 => format!("{n} {sym}"),
            2 => format!("{sym} {n}"),
            3 if n.starts_with('-') => format!("-{sym}{}", &n[1..]),
            _ => format!("{sym}{n}"),
        },
        _ => {
            if r.pct(15) {
                format!("{n}{sym}")
            } else {
                format!("{n} {sym}")
            }
        }
    }
}

const WORDS: [&str; 30] = [
    "Groceries", "lunch", "Coffee & cake", "rent", "pay", "Café Zoë", "train 12", "gift for Ann", "ATM #4", "refund", "book: Rust",
    "water/heat", "a", "100% cotton", "dinner (shared)", "日本", "x-mas", "it's fine", "fuel, oil", "two  spaces",
    "Refund: shoes", "transfer to savings", "a rather long description of what was bought and where", "ACCOUNT", "envelope money", "-5", "-> there",
    "move to envelopes", "move to the seaside", "automatically generated by silverfox",
];
const PAYEES: [&str; 6] = ["Fancy's", "Corner Shop", "ACME, Inc.", "Łukasz", "7-11", "Bank & Co"];

/// Text of any length, in letters of one to four bytes.
pub fn text(r: &mut Rng) -> String {
    let n = *r.pick(&[3, 9, 20, 45, 90, 140]);
    let n = r.range(1, n);
    let mut s = String::new();
    let wide = *r.pick(&[0, 10, 60, 100]);
    for i in 0..n {
        if i > 0 && i + 1 < n && !s.ends_with(' ') && r.pct(15) {
            s.push(' ');
        } else if r.pct(wide) {
            s.push(*r.pick(&['é', 'ß', 'Ł', 'İ', 'ﬁ', '日', '–', '€', '\u{301}', '🦊', '𝄞']));
        } else {
            s.push(*r.pick(&['a', 'b', 'c', 'o', 'R', 'T', 'x', 'y', 'Z', '0', '7', '.', '\'', '"', '&', '+', '(', ')', '?', '!', '<', '{', '|', '\\', '^', '_', '`']));
        }
    }
    s
}

pub fn ordinal(d: i64) -> String {
    let s = match (d % 10, d / 10) {
        (1, x) if x != 1 => "st",
        (2, x) if x != 1 => "nd",
        (3, x) if x != 1 => "rd",
        _ => "th",
    };
    format!("{d}{s}")
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub o: Opts,
    pub m: Meta,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, o: Opts) -> Gen<'a> {
        let base = pick_base(r, o.years);
        let fmt = if r.pct(o.formats) {
            r.pick(&["%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%Y.%m.%d", "%d-%b-%Y", "%F"]).to_string()
        } else {
            "%Y/%m/%d".to_string()
        };
        let mut syms = vec![r.pick(&["", "", "", "$", "USD", "€"]).to_string()];
        if r.pct(o.currencies) {
            for s in ["", "$", "BTC", "EUR", "kr"] {
                if r.pct(35) && !syms.iter().any(|x| x == s) {
                    syms.push(s.to_string());
                }
            }
            if r.pct(15) {
                for (a, b) in [("USD", "usd"), ("kr", "KR"), ("BTC", "BTc"), ("EUR", "E")] {
                    if syms.iter().any(|x| x == a) {
                        syms.push(b.to_string());
                    }
                }
            }
        }
        let mut assets: Vec<String> = vec!["assets:checking".into()];
        for a in ["assets:savings", "assets:cash", "asset_box", "assets:crypto:btc"] {
            if r.pct(35) {
                assets.push(a.into());
            }
        }
        if r.pct(6) {
            assets.push("assets:expense-fund".into());
        }
        if r.pct(6) {
            assets.push(r.pick(&["assets:check", "assets:Checking", "assets:checking:joint", "assets"]).to_string());
        }
        let mut others: Vec<String> = vec!["expenses:food".into(), "income:salary".into(), "equity:opening".into()];
        for a in [
            "expenses:rent", "expenses:dining", "expenses:fun", "income:gifts", "liabilities:card", "expenses:unknown", "income:unknown",
            "unknown", "expenses:goals", "expenses:food:out", "revenue:assets", "expenses:café",
        ] {
            if r.pct(45) {
                others.push(a.into());
            }
        }
        if r.pct(8) {
            others.push(r.pick(&["Expenses:Food", "expenses:foo", "expenses", "EXPENSES:FOOD", "Assets:checking"]).to_string());
        }
        if r.pct(1) {
            for i in 0..r.range(10, 60) {
                others.push(format!("expenses:shops:no-{i}"));
            }
        }
        if r.pct(6) {
            // names wider than any column
            let long = ["assets:brokerage:retirement:international-equity", "assets:brokerage:retirement:international-bonds", "assets:a-very-long-name-that-is-wider-than-fifty-characters-are:x"];
            let k = r.range(1, 2) as usize;
            assets.extend(long.iter().skip(r.below(2) as usize).take(k).map(|s| s.to_string()));
            if r.pct(50) {
                others.push("expenses:household:maintenance:plumbing-and-heating".into());
                others.push("expenses:household:maintenance:plumber".into());
            }
        }
        let noise = r.pct(o.noise);
        let m = Meta {
            fmt,
            base,
            assets,
            others,
            envs: vec![],
            syms,
            j: Journal::blank(),
            main: "/home/u/money/main.sfox".into(),
            noise,
        };
        Gen { r, o, m }
    }

    fn date(&self, d: Day) -> String {
        cal::format(d, &self.m.fmt).replace(" ", "")
    }
    fn trail(&mut self) -> String {
        if self.m.noise && self.r.pct(15) {
            let c = *self.r.pick(&["// note", "; 12 USD", "  // due every 3rd", ";", "   ", "// [x", "; a // b", "// a ; b", "/// x", ";//", "//;x", ";;"]);
            format!("  {c}")
        } else {
            String::new()
        }
    }
    fn indent(&mut self) -> String {
        if self.m.noise { self.r.pick(&["    ", "  ", "\t", "     "]).to_string() } else { "    ".into() }
    }

    /// A due clause.  Starting dates always lie on the schedule.
    pub fn due(&mut self) -> String {
        let base = self.m.base;
        let by = *self.r.pick(&["due", "due", "due", "by", "due by"]);
        let wds = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];
        let r = &mut self.r;
        let wname = |r: &mut Rng, d: Day| {
            let w = wds[cal::weekday(d) as usize];
            match r.below(3) {
                0 => w[..3].to_string(),
                1 => w.to_lowercase(),
                _ => w.to_string(),
            }
        };
        let start = match r.below(4) {
            0 => base + r.range(1, 40),
            1 => base - r.range(0, 3),
            2 => base - r.range(0, 70),
            _ if r.pct(10) => base - r.range(1000, 30_000),
            _ => base - r.range(0, 1500),
        };
        match r.below(14) {
            0 | 1 => {
                let w = wname(r, start);
                if r.pct(25) {
                    format!("{by} every {w} starting {}", self.date(start))
                } else {
                    format!("{by} every {w}")
                }
            }
            2 | 3 => {
                let w = wname(r, start);
                format!("{by} every other {w} starting {}", self.date(start))
            }
            4..=6 => {
                let d = match r.below(3) {
                    0 => r.range(28, 31),
                    1 => cal::civil(base + r.range(-1, 2)).2,
                    _ => r.range(1, 31),
                };
                if r.pct(25) {
                    let (y, m, _) = cal::civil(start);
                    format!("{by} every {} starting {}", ordinal(d), self.date(cal::clamped(y, m - 1, d)))
                } else {
                    format!("{by} every {}", ordinal(d))
                }
            }
            7 | 8 => {
                let d = if r.pct(40) {
                    let (y, m, _) = cal::civil(start);
                    cal::day(y, m, cal::month_len(y, m) - r.range(0, 2))
                } else {
                    start
                };
                format!("{by} every other {} starting {}", ordinal(cal::civil(d).2), self.date(d))
            }
            9 | 10 => {
                let (y, m, d) = cal::civil(start);
                let s = match r.below(4) {
                    0 => {
                        let y = y - y.rem_euclid(4);
                        cal::day(y, 2, if cal::leap(y) { 29 } else { 28 })
                    }
                    1 => cal::clamped(y - r.range(0, 6), m - 1, d),
                    _ => start,
                };
                format!("{by} every year starting {}", self.date(s))
            }
            11 | 12 => {
                let d = base + r.range(-20, 60);
                if r.pct(20) {
                    let s = d - r.range(0, 90);
                    format!("{by} {} starting {}", self.date(d), self.date(s))
                } else {
                    format!("{by} {}", self.date(d))
                }
            }
            _ => "no date".to_string(),
        }
    }

    pub fn accounts(&mut self) -> Vec<String> {
        let mut chunks = vec![];
        if self.m.fmt != "%Y/%m/%d" || self.r.pct(10) {
            chunks.push(format!("date_format {}", self.m.fmt));
        }
        if self.r.pct(10) {
            chunks.push("currency $".to_string());
        }
        let mut n = self.r.range(self.o.envs.0, self.o.envs.1);
        if n > 1 && self.r.pct(5) {
            n += self.r.range(2, 5);
        }
        if n > 1 && self.r.pct(1) && self.r.pct(40) {
            n += self.r.range(50, 100);
        }
        let mut names: Vec<&str> = vec!["food", "rent", "trip", "camera", "car_repair", "tax", "b", "fun-money", "car", "Food"];
        self.r.shuffle(&mut names);
        let mut per: std::collections::BTreeMap<String, Vec<String>> = Default::default();
        for i in 0..n as usize {
            // mostly the first account, so that envelopes compete
            let acc = if self.r.pct(60) { self.m.assets[0].clone() } else { self.r.pick(&self.m.assets).clone() };
            let mut name = names[i % names.len()].to_string();
            if self.r.pct(3) {
                name = self
                    .r
                    .pick(&["christmas-and-birthday-presents-for-everyone-in-the-family", "next-years-taxes-and-other-things-nobody-likes", "café", "日本", "x", "401(k)", "mom&dad", "50%", "food,drink", "a.b:c"])
                    .to_string();
            }
            if self.r.pct(12) {
                // the same name in another account
                let used = |n: &str, e: &[GEnv]| e.iter().any(|e| e.account == acc && e.name == n);
                if let Some(e) = self.m.envs.iter().find(|e| !used(&e.name, &self.m.envs)) {
                    name = e.name.clone();
                }
            }
            if self.m.envs.iter().any(|e| e.account == acc && e.name == name) {
                name = format!("{name}{i}");
            }
            let sym = if self.r.pct(75) { self.m.syms[0].clone() } else { self.r.pick(&self.m.syms).clone() };
            let amount = money(self.r, 400);
            let kind = *self.r.pick(&["expense", "expense", "goal"]);
            let due = self.due();
            let t = self.trail();
            let mut s = format!("    {kind} {name} {due}{t}\n");
            if self.m.noise && self.r.pct(15) {
                s.push_str("        // a remark on its own line\n");
            }
            let amount = if self.r.pct(2) { 0.0 } else { amount };
            let mut props = vec![format!("amount {}", amt(self.r, amount, &sym))];
            let mut fors = vec![];
            for _ in 0..self.r.below(3) {
                let f = self.r.pick(&self.m.others).clone();
                if f != acc && !fors.contains(&f) && f.starts_with("expenses") {
                    props.push(format!("for {f}"));
                    fors.push(f);
                }
            }
            if self.r.pct(self.o.funded) {
                props.push(format!("funding {}", self.r.pick(&["aggressive", "conservative", "conservative"])));
            } else if self.r.pct(30) {
                props.push("funding manual".into());
            }
            if self.r.pct(30) {
                self.r.shuffle(&mut props);
            }
            for p in props {
                let t = self.trail();
                s.push_str(&format!("        {p}{t}\n"));
            }
            per.entry(acc.clone()).or_default().push(s);
            self.m.envs.push(GEnv { account: acc, name, sym, fors, amount });
        }
        let mut all: Vec<String> = self.m.assets.iter().chain(&self.m.others).cloned().collect();
        if self.r.pct(40) {
            self.r.shuffle(&mut all);
        }
        for a in all {
            let t = self.trail();
            let mut s = format!("account {a}{t}");
            for e in per.remove(&a).unwrap_or_default() {
                s.push('\n');
                s.push_str(e.trim_end_matches('\n'));
                if self.r.pct(20) {
                    s.push('\n');
                }
            }
            chunks.push(s);
        }
        for c in &chunks {
            self.m.j.add_text(&Disk::default(), "", c, 0).unwrap_or_else(|e| panic!("generated an unreadable account: {e}\n{c}"));
        }
        chunks
    }

    /// One entry, already checked to be readable; also added to the model journal.
    pub fn entry(&mut self, date: Day) -> Option<String> {
        let s = self.entry_text(date);
        self.m.j.add_text(&Disk::default(), "", &s, 0).ok()?;
        Some(s)
    }
    pub fn entry_text(&mut self, date: Day) -> String {
        let sym = if self.r.pct(70) { self.m.syms[0].clone() } else { self.r.pick(&self.m.syms).clone() };
        let x = money(self.r, 300);
        let asset = if self.r.pct(65) { self.m.assets[0].clone() } else { self.r.pick(&self.m.assets).clone() };
        let exp = self.r.pick(&self.m.others).clone();
        let mut posts: Vec<(String, Option<f64>, String, String)> = vec![]; // account, amount, symbol, tail
        let mut env_posts: Vec<String> = vec![];
        let k = if self.r.pct(self.o.manual) { 15 } else { self.r.below(15) };
        match k {
            0 | 1 => {
                posts.push((asset, Some(x * 2.0), sym.clone(), String::new()));
                posts.push(("income:salary".into(), Some(-x * 2.0), sym, String::new()));
            }
            2..=4 => {
                // spending, preferably where an envelope watches
                let (a, e, s) = match self.m.envs.iter().filter(|e| !e.fors.is_empty()).collect::<Vec<_>>() {
                    v if !v.is_empty() && self.r.pct(75) => {
                        let e = self.r.pick(&v);
                        (e.account.clone(), self.r.pick(&e.fors).clone(), e.sym.clone())
                    }
                    _ => (asset, exp, sym),
                };
                let sign = if self.r.pct(20) { -1.0 } else { 1.0 };
                posts.push((a, Some(-x * sign), s.clone(), String::new()));
                posts.push((e, Some(x * sign), s, String::new()));
            }
            5 => {
                let b = self.r.pick(&self.m.assets).clone();
                posts.push((asset, Some(-x), sym.clone(), String::new()));
                posts.push((b, Some(x), sym, String::new()));
            }
            6 => {
                let y = money(self.r, 50);
                let b = if self.r.pct(20) { asset.clone() } else { self.r.pick(&self.m.assets).clone() };
                posts.push((asset, Some(-x - y), sym.clone(), String::new()));
                posts.push((b, Some(y), sym.clone(), String::new()));
                posts.push((exp, Some(x), sym, String::new()));
            }
            7 => {
                // exchange, priced or not
                let q = self.r.range(1, 4000) as f64 / 100.0;
                let p = self.r.range(1, 50) as f64;
                let other = self.r.pick(&["BTC", "EUR", "ETH"]).to_string();
                let b = self.r.pick(&self.m.assets).clone();
                let nat = if self.r.pct(70) { String::new() } else { self.m.syms[0].clone() };
                if nat == other {
                    posts.push((asset, Some(x), sym.clone(), String::new()));
                    posts.push((exp, Some(-x), sym, String::new()));
                } else {
                    let tail = match self.r.below(3) {
                        0 => String::new(),
                        1 => format!(" @ {}", amt(self.r, p, &nat)),
                        _ => format!(" = {}", amt(self.r, p * q, &nat)),
                    };
                    posts.push((b, Some(q), other, tail));
                    posts.push((asset, Some(-p * q), nat, String::new()));
                }
            }
            8 => {
                // spending a priced commodity from an account with a native envelope
                let q = self.r.range(1, 400) as f64 / 100.0;
                let p = self.r.range(1, 50) as f64;
                let (a, e) = match self.m.envs.iter().filter(|e| e.sym.is_empty() && !e.fors.is_empty()).collect::<Vec<_>>() {
                    v if !v.is_empty() => {
                        let e = self.r.pick(&v);
                        (e.account.clone(), self.r.pick(&e.fors).clone())
                    }
                    _ => (asset, exp),
                };
                posts.push((a, Some(-q), "BTC".into(), format!(" @ {}", num(p))));
                posts.push((e, Some(q * p), String::new(), String::new()));
            }
            14 if !self.m.envs.is_empty() => {
                // spending where an envelope watches, and a manual movement somewhere
                let w: Vec<_> = self.m.envs.iter().filter(|e| !e.fors.is_empty()).cloned().collect();
                let e = self.r.pick(&self.m.envs).clone();
                let v = money(self.r, 120) * if self.r.pct(60) { -1.0 } else { 1.0 };
                env_posts.push(format!("envelope {} {}  {}", e.account, e.name, amt(self.r, v, &e.sym)));
                if !w.is_empty() {
                    let f = self.r.pick(&w).clone();
                    let exp = self.r.pick(&f.fors).clone();
                    posts.push((f.account, Some(-x), f.sym.clone(), String::new()));
                    posts.push((exp, Some(x), f.sym, String::new()));
                }
            }
            10 | 11 => {
                // several postings on an envelope's expense accounts, or several payers
                let (a, fors, s) = match self.m.envs.iter().filter(|e| !e.fors.is_empty()).collect::<Vec<_>>() {
                    v if !v.is_empty() => {
                        let v2: Vec<_> = v.iter().filter(|e| e.fors.len() > 1).cloned().collect();
                        let e = if !v2.is_empty() { self.r.pick(&v2) } else { self.r.pick(&v) };
                        (e.account.clone(), e.fors.clone(), e.sym.clone())
                    }
                    _ => (asset.clone(), vec![exp.clone()], sym.clone()),
                };
                let sign = if self.r.pct(35) { -1.0 } else { 1.0 };
                let mut total = 0.0;
                for i in 0..self.r.range(1, 3) {
                    let f = fors[i as usize % fors.len()].clone();
                    let y = money(self.r, 80) * if self.r.pct(15) { -1.0 } else { 1.0 } * sign;
                    posts.push((f, Some(y), s.clone(), String::new()));
                    total += y;
                }
                match self.r.below(4) {
                    0 => {
                        // paid from two accounts
                        let b = self.r.pick(&self.m.assets).clone();
                        posts.push((a, Some(-total - x), s.clone(), String::new()));
                        posts.push((b, Some(x), s, String::new()));
                    }
                    1 => {
                        // and something else with it
                        posts.push((a, Some(-total - x), s.clone(), String::new()));
                        posts.push((exp, Some(x), s, String::new()));
                    }
                    2 => {
                        // in two parts
                        posts.push((a.clone(), Some(-total - x), s.clone(), String::new()));
                        posts.push((a, Some(x), s, String::new()));
                    }
                    _ => posts.push((a, Some(-total), s, String::new())),
                }
            }
            12 => {
                // native money, something priced in it, and the rest
                let q = self.r.range(1, 400) as f64 / 100.0 * if self.r.pct(30) { -1.0 } else { 1.0 };
                let p = self.r.range(1, 50) as f64;
                let b = self.r.pick(&self.m.assets).clone();
                let tail = if self.r.pct(70) { format!(" @ {}", num(p)) } else { format!(" = {}", num(p * q)) };
                posts.push((b, Some(q), "BTC".into(), tail));
                posts.push((exp.clone(), Some(x), String::new(), String::new()));
                if self.r.pct(60) {
                    posts.push((asset, None, String::new(), String::new()));
                } else {
                    posts.push((asset, Some(-x - p * q), String::new(), String::new()));
                }
            }
            13 => {
                // large amounts
                let big = self.r.range(1, 40_000) as f64 * *self.r.pick(&[1000.0, 2500.5, 100_000.0]);
                posts.push((asset, Some(big), sym.clone(), String::new()));
                posts.push(("income:salary".into(), Some(-big), sym, String::new()));
            }
            9 => {
                posts.push((asset, Some(0.0), sym.clone(), String::new()));
                posts.push((exp, Some(0.0), sym, String::new()));
            }
            _ => {
                // manual envelope movements, with or without a transaction
                if !self.m.envs.is_empty() {
                    for _ in 0..self.r.range(1, 2) {
                        let e = self.r.pick(&self.m.envs).clone();
                        let v = money(self.r, 120) * if self.r.pct(35) { -1.0 } else { 1.0 };
                        env_posts.push(format!("envelope {} {}  {}", e.account, e.name, amt(self.r, v, &e.sym)));
                        if posts.is_empty() && self.r.pct(60) {
                            posts.push((e.account.clone(), Some(-v), e.sym.clone(), String::new()));
                            posts.push((exp.clone(), Some(v), e.sym.clone(), String::new()));
                        }
                    }
                } else {
                    posts.push((asset, Some(x), sym.clone(), String::new()));
                    posts.push((exp, Some(-x), sym, String::new()));
                }
            }
        }
        if self.r.pct(5) {
            // and something in another currency: a transfer or a payment
            let s = self.r.pick(&["EUR", "", "BTC", "$"]).to_string();
            let z = money(self.r, 90);
            let a = self.r.pick(&self.m.assets).clone();
            let b = if self.r.pct(60) { self.r.pick(&self.m.assets).clone() } else { self.r.pick(&self.m.others).clone() };
            posts.push((a, Some(z), s.clone(), String::new()));
            posts.push((b, Some(-z), s, String::new()));
        }
        if posts.len() >= 2 && posts.iter().all(|p| p.1.is_some()) && self.r.pct(self.o.blanks) {
            let i = self.r.below(posts.len() as u64) as usize;
            posts[i].1 = None;
            posts[i].3.clear();
        }
        if self.r.pct(40) {
            self.r.shuffle(&mut posts);
        }
        let desc = if self.r.pct(10) { text(self.r) } else { self.r.pick(&WORDS).to_string() };
        let status = *self.r.pick(&['*', '~', '?']);
        let mut head = format!("{} {status} {desc}", self.date(date));
        if self.r.pct(25) {
            let p = if self.r.pct(10) { text(self.r) } else { self.r.pick(&PAYEES).to_string() };
            head.push_str(&format!(" [{p}]"));
        }
        head.push_str(&self.trail());
        let mut lines = vec![];
        for (a, v, s, t) in posts {
            let tr = self.trail();
            let ind = self.indent();
            let bal = if v.is_some() && self.r.pct(4) { format!(" ! {}", num(money(self.r, 50))) } else { String::new() };
            match v {
                Some(v) => {
                    let am = amt(self.r, v, &s);
                    lines.push(format!("{ind}{a}  {am}{t}{bal}{tr}"));
                }
                None => lines.push(format!("{ind}{a}{tr}")),
            }
        }
        for e in env_posts {
            let ind = self.indent();
            let at = self.r.below(lines.len() as u64 + 1) as usize;
            lines.insert(at, format!("{ind}{e}"));
        }
        if self.m.noise && self.r.pct(20) {
            let at = self.r.below(lines.len() as u64 + 1) as usize;
            lines.insert(at, "    // remark".into());
        }
        format!("{head}\n{}", lines.join("\n"))
    }

    pub fn entry_date(&mut self) -> Day {
        if self.r.pct(1) {
            self.m.base + self.r.range(-40_000, 40_000)
        } else if self.r.pct(self.o.future) {
            self.m.base + self.r.range(0, 25)
        } else if self.r.pct(20) {
            self.m.base
        } else {
            self.m.base - self.r.range(0, self.o.back)
        }
    }

    /// Money to start with, so that there is something to move.
    pub fn opening(&mut self) -> Vec<String> {
        let mut v = vec![];
        let d = self.m.base - self.o.back - 1;
        let mut posts = vec![];
        for a in self.m.assets.clone() {
            for s in self.m.syms.clone() {
                let need: f64 = self.m.envs.iter().filter(|e| e.account == a && e.sym == s).map(|e| e.amount).sum();
                let x = if self.r.pct(self.o.rich) {
                    (need * 3.0).ceil() + 500.0
                } else {
                    match self.r.below(5) {
                        0 => 0.0,
                        1 => -20.0,
                        2 => (need / 2.0).ceil(),
                        3 => 0.07,
                        _ => need,
                    }
                };
                if x != 0.0 {
                    posts.push((a.clone(), x, s));
                }
            }
        }
        for (a, x, s) in posts {
            let p = format!("{} * opening\n    {a}  {}\n    equity:opening  {}", self.date(d), amt(self.r, x, &s), amt(self.r, -x, &s));
            if self.m.j.add_text(&Disk::default(), "", &p, 0).is_ok() {
                v.push(p);
            }
        }
        v
    }

    /// The whole world: journal with its includes, and things that must not be touched.
    pub fn world(&mut self) -> World {
        let mut chunks = self.accounts();
        chunks.extend(self.opening());
        let n = self.r.range(self.o.entries.0, self.o.entries.1);
        let mut dates: Vec<Day> = (0..n).map(|_| self.entry_date()).collect();
        if n > 0 && self.r.pct(4) {
            // many entries on few days
            let few: Vec<Day> = dates.iter().take(3).copied().collect();
            let n = if self.r.pct(15) { self.r.range(150, 350) } else { self.r.range(20, 45) };
            for _ in 0..n {
                let d = *self.r.pick(&few);
                dates.push(d);
            }
        }
        if !self.r.pct(self.o.unordered) {
            dates.sort();
        }
        let switch = self.r.pct(self.o.formats / 4);
        for d in dates {
            if switch && self.r.pct(25) {
                self.m.fmt = self.r.pick(&["%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%d-%b-%Y", "%F"]).to_string();
                let c = format!("date_format {}", self.m.fmt);
                let _ = self.m.j.add_text(&Disk::default(), "", &c, 0);
                chunks.push(c);
            }
            if let Some(e) = self.entry(d) {
                let e = if self.r.pct(70) { format!("\n{e}") } else { e };
                chunks.push(e);
            }
        }
        if self.m.noise {
            for _ in 0..self.r.below(3) {
                let at = self.r.below(chunks.len() as u64 + 1) as usize;
                chunks.insert(at, self.r.pick(&["// a comment line", "; another", "", "   ", "  // indented remark"]).to_string());
            }
        }
        let mut w = World { main: self.m.main.clone(), ..Default::default() };
        if self.r.pct(self.o.includes) {
            self.split(&mut w, chunks, "/home/u/money/main.sfox", 0);
        } else {
            w.files.push(FileSpec::new("/home/u/money/main.sfox", chunks));
        }
        if w.files.len() > 1 && self.r.pct(20) {
            self.repeat(&mut w);
        }
        if w.files.len() < 6 && self.r.pct(1) && self.r.pct(self.o.includes) {
            // many files, one after the other
            let f = w.files.iter_mut().find(|f| f.path == self.m.main).unwrap();
            let at = self.r.below(f.chunks.len() as u64 + 1) as usize;
            f.chunks.insert(at, vec!["include nothing.sfox"; self.r.range(95, 130) as usize].join("\n"));
            w.files.push(FileSpec::new("/home/u/money/nothing.sfox", vec!["// nothing".into()]));
        }
        for f in w.files.iter_mut() {
            f.crlf = self.r.pct(8);
            f.no_final_newline = self.r.pct(15);
            if self.r.pct(6) {
                f.chunks.push(self.r.pick(&["", "\n\n", "\n\n\n\n\n\n", "   ", "\t", "; the end", "// the end\n", "    ; the end", " \n \n"]).to_string());
            }
        }
        if self.r.pct(self.o.bystanders) {
            w.files.push(FileSpec::new("/home/u/money/notes.txt", vec!["do not touch".into()]));
            w.files.push(FileSpec::new("/home/u/main.sfox", vec!["// another journal".into(), "account assets:decoy".into()]));
            w.files.push(FileSpec::new("/tmp/x", vec!["tmp".into()]));
        }
        w
    }

    /// Includes a file of entries a second time.
    fn repeat(&mut self, w: &mut World) {
        let entry = |c: &String| c.trim_start().starts_with(|c: char| c.is_ascii_digit());
        let plain: Vec<String> = w.files.iter().filter(|f| !f.chunks.is_empty() && f.chunks.iter().all(entry)).map(|f| f.path.clone()).collect();
        let mut w2 = w.clone();
        for f in w2.files.iter_mut() {
            let dir = f.path[..f.path.rfind('/').unwrap()].to_string();
            let at = f.chunks.iter().position(|c| {
                let Some(rel) = c.strip_prefix("include ") else { return false };
                let full = if rel.starts_with('/') { rel.to_string() } else { format!("{dir}/{rel}") };
                let mut parts: Vec<&str> = vec![];
                for c in full.split('/') {
                    match c {
                        "" | "." => {}
                        ".." => {
                            parts.pop();
                        }
                        c => parts.push(c),
                    }
                }
                plain.contains(&format!("/{}", parts.join("/")))
            });
            if let Some(i) = at {
                let c = f.chunks[i].clone();
                let j = i + self.r.below((f.chunks.len() - i) as u64 + 1) as usize;
                f.chunks.insert(j, c);
                break;
            }
        }
        if let Ok(j) = Journal::load(&w2.disk(), &w2.main) {
            self.m.j = j;
            *w = w2;
        }
    }

    /// Moves runs of chunks to included files, which read in the same order.
    fn split(&mut self, w: &mut World, mut chunks: Vec<String>, path: &str, depth: u32) {
        let dir = path[..path.rfind('/').unwrap()].to_string();
        let cands: [(&str, &str); 5] =
            [("accounts.sfox", ""), ("sub/a.sfox", "/sub"), ("../shared/b.sfox", ""), ("./c.sfox", ""), ("deep/er/d.sfox", "")];
        for _ in 0..self.r.range(1, 2) {
            if chunks.len() < 2 || w.files.len() > 4 {
                break;
            }
            let a = self.r.below(chunks.len() as u64) as usize;
            let b = (a + 1 + self.r.below(4) as usize).min(chunks.len());
            let rel = self.r.pick(&cands).0;
            let mut d = Disk::default();
            d.mkdirs(&dir);
            // normal form of the included path
            let mut parts: Vec<&str> = dir.split('/').filter(|c| !c.is_empty()).collect();
            for c in rel.split('/') {
                match c {
                    "." => {}
                    ".." => {
                        parts.pop();
                    }
                    c => parts.push(c),
                }
            }
            let full = format!("/{}", parts.join("/"));
            if full == path || full == self.m.main || w.files.iter().any(|f| f.path == full) || chunks.iter().any(|c| c.contains(rel)) {
                continue;
            }
            let moved: Vec<String> = chunks.drain(a..b).collect();
            let inc = if self.r.pct(10) { format!("include {full}") } else { format!("include {rel}") };
            chunks.insert(a, inc);
            // reserve the name before going deeper
            w.files.push(FileSpec::new(&full, vec![]));
            let at = w.files.len() - 1;
            if depth < 2 && moved.len() > 2 && self.r.pct(40) {
                let mut sub = World { main: w.main.clone(), files: w.files.clone(), ..Default::default() };
                self.split(&mut sub, moved, &full, depth + 1);
                w.files = sub.files;
            } else {
                w.files[at].chunks = moved;
            }
        }
        match w.files.iter_mut().find(|f| f.path == path) {
            Some(f) => f.chunks = chunks,
            None => w.files.push(FileSpec::new(path, chunks)),
        }
    }

    pub fn tz(&mut self) -> i32 {
        *self.r.pick(&TZS)
    }

    /// A run of `sub` on the given local day.
    pub fn run(&mut self, sub: &str, day: Day) -> RunSpec {
        let tz = self.tz();
        self.run_tz(sub, day, tz)
    }
    pub fn run_tz(&mut self, sub: &str, day: Day, tz: i32) -> RunSpec {
        let r = &mut self.r;
        let sod = match r.below(4) {
            0 => r.range(0, 3),
            1 => 86_399 - r.range(0, 3),
            _ => r.range(0, 86_399),
        };
        let name = match (sub, r.below(3)) {
            ("b", 0) => "balance",
            ("b", 1) => "bal",
            ("e", 0) => "envelopes",
            ("r", 0) => "register",
            ("i", 0) => "import",
            (s, _) => s,
        };
        let f = *r.pick(&["-f", "--file"]);
        let mut spec = RunSpec {
            args: vec![name.into(), f.into(), self.m.main.clone()],
            env: vec![],
            cwd: r.pick(&["/home/u", "/home/u/money", "/"]).to_string(),
            utc: (day * 86_400 + sod - tz as i64 * 60).max(0),
            tz,
            tz_text: None,
            entropy: r.next(),
            tty: *r.pick(&[80, 100, 132, 200]),
            tick_ns: *r.pick(&[0, 1_000, 1_000_000]),
            jump: None,
            faults: vec![],
            late: false,
        };
        if r.pct(7) {
            // the clock is set, or midnight passes, while the run is going on
            let day = 86_400_000_000_000i64;
            let at = if r.pct(60) { r.range(1, 8) } else { r.range(1, 300) };
            spec.jump = Some((at as u32, *r.pick(&[day, day, day, -day, 2 * day, 40 * day, -40 * day, 400 * day])));
        }
        if r.pct(6) {
            // a zone with summer time; at 18:00 UTC its date is the UTC date
            spec.tz = -300;
            spec.tz_text = Some("EST5EDT,M3.2.0,M11.1.0".into());
            spec.utc = day * 86_400 + 18 * 3600;
        } else if r.pct(5) {
            spec.tz = 0;
            spec.tz_text = Some(String::new()); // $TZ unset, no /etc/localtime
            spec.utc = day * 86_400 + sod;
        }
        if sub == "r" && spec.tty == 0 {
            spec.tty = 80;
        }
        spec
    }
    pub fn no_move(&mut self, mut s: RunSpec) -> RunSpec {
        let f = self.r.pick(&["-n", "--no-move"]).to_string();
        let at = if self.r.pct(50) { 1 } else { s.args.len() };
        s.args.insert(at, f);
        s
    }

    /// Days on which something happens for some envelope.
    pub fn telling_day(&mut self) -> Day {
        // clocks before 1970 are left out, and the simulated one ends in 2262
        self.telling().clamp(cal::day(1971, 1, 1), cal::day(2255, 1, 1))
    }
    fn telling(&mut self) -> Day {
        let b = self.m.base;
        let evs: Vec<(Freq, Option<Day>)> = self.m.j.accounts.iter().flat_map(|a| a.envs.iter()).map(|e| (e.freq.clone(), e.starting)).collect();
        if !evs.is_empty() && self.r.pct(60) {
            let (f, s) = self.r.pick(&evs).clone();
            let from = b + self.r.range(-40, 40);
            if let Some(n) = if self.r.pct(70) { f.next_due(from, s) } else { s.or(f.last_due(from, s)) } {
                return n + self.r.range(-1, 1);
            }
        }
        if self.r.pct(30) {
            return pick_base(self.r, (cal::civil(b).0 - 1, cal::civil(b).0 + 2));
        }
        b + self.r.range(-5, 40)
    }
}

// ---- imports ---------------------------------------------------------------------

pub struct Import {
    pub csv: FileSpec,
    pub rules: FileSpec,
    pub extra: Vec<FileSpec>,
    pub rows: Vec<ExpEntry>,
    pub first: usize,
    pub fields: Vec<String>,
    pub cells: Vec<Vec<String>>,
    pub two: bool,
}

pub fn csv_cell(r: &mut Rng, s: &str) -> String {
    if s.contains([',', '"', '\n']) || r.pct(10) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

/// Puts the values of a row into a template: once, from left to right.
pub fn inject(t: &str, vars: &[(&str, &str)]) -> String {
    let mut out = String::new();
    let mut rest = t;
    'next: while let Some(i) = rest.find('%') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        if let Some(r) = rest.strip_prefix("%%") {
            out.push('%');
            rest = r;
            continue;
        }
        for (k, v) in vars {
            if let Some(r) = rest.strip_prefix(&format!("%{k}%")) {
                out.push_str(v);
                rest = r;
                continue 'next;
            }
        }
        out.push('%');
        rest = &rest[1..];
    }
    out.push_str(rest);
    out
}

/// A CSV file, rules for it, and what they have to give.  All accounts used
/// are declared in the journal.
pub fn import(g: &mut Gen, csv_path: &str, rules_path: &str, nrows: (i64, i64), touch_envs: bool) -> Import {
    let r = &mut *g.r;
    let asset = if r.pct(70) { g.m.assets[0].clone() } else { r.pick(&g.m.assets).clone() };
    let expenses: Vec<String> = g.m.others.clone();
    let mut cfmt = r.pick(&["%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%d %b %Y", "%Y%m%d", "%b %d, %Y"]).to_string();
    let dec = if r.pct(25) {
        ','
    } else if r.pct(4) {
        '\u{b7}'
    } else {
        '.'
    };
    let skip = if r.pct(5) { r.range(4, 12) as usize } else { *r.pick(&[1usize, 1, 1, 0, 2, 3]) };
    let has_cur = r.pct(25);
    let has_price = has_cur && r.pct(50);
    let total_price = has_price && r.pct(30);
    let has_payee = r.pct(40);
    let has_status = r.pct(25);
    let two = r.pct(55); // second account given by the rules
    let second_amount = two && r.pct(35);
    let third = two && !has_cur && r.pct(20);
    let acct_field = !two && r.pct(30);
    let sym = r.pick(&g.m.syms).clone();
    // an unpriced row in another currency cannot be applied to a native envelope, so keep to the journal's symbols
    let numbered = r.pct(40);
    let date_parts = r.pct(12);
    let extra_cols = if r.pct(12) { *r.pick(&[1, 1, 1, 2, 5, 20]) } else { 0 };
    // what a column is called is up to the rules
    let oname = if r.pct(85) { "other" } else { *r.pick(&["memo", "ref no", "Other", "o", "descriptio", "note-1", "caf\u{e9}", "Amount", "date_posted", "amount2", "the text that the bank prints in the last column"]) };

    let mut fields = if date_parts { vec!["day", "month", "year", "description", "amount"] } else { vec!["date", "description", "amount"] };
    if has_cur {
        fields.push("currency");
    }
    if has_price {
        fields.push("price");
    }
    if has_payee {
        fields.push("who");
    }
    if has_status {
        fields.push("status");
    }
    if acct_field {
        fields.push("account");
    }
    fields.push(oname);
    // the first three may come in any order
    if r.pct(40) {
        r.shuffle(&mut fields);
    }
    let mut rules: Vec<String> = vec![];
    rules.push(format!("fields {}", fields.join(if r.pct(50) { ", " } else { "," })));
    if date_parts {
        let (t, f) = *r.pick(&[("%year%/%month%/%day%", "%Y/%m/%d"), ("%day%.%month%.%year%", "%d.%m.%Y"), ("%month% %day% %year%", "%m %d %Y")]);
        rules.push(format!("date {t}"));
        cfmt = f.into();
    }
    if cfmt != "%Y/%m/%d" || r.pct(20) {
        rules.push(format!("date_format {cfmt}"));
    }
    if skip != 1 || r.pct(30) {
        rules.push(format!("skip {skip}"));
    } else if r.pct(10) {
        rules.push("skip 7".into());
        rules.push("skip -".into());
    }
    if dec != '.' {
        rules.push(format!("{} {dec}", r.pick(&["decimal_symbol", "decimal"])));
    } else if r.pct(10) {
        rules.push("decimal_symbol ,".into());
        rules.push(r.pick(&["decimal_symbol -", "decimal ."]).to_string());
    }
    let amount_tpl = if has_price {
        format!("%amount% %currency% {} %price%", if total_price { '=' } else { '@' })
    } else if has_cur {
        "%amount% %currency%".to_string()
    } else if sym.is_empty() {
        "%amount%".to_string()
    } else if sym == "$" && !second_amount && r.pct(40) {
        "$%amount%".to_string()
    } else {
        format!("%amount% {sym}")
    };
    let (k1, k2) = if numbered { ("1", "2") } else { ("", "2") };
    let mut acc2 = String::new();
    if !acct_field || numbered {
        rules.push(format!("account{k1} {}", if acct_field { "%account%" } else { asset.as_str() }));
        rules.push(format!("amount{k1} {amount_tpl}"));
    } else if amount_tpl != "%amount%" {
        rules.push(format!("amount {amount_tpl}"));
    }
    let mut extras: Vec<(String, String, f64)> = vec![];
    let fee = r.range(1, 900) as f64 / 100.0;
    if two {
        acc2 = r.pick(&expenses).clone();
        rules.push(format!("account{k2} {acc2}"));
        if second_amount {
            // the same amount with the sign turned by a double negative
            rules.push(format!("amount{k2} -{amount_tpl}"));
        }
        if third {
            // more postings with amounts of their own
            extras.push(("3".into(), r.pick(&expenses).clone(), fee));
            if r.pct(25) {
                let n = *r.pick(&[1, 2, 4, 9]);
                for k in 0..n {
                    let i = if r.pct(90) { format!("{}", k + 5) } else { r.pick(&["03", "-fee", "_tax", "100", "a", "3a", "1000000000000"]).to_string() };
                    if extras.iter().all(|e| e.0 != i) {
                        // sometimes the same posting once more
                        let e = match extras.last() {
                            Some(e) if r.pct(20) => (e.1.clone(), e.2),
                            _ => (r.pick(&expenses).clone(), r.range(-900, 900) as f64 / 100.0),
                        };
                        extras.push((i, e.0, e.1));
                    }
                }
            }
            for (i, a, v) in &extras {
                rules.push(format!("account{i} {a}"));
                rules.push(format!("amount{i} {} {sym}", num(*v).replace('.', &dec.to_string())));
            }
            if r.pct(15) {
                rules.push("amount4 77".into());
                rules.push("amount4 -".into());
            }
        } else if r.pct(10) {
            rules.push("account9 nosuch:account".into());
            rules.push("account9 -".into());
        }
    }
    let desc_tpl = match r.below(6) {
        0 => "Bank: %description% (%other%)",
        1 => "%description%, 5%% of %amount% on %other%",
        2 if r.pct(20) => "%description%%other%%% %%%amount% 100% %nothing%",
        2 if r.pct(20) => "%description%/%nothing%/%amount%",
        _ => "%description%",
    };
    let named = |t: &str| t.replace("%other%", &format!("%{oname}%"));
    let desc_tpl = named(desc_tpl);
    let desc_tpl = desc_tpl.as_str();
    if desc_tpl != "%description%" {
        rules.push(format!("description {desc_tpl}"));
    } else if r.pct(8) {
        rules.push("description something else".into());
        rules.push("description -".into());
    }
    let payee_tpl = if r.pct(25) {
        "%who% & co"
    } else if r.pct(5) {
        "%who%, to be found in the second building on the left of the street behind the station"
    } else {
        "%who%"
    };
    if has_payee {
        rules.push(format!("payee {payee_tpl}"));
    } else if r.pct(8) {
        rules.push("payee nobody".into());
        rules.push("payee -".into());
    }
    let comment_tpl = if r.pct(40) { Some(named("%other% 100%% imported")) } else { None };
    let comment_tpl = comment_tpl.as_deref();
    if let Some(c) = comment_tpl {
        rules.push(format!("{} {c}", r.pick(&["comment", "note"])));
    } else if r.pct(8) {
        rules.push("comment not this".into());
        rules.push(r.pick(&["comment -", "note -"]).to_string());
    }
    let mut base_status = '~';
    if has_status {
        rules.push("status %status%".into());
    } else if r.pct(30) {
        base_status = *r.pick(&['*', '?']);
        rules.push(format!("status {base_status}"));
    } else if r.pct(10) {
        rules.push("status *".into());
        rules.push("status -".into());
    }
    // conditional blocks: (patterns, account override, payee override, comment override, status override)
    #[derive(Default)]
    struct Sub {
        pats: Vec<String>,
        acc1: Option<String>,
        fee: Option<(usize, f64)>,
        acc2: Option<Option<String>>,
        payee: Option<Option<String>>,
        comment: Option<Option<String>>,
        status: Option<char>,
        desc: Option<Option<String>>,
        fmt: Option<String>,
        dec: Option<char>,
    }
    let mut subs: Vec<Sub> = vec![];
    let most = if r.pct(6) { 12 } else { 4 };
    for _ in 0..r.below(most) {
        let mut pats: Vec<String> = vec![];
        let np = if r.pct(8) { r.range(4, 9) } else { r.range(1, 3) };
        for _ in 0..np {
            // with many patterns, most of them are those of shops this file doesn't have
            let p = *r.pick(&["alpha", "BETA", "gamma ray", "coffee", "caf\u{c9}", "ref 00", "77"]);
            pats.push(if np > 3 && r.pct(70) { format!("shop no. {}", r.below(90)) } else { p.to_string() });
        }
        let mut s = Sub { pats, ..Default::default() };
        if two && r.pct(60) {
            s.acc2 = Some(if !third && r.pct(15) { None } else { Some(r.pick(&expenses).clone()) });
        }
        if r.pct(40) {
            s.payee = Some(if r.pct(25) { None } else { Some(named(r.pick(&["Ferris", "The Crab Co", "%other% x"]))) });
        }
        if r.pct(40) {
            s.comment = Some(if r.pct(30) { None } else { Some(r.pick(&["special case", "was %description%"]).to_string()) });
        }
        if !has_status && r.pct(25) {
            s.status = Some(*r.pick(&['*', '?', '~']));
        }
        if r.pct(20) {
            s.desc = Some(if r.pct(30) { None } else { Some(named(r.pick(&["fixed text", "%other% %description%"]))) });
        }
        if !acct_field && r.pct(8) {
            s.acc1 = Some(r.pick(&g.m.assets).clone());
        }
        if third && r.pct(20) {
            s.fee = Some((r.below(extras.len() as u64) as usize, r.range(-900, 900) as f64 / 100.0));
        }
        if !g.o.plain_rules && !date_parts && r.pct(15) {
            s.fmt = Some(r.pick(&["%Y/%m/%d", "%d.%m.%Y", "%m-%d-%Y"]).to_string());
        }
        if !g.o.plain_rules && !third && r.pct(15) {
            s.dec = Some(*r.pick(&['.', ',']));
        }
        if s.acc2.is_none() && s.payee.is_none() && s.comment.is_none() && s.status.is_none() && s.desc.is_none() && s.fmt.is_none() && s.dec.is_none() && s.acc1.is_none() && s.fee.is_none() {
            s.comment = Some(Some("matched".into()));
        }
        subs.push(s);
    }
    let mut blocks: Vec<String> = vec![];
    let mut extra: Vec<FileSpec> = vec![];
    for s in &subs {
        let mut t = format!("if {}", s.pats[0]);
        if s.pats.len() > 1 && r.pct(30) {
            t = format!("if\n{}", s.pats[0]);
        }
        for p in &s.pats[1..] {
            t.push_str(&format!("\n{p}"));
        }
        let ind = *r.pick(&["    ", "  ", "\t"]);
        let mut ls = vec![];
        match &s.acc2 {
            Some(Some(a)) => ls.push(format!("account{k2} {a}")),
            Some(None) => {
                ls.push(format!("account{k2} -"));
                if r.pct(50) {
                    ls.push(format!("amount{k2} -"));
                }
            }
            None => {}
        }
        if let Some(a) = &s.acc1 {
            ls.push(format!("account{k1} {a}"));
        }
        if let Some((i, v)) = &s.fee {
            ls.push(format!("amount{} {} {sym}", extras[*i].0, num(*v).replace('.', &dec.to_string())));
        }
        if let Some(p) = &s.payee {
            ls.push(format!("payee {}", p.as_deref().unwrap_or("-")));
        }
        if let Some(c) = &s.comment {
            ls.push(format!("comment {}", c.as_deref().unwrap_or("-")));
        }
        if let Some(c) = s.status {
            ls.push(format!("status {}", if c == '~' && r.pct(50) { '-' } else { c }));
        }
        if let Some(d) = &s.desc {
            ls.push(format!("description {}", d.as_deref().unwrap_or("-")));
        }
        if let Some(f) = &s.fmt {
            ls.push(format!("date_format {}", if f == "%Y/%m/%d" && r.pct(50) { "-" } else { f }));
        }
        if let Some(c) = s.dec {
            ls.push(format!("decimal_symbol {c}"));
        }
        r.shuffle(&mut ls);
        if r.pct(5) {
            // what to do lives in a file of its own
            let p = format!("/home/u/money/common-if{}.rules", extra.len());
            extra.push(FileSpec::new(&p, ls));
            ls = vec![format!("{} {p}", r.pick(&["include", "use"]))];
        }
        for l in ls {
            t.push_str(&format!("\n{ind}{l}"));
        }
        if r.pct(15) {
            t.push_str("\n\n");
        }
        blocks.push(t);
    }
    if r.pct(1) {
        // many files, none inside of another
        for _ in 0..r.range(100, 130) {
            rules.push("include /home/u/money/nothing.rules".into());
        }
    }
    if r.pct(15) && rules.len() > 3 {
        // part of the rules live in an included file
        let k = r.range(1, rules.len() as i64 - 1) as usize;
        let mut rest = rules.split_off(k);
        if r.pct(30) {
            // and part of these in another, one inside of the other
            let mut inner = rest.split_off(r.below(rest.len() as u64) as usize);
            if r.pct(40) {
                let k = r.below(inner.len() as u64) as usize;
                extra.push(FileSpec::new("/home/u/money/common3.rules", inner.split_off(k)));
                inner.push("include /home/u/money/common3.rules".into());
            }
            extra.push(FileSpec::new("/home/u/money/common2.rules", inner));
            rest.push("use /home/u/money/common2.rules".into());
        }
        if !g.o.plain_rules && r.pct(40) {
            let k = r.below(blocks.len() as u64 + 1) as usize;
            rest.extend(blocks.drain(..k));
        }
        let p = "/home/u/money/common.rules";
        extra.push(FileSpec::new(p, rest));
        rules.push(format!("{} {p}", r.pick(&["include", "use"])));
    }
    if r.pct(30) {
        rules.insert(0, "// rules".into());
        rules.push(String::new());
    }
    rules.extend(blocks);

    // rows
    let n = r.range(nrows.0, nrows.1);
    let mut chunks: Vec<String> = vec![];
    for i in 0..skip {
        let mut v: Vec<&str> = if i == 0 { fields.clone() } else { fields.iter().map(|_| "skipped").collect() };
        for _ in 0..extra_cols {
            v.push("unnamed");
        }
        chunks.push(v.join(","));
    }
    let first = chunks.len();
    let mut rows = vec![];
    let mut all_cells: Vec<Vec<String>> = vec![];
    let mut tries = 0;
    while (rows.len() as i64) < n && tries < 60 + 2 * n {
        tries += 1;
        let date = g.m.base + if r.pct(15) { r.range(0, 10) } else { -r.range(0, 40) };
        let v = {
            let x = match r.below(8) {
                0 => r.range(1, 5000) as f64,
                1 => r.range(1, 9) as f64 / 1000.0,
                2 => 0.0,
                3 => r.range(1, 99_999_999) as f64 / 1e8,
                4 if !has_price => r.range(1, 999_999_999) as f64 / 100.0,
                _ => r.range(1, 99_999) as f64 / 100.0,
            };
            if r.pct(60) { -x } else { x }
        };
        let cur = if has_cur {
            if has_price { r.pick(&["BTC", "ETH"]).to_string() } else { sym.clone() }
        } else {
            sym.clone()
        };
        let price = r.range(1, 30_000) as f64 / 4.0;
        let desc = r
            .pick(&[
                "Coffee shop", "transfer 77", "Café Zoë", "alpha centauri", "He said \"hi\"", "a, b and c", "50 off", "beta-test", "x", "100% off", "5% of %amount%", "%other%", "90%% x", "two  spaces",
                "tab\there", "line\nbreak", " lead and trail ", "", "%", "= 5 @ 3 !", "* starred", "if alpha", "- dash", "Refund of shoes", "REFUND", "Transfer to savings", "payment thank you", "interest", "ATM withdrawal",
                "# 12", "#", "'quoted'", "back\\slash", "semi-colon", "\u{a0}nbsp\u{a0}", "a description so long that it does not fit in one column of any table anyone would want to print",
            ])
            .to_string();
        let desc = if nrows.0 >= 100 {
            format!("{desc} {}", "and so on ".repeat(24))
        } else if r.pct(10) {
            text(r)
        } else {
            desc
        };
        let other = r.pick(&["", "alpha", "Gamma Ray burst", "ref 0012", "z", "7%", "%description%", "over\ntwo lines", "é", "cAFÉ"]).to_string();
        let who = r.pick(&["Bob", "Shop, Ltd.", "Zoë", "100%", "%who%", "J.\tDoe"]).to_string();
        let st = *r.pick(&['~', '*', '?']);
        let acct = if r.pct(70) { asset.clone() } else { r.pick(&g.m.assets).clone() };
        let (yy, mm, dd) = cal::civil(date);
        // which block applies decides how numbers and dates have to be written, and they are
        // part of the text blocks are chosen by: write them once without, once with that knowledge
        let group = r.pct(40);
        let num_text = |v: f64, dec: char| {
            let t = num(v).replace('.', &dec.to_string());
            if v.abs() >= 1000.0 && group {
                let sep = if dec == ',' { '.' } else { ',' };
                let (neg, d) = t.strip_prefix('-').map_or(("", t.as_str()), |x| ("-", x));
                let (a, b) = d.split_at(d.find(dec).unwrap_or(d.len()));
                let (h, l) = a.split_at(a.len() - 3);
                format!("{neg}{h}{sep}{l}{b}")
            } else {
                t
            }
        };
        let make = |fmt: &str, dec: char| -> Vec<String> {
            let mut c: Vec<String> = fields
                .iter()
                .map(|f| match *f {
                    "date" => cal::format(date, fmt),
                    "day" => format!("{dd:02}"),
                    "month" => format!("{mm:02}"),
                    "year" => format!("{yy}"),
                    "description" => desc.clone(),
                    "amount" => num_text(v, dec),
                    "currency" => cur.clone(),
                    "price" => num_text(price, dec),
                    "who" => who.clone(),
                    "status" => st.to_string(),
                    "account" => acct.clone(),
                    _ => other.clone(),
                })
                .collect();
            for _ in 0..extra_cols {
                c.push("more".into());
            }
            c
        };
        // a block applies if one of its patterns is in one of the cells
        let hit_of = |cells: &[String]| -> Option<usize> {
            subs.iter().position(|s| s.pats.iter().any(|p| cells.iter().any(|c| c.to_lowercase().contains(&p.to_lowercase()))))
        };
        let cells0 = make(&cfmt, dec);
        let h0 = hit_of(&cells0);
        let hit = h0.map(|i| &subs[i]);
        let fmt = hit.and_then(|s| s.fmt.clone()).unwrap_or(cfmt.clone());
        let rdec = hit.and_then(|s| s.dec).unwrap_or(dec);
        let cells = make(&fmt, rdec);
        // not where it would depend on how cells are put together
        let glued = cells.concat().to_lowercase();
        let hg = subs.iter().position(|s| s.pats.iter().any(|p| glued.contains(&p.to_lowercase())));
        if hit_of(&cells) != h0 || hg != h0 {
            continue;
        }
        let a1 = if acct_field { acct.clone() } else { hit.and_then(|s| s.acc1.clone()).unwrap_or(asset.clone()) };
        let pr = |b: bool| b.then(|| (price, String::new()));
        let mut postings = vec![ExpPosting { account: a1, amt: Some((v, cur.clone())), price: pr(has_price), total: total_price }];
        let acc2_now = match hit.and_then(|s| s.acc2.clone()) {
            Some(x) => x,
            None => two.then(|| acc2.clone()),
        };
        if let Some(a2) = acc2_now {
            postings.push(ExpPosting {
                account: a2,
                amt: second_amount.then(|| (-v, cur.clone())),
                price: pr(second_amount && has_price),
                total: total_price,
            });
            for (i, (_, a, v)) in extras.iter().enumerate() {
                let v = hit.and_then(|s| s.fee).filter(|f| f.0 == i).map_or(*v, |f| f.1);
                postings.push(ExpPosting { account: a.clone(), amt: Some((v, sym.clone())), price: None, total: false });
            }
        } else {
            let u = if v < 0.0 {
                "expenses:unknown"
            } else if v > 0.0 {
                "income:unknown"
            } else {
                "unknown"
            };
            postings.push(ExpPosting { account: u.into(), amt: None, price: None, total: false });
        }
        if postings.iter().any(|p| !g.m.assets.contains(&p.account) && !g.m.others.contains(&p.account)) {
            continue;
        }
        let vars: Vec<(&str, &str)> = fields.iter().zip(&cells).map(|(f, c)| (*f, c.as_str())).collect();
        let fill = |t: &str| inject(t, &vars);
        let payee = match hit.and_then(|s| s.payee.clone()) {
            Some(p) => p.map(|p| fill(&p)),
            None => has_payee.then(|| fill(payee_tpl)),
        };
        let comment = match hit.and_then(|s| s.comment.clone()) {
            Some(c) => c.map(|c| fill(&c)),
            None => comment_tpl.map(fill),
        };
        let desc_now = match hit.and_then(|s| s.desc.clone()) {
            Some(Some(d)) => fill(&d),
            Some(None) => fill("%description%"),
            None => fill(desc_tpl),
        };
        let status = hit.and_then(|s| s.status).unwrap_or(if has_status { st } else { base_status });
        let e = ExpEntry { date, status, desc: desc_now, payee, comment, postings };
        // keep only what a journal can hold
        let txt = exp_text(&e, &g.m.fmt);
        if g.m.j.add_text(&Disk::default(), "", &txt, 0).is_err() {
            continue;
        }
        if !touch_envs {
            let last = g.m.j.entries.last().unwrap().clone();
            if g.m.j.accounts.iter().any(|a| a.envs.iter().any(|d| !last.effects(&a.name, d).unwrap_or_default().is_empty())) {
                g.m.j.entries.pop();
                continue;
            }
        }
        let mut text = cells.iter().map(|c| csv_cell(r, c)).collect::<Vec<_>>().join(",");
        if r.pct(5) {
            text.push('\n');
        }
        chunks.push(text);
        all_cells.push(cells);
        rows.push(e);
        if (rows.len() as i64) < n && r.pct(6) && g.m.j.add_text(&Disk::default(), "", &txt, 0).is_ok() {
            // the same once more
            chunks.push(chunks.last().unwrap().clone());
            all_cells.push(all_cells.last().unwrap().clone());
            rows.push(rows.last().unwrap().clone());
        }
    }
    // blanks between a rule and its value, and after it, are free
    if r.pct(25) {
        let mut space = |v: &mut Vec<String>| {
            for c in v.iter_mut() {
                let ls: Vec<String> = c
                    .split('\n')
                    .map(|l| {
                        if l.trim().is_empty() || l.trim_start().starts_with("//") {
                            return l.to_string();
                        }
                        let ind = &l[..l.len() - l.trim_start().len()];
                        // patterns may have blanks in them: only the end of such lines is free
                        let rule = !ind.is_empty() || !c.starts_with("if") || l.starts_with("if ");
                        let mut t = l.trim_start().to_string();
                        if rule && r.pct(30) {
                            t = t.replacen(' ', r.pick(&["  ", "\t", " \t "]), 1);
                        }
                        if r.pct(30) {
                            t.push_str(r.pick(&[" ", "  // remark", "\t; if x", "   ", " // a ; b", " ; a // b"]));
                        }
                        format!("{ind}{t}")
                    })
                    .collect();
                *c = ls.join("\n");
            }
        };
        space(&mut rules);
        for x in extra.iter_mut() {
            space(&mut x.chunks);
        }
    }
    let mut csv = FileSpec::new(csv_path, chunks);
    csv.no_final_newline = r.pct(20);
    csv.crlf = r.pct(10);
    let mut rules = FileSpec::new(rules_path, rules);
    rules.no_final_newline = r.pct(20);
    rules.crlf = r.pct(8);
    Import { csv, rules, extra, rows, first, fields: fields.iter().map(|f| f.to_string()).collect(), cells: all_cells, two }
}

pub fn exp_text(e: &ExpEntry, fmt: &str) -> String {
    let mut s = format!("{} {} {}", cal::format(e.date, fmt), e.status, e.desc.split_whitespace().collect::<Vec<_>>().join(" "));
    for p in &e.postings {
        s.push_str(&format!("\n    {}", p.account));
        if let Some((v, c)) = &p.amt {
            s.push_str(&format!("  {}{}", num(*v), c));
        }
        if let Some((v, c)) = &p.price {
            s.push_str(&format!(" {} {}{}", if p.total { '=' } else { '@' }, num(*v), c));
        }
    }
    s
}

/// Names of the parts of a date nobody would mix up: used to check generated entries.
pub fn readable(w: &World) -> bool {
    model::Journal::load(&w.disk(), &w.main).is_ok()
}
