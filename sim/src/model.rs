//! Reference model: what a journal text means.  Written from the README and
//! the property texts; shares no code with silverfox.
use crate::cal::{self, Day, Freq};
use crate::machine::{Disk, Node};
use std::collections::BTreeMap;

pub type Sym = String; // "" = native
pub type Pool = BTreeMap<Sym, f64>;

pub const TOL: f64 = 5e-8;
/// what is written is nil below this
pub const NIL: f64 = 6e-9;
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= TOL + 1e-11 * a.abs().max(b.abs())
}
/// Equal to the last of the eight decimals that are written.
pub fn exact(a: f64, b: f64) -> bool {
    (a - b).abs() <= 8e-9 + 1e-11 * a.abs().max(b.abs())
}
/// `a` is more than `b`, by more than half of the last digit that is written.
pub fn above(a: f64, b: f64, scale: f64) -> bool {
    a > b + 6e-9 + 1e-13 * scale
}
pub fn pool_near(a: &Pool, b: &Pool) -> bool {
    let g = |p: &Pool, k: &str| p.get(k).copied().unwrap_or(0.0);
    a.keys().chain(b.keys()).all(|k| near(g(a, k), g(b, k)))
}
pub fn pool_exact(a: &Pool, b: &Pool) -> bool {
    let g = |p: &Pool, k: &str| p.get(k).copied().unwrap_or(0.0);
    a.keys().chain(b.keys()).all(|k| exact(g(a, k), g(b, k)))
}
pub fn pool_str(p: &Pool) -> String {
    p.iter().map(|(k, v)| format!("{v}{k}")).collect::<Vec<_>>().join(" ")
}

#[derive(Clone, Debug, PartialEq)]
pub struct Amt {
    pub mag: f64,
    pub sym: Sym,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cost {
    Unit(Amt),
    Total(Amt),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Posting {
    pub account: String,
    /// set for envelope postings
    pub envelope: Option<String>,
    pub amt: Option<Amt>,
    pub cost: Option<Cost>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub date: Day,
    pub status: char,
    pub desc: String,
    pub payee: Option<String>,
    pub comment: Option<String>,
    pub postings: Vec<Posting>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Funding {
    Manual,
    Conservative,
    Aggressive,
}

#[derive(Clone, Debug)]
pub struct EnvDef {
    pub name: String,
    pub goal: bool,
    pub amount: Amt,
    pub fors: Vec<String>,
    pub freq: Freq,
    pub starting: Option<Day>,
    pub funding: Funding,
}

impl EnvDef {
    pub fn next_due(&self, t: Day) -> Option<Day> {
        self.freq.next_due(t, self.starting)
    }
}

#[derive(Clone, Debug)]
pub struct Account {
    pub name: String,
    pub envs: Vec<EnvDef>,
    /// how many entries preceded the definition
    pub since: usize,
}

#[derive(Clone, Debug)]
pub struct Journal {
    pub accounts: Vec<Account>,
    pub entries: Vec<Entry>,
    pub date_format: String,
}

#[derive(Clone, Debug, Default)]
pub struct EnvState {
    pub now: f64,
    pub next: f64,
    pub touched: bool,
}

#[derive(Clone, Debug)]
pub struct AccState {
    pub real: Pool,
    pub envs: Vec<EnvState>,
}

pub type Res<T> = Result<T, String>;

// ---- reading ----------------------------------------------------------------

pub fn strip_comment(s: &str) -> &str {
    let cut = [s.find("//"), s.find(';')].into_iter().flatten().min();
    match cut {
        Some(i) => &s[..i],
        None => s,
    }
}

pub fn parse_amt(s: &str) -> Res<Amt> {
    let s = s.replace("--", "");
    let n = s.split_whitespace().count();
    if n == 0 || n > 2 {
        return Err(format!("amount `{s}`"));
    }
    let num: String = s.chars().filter(|c| c.is_ascii_digit() || *c == '.' || *c == '-').collect();
    let sym: String = s
        .chars()
        .filter(|c| !(c.is_ascii_digit() || *c == '.' || *c == '-' || *c == ',' || c.is_whitespace()))
        .collect();
    let mag = num.parse::<f64>().map_err(|_| format!("amount `{s}`"))?;
    Ok(Amt { mag, sym })
}

fn parse_posting(line: &str) -> Res<Posting> {
    let toks: Vec<&str> = line.split_whitespace().collect();
    if toks.is_empty() {
        return Err("empty posting".into());
    }
    if toks[0] == "envelope" {
        if toks.len() < 4 {
            return Err(format!("envelope posting `{line}`"));
        }
        return Ok(Posting {
            account: toks[1].into(),
            envelope: Some(toks[2].into()),
            amt: Some(parse_amt(&toks[3..].concat())?),
            cost: None,
        });
    }
    let is_op = |t: &&str| matches!(*t, "@" | "=" | "!" | "!!");
    let part = |op: &str| -> Option<String> {
        let i = toks.iter().position(|t| *t == op)?;
        let rest = &toks[i + 1..];
        let e = rest.iter().position(is_op).unwrap_or(rest.len());
        Some(rest[..e].join(" "))
    };
    let e = toks[1..].iter().position(is_op).map_or(toks.len(), |i| i + 1);
    let raw = toks[1..e].join(" ");
    let amt = if raw.is_empty() { None } else { Some(parse_amt(&raw)?) };
    let cost = if let Some(c) = part("@") {
        Some(Cost::Unit(parse_amt(&c)?))
    } else if let Some(c) = part("=") {
        Some(Cost::Total(parse_amt(&c)?))
    } else {
        None
    };
    if let Some(b) = part("!") {
        parse_amt(&b)?;
    }
    Ok(Posting { account: toks[0].into(), envelope: None, amt, cost })
}

fn parse_freq(s: &str, fmt: &str, starting: Option<Day>) -> Res<Freq> {
    let wd = |w: &str| -> Option<i64> {
        let w = w.to_lowercase();
        let days = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"];
        days.iter().position(|d| *d == w || d[..3] == w).map(|x| x as i64)
    };
    let dom = |w: &str| -> Option<i64> {
        let n: String = w.chars().filter(|c| c.is_ascii_digit()).collect();
        n.parse().ok()
    };
    if let Some(w) = s.strip_prefix("every other ") {
        let st = starting.ok_or("starting required")?;
        if wd(w).is_some() {
            Ok(Freq::Biweekly(st))
        } else if dom(w).is_some() {
            Ok(Freq::Bimonthly(st))
        } else {
            Err(format!("frequency `{s}`"))
        }
    } else if let Some(w) = s.strip_prefix("every ") {
        if let Some(d) = wd(w) {
            Ok(Freq::Weekly(d))
        } else if let Some(d) = dom(w) {
            Ok(Freq::Monthly(d))
        } else if w == "year" {
            Ok(Freq::Annually(starting.ok_or("starting required")?))
        } else {
            Err(format!("frequency `{s}`"))
        }
    } else {
        cal::parse(s, fmt).map(Freq::Once).ok_or(format!("due date `{s}`"))
    }
}

fn parse_account(lines: &[String], fmt: &str, since: usize) -> Res<Account> {
    let head: Vec<&str> = lines[0].split_whitespace().collect();
    if head.len() != 2 {
        return Err("account header".into());
    }
    let mut acc = Account { name: head[1].to_string(), envs: vec![], since };
    for l in &lines[1..] {
        let t: Vec<&str> = l.split_whitespace().collect();
        match t[0] {
            "expense" | "goal" => {
                let full = t.join(" ");
                let (h, starting) = match full.find(" starting ") {
                    Some(i) => {
                        let d = cal::parse(&full[i + 10..], fmt).ok_or("starting date")?;
                        (&full[..i], Some(d))
                    }
                    None => (full.as_str(), None),
                };
                let freq = if h.contains("no date") {
                    Freq::Never
                } else if let Some(i) = h.rfind(" by ") {
                    parse_freq(&h[i + 4..], fmt, starting)?
                } else if let Some(i) = h.rfind(" due ") {
                    parse_freq(&h[i + 5..], fmt, starting)?
                } else {
                    return Err("no due date".into());
                };
                acc.envs.push(EnvDef {
                    name: t.get(1).ok_or("envelope name")?.to_string(),
                    goal: t[0] == "goal",
                    amount: Amt { mag: 0.0, sym: String::new() },
                    fors: vec![],
                    freq,
                    starting,
                    funding: Funding::Manual,
                });
            }
            key => {
                let e = acc.envs.last_mut().ok_or("property outside an envelope")?;
                if t.len() < 2 {
                    return Err("blank property".into());
                }
                match key {
                    "amount" => e.amount = parse_amt(&t[1..].join(" "))?,
                    "for" if t.len() > 2 => return Err("for".into()),
                    "for" => e.fors.push(t[1].to_string()),
                    "funding" => {
                        e.funding = match t[1..].join(" ").as_str() {
                            "manual" => Funding::Manual,
                            "conservative" => Funding::Conservative,
                            "aggressive" => Funding::Aggressive,
                            _ => return Err("funding".into()),
                        }
                    }
                    _ => return Err(format!("property {key}")),
                }
            }
        }
    }
    // the shown order is expenses before goals
    acc.envs.sort_by_key(|e| e.goal);
    Ok(acc)
}

pub fn parse_entry(lines: &[String], comment: Option<String>, fmt: &str) -> Res<Entry> {
    let head: Vec<&str> = lines[0].split_whitespace().collect();
    let date = cal::parse(head[0], fmt).ok_or(format!("date `{}`", head[0]))?;
    let status = match head.get(1) {
        Some(&"?") => '?',
        Some(&"~") => '~',
        Some(&"*") => '*',
        _ => return Err(format!("status in `{}`", lines[0])),
    };
    let dp = head[2..].join(" ");
    let (desc, payee) = match dp.find('[') {
        Some(i) => {
            let j = dp.rfind(']').filter(|&j| j > i).ok_or("payee bracket")?;
            (dp[..i].trim().to_string(), Some(dp[i + 1..j].trim().to_string()))
        }
        None => (dp, None),
    };
    let mut postings = vec![];
    for l in &lines[1..] {
        postings.push(parse_posting(l)?);
    }
    Ok(Entry { date, status, desc, payee, comment, postings })
}

impl Posting {
    fn native(&self) -> Option<f64> {
        let a = self.amt.as_ref()?;
        if a.sym.is_empty() {
            return Some(a.mag);
        }
        match self.cost.as_ref()? {
            Cost::Unit(c) if c.sym.is_empty() => Some(a.mag * c.mag),
            Cost::Total(c) if c.sym.is_empty() => Some(c.mag),
            _ => None,
        }
    }
}

impl Entry {
    pub fn has_envelopes(&self) -> bool {
        self.postings.iter().any(|p| p.envelope.is_some())
    }
    pub fn blank(&self) -> Res<Option<Amt>> {
        let classic: Vec<&Posting> = self.postings.iter().filter(|p| p.envelope.is_none()).collect();
        match classic.iter().filter(|p| p.amt.is_none()).count() {
            0 => return Ok(None),
            1 => {}
            _ => return Err("two blanks".into()),
        }
        let full: Vec<&&Posting> = classic.iter().filter(|p| p.amt.is_some()).collect();
        let sym0 = match full.first() {
            Some(p) => p.amt.as_ref().unwrap().sym.clone(),
            None => return Err("nothing to infer from".into()),
        };
        let mut named: Vec<&str> = self.postings.iter().filter_map(|p| p.amt.as_ref()).map(|a| a.sym.as_str()).filter(|s| !s.is_empty()).collect();
        named.sort();
        named.dedup();
        if named.len() > 1 {
            return Err("blank with mixed currencies".into());
        }
        if full.iter().all(|p| p.amt.as_ref().unwrap().sym == sym0) {
            let s: f64 = full.iter().map(|p| p.amt.as_ref().unwrap().mag).sum();
            return Ok(Some(Amt { mag: -s, sym: sym0 }));
        }
        let mut t = 0.0;
        for p in full {
            t -= p.native().ok_or("no native price")?;
        }
        Ok(Some(Amt { mag: t, sym: String::new() }))
    }
    /// The classic postings with the blank filled in.
    pub fn real(&self) -> Res<Vec<(&str, Amt)>> {
        let b = self.blank()?;
        Ok(self
            .postings
            .iter()
            .filter(|p| p.envelope.is_none())
            .map(|p| (p.account.as_str(), p.amt.clone().or_else(|| b.clone()).unwrap()))
            .collect())
    }
    fn check(&self, accounts: &[Account]) -> Res<()> {
        for p in &self.postings {
            if p.envelope.is_none() && !accounts.iter().any(|a| a.name == p.account) {
                return Err(format!("account {} not defined", p.account));
            }
        }
        self.blank()?;
        Ok(())
    }
    /// What this entry does to an envelope, as a list of applied amounts.
    pub fn effects(&self, acc: &str, e: &EnvDef) -> Res<Vec<f64>> {
        if self.has_envelopes() {
            let mut v = vec![];
            for p in &self.postings {
                if p.envelope.as_deref() == Some(e.name.as_str()) && p.account == acc {
                    let a = p.amt.as_ref().unwrap();
                    if a.sym != e.amount.sym {
                        return Err("envelope currency".into());
                    }
                    v.push(a.mag);
                }
            }
            return Ok(v);
        }
        let own = self.postings.iter().filter(|p| p.account == acc).count();
        let auto = self.postings.iter().filter(|p| p.account != acc && e.fors.contains(&p.account)).count();
        if own == 0 || auto == 0 {
            return Ok(vec![]);
        }
        let b = self.blank()?;
        let (mut so, mut sa) = (0.0, 0.0);
        for p in &self.postings {
            let a = p.amt.clone().or_else(|| b.clone()).unwrap();
            let mut mag = a.mag;
            if a.sym != e.amount.sym {
                if !e.amount.sym.is_empty() {
                    return Err("cannot convert".into());
                }
                mag = p.native().ok_or("cannot convert")?;
            }
            if p.account == acc {
                so += mag;
            } else if e.fors.contains(&p.account) {
                sa += mag;
            }
        }
        let m = f64::min(so.abs(), sa.abs());
        if m <= 1e-9 {
            return Ok(vec![]);
        }
        Ok(vec![if so < 0.0 { -m } else { m }])
    }
}

impl Journal {
    pub fn blank() -> Journal {
        Journal { accounts: vec![], entries: vec![], date_format: "%Y/%m/%d".into() }
    }
    pub fn load(disk: &Disk, path: &str) -> Res<Journal> {
        let mut j = Journal::blank();
        j.add_file(disk, path, 0)?;
        Ok(j)
    }
    fn add_file(&mut self, disk: &Disk, path: &str, depth: u32) -> Res<()> {
        if depth > 16 {
            return Err("include depth".into());
        }
        let real = disk.resolve("/", path).ok_or(format!("no file {path}"))?;
        let text = disk.text(&real).ok_or(format!("cannot read {path}"))?.to_string();
        let dir = path[..path.rfind('/').unwrap_or(0)].to_string();
        self.add_text(disk, &dir, &text, depth)
    }
    /// Reads more text after what is already there.
    pub fn add_text(&mut self, disk: &Disk, dir: &str, text: &str, depth: u32) -> Res<()> {
        let mut chunk: Vec<String> = vec![];
        let mut comment = None;
        for raw in text.lines() {
            let line = strip_comment(raw).trim_end();
            if line.is_empty() {
                continue;
            }
            if line.starts_with(char::is_whitespace) {
                if chunk.is_empty() {
                    // an indented line before anything else starts a chunk of its own
                    chunk.push(String::new());
                }
                chunk.push(line.to_string());
            } else {
                self.chunk(disk, dir, &chunk, comment.take(), depth)?;
                chunk = vec![line.to_string()];
                comment = (strip_comment(raw).len() < raw.len())
                    .then(|| raw[strip_comment(raw).len()..].trim_start_matches(['/', ';']).trim().to_string());
            }
        }
        self.chunk(disk, dir, &chunk, comment, depth)
    }
    fn chunk(&mut self, disk: &Disk, dir: &str, lines: &[String], comment: Option<String>, depth: u32) -> Res<()> {
        if lines.is_empty() {
            return Ok(());
        }
        let mut w = lines.iter().flat_map(|l| l.split_whitespace());
        let key = w.next().unwrap_or("");
        let val = w.next();
        match key {
            "" => Ok(()),
            "account" => {
                let a = parse_account(lines, &self.date_format, self.entries.len())?;
                if self.accounts.iter().any(|b| b.name == a.name) {
                    return Err("account defined twice".into());
                }
                let mut names: Vec<&str> = a.envs.iter().map(|e| e.name.as_str()).collect();
                names.sort();
                names.dedup();
                if names.len() != a.envs.len() {
                    return Err("envelope defined twice".into());
                }
                self.accounts.push(a);
                Ok(())
            }
            "currency" => val.map(|_| ()).ok_or("currency".into()),
            "date_format" => {
                self.date_format = val.ok_or("date_format")?.to_string();
                Ok(())
            }
            "include" => {
                let f = val.ok_or("include")?;
                let p = if f.starts_with('/') { f.to_string() } else { format!("{dir}/{f}") };
                self.add_file(disk, &p, depth + 1)
            }
            _ => {
                if lines[0].is_empty() {
                    return Err("text before the first entry".into());
                }
                let e = parse_entry(lines, comment, &self.date_format)?;
                e.check(&self.accounts)?;
                for a in &self.accounts {
                    for v in &a.envs {
                        e.effects(&a.name, v)?;
                    }
                }
                self.entries.push(e);
                Ok(())
            }
        }
    }

    pub fn state(&self, t: Day) -> BTreeMap<String, AccState> {
        let mut out = BTreeMap::new();
        for a in &self.accounts {
            let mut st = AccState { real: Pool::new(), envs: vec![EnvState::default(); a.envs.len()] };
            for e in self.entries.iter().skip(a.since) {
                for (n, v) in e.real().unwrap_or_default() {
                    if n == a.name {
                        *st.real.entry(v.sym).or_insert(0.0) += v.mag;
                    }
                }
                for (i, d) in a.envs.iter().enumerate() {
                    for m in e.effects(&a.name, d).unwrap_or_default() {
                        let s = &mut st.envs[i];
                        if m < 0.0 {
                            s.now += m;
                        } else if d.freq.last_due(t, d.starting).is_some_and(|l| e.date < l) {
                            s.now += m;
                        } else {
                            s.next += m;
                        }
                        if e.date == t {
                            s.touched = true;
                        }
                    }
                }
            }
            out.insert(a.name.clone(), st);
        }
        out
    }

    pub fn balances(&self) -> BTreeMap<String, Pool> {
        let mut out: BTreeMap<String, Pool> = BTreeMap::new();
        for e in &self.entries {
            for (n, v) in e.real().unwrap_or_default() {
                *out.entry(n.to_string()).or_default().entry(v.sym).or_insert(0.0) += v.mag;
            }
        }
        out
    }

    pub fn account(&self, name: &str) -> Option<&Account> {
        self.accounts.iter().find(|a| a.name == name)
    }
}

pub fn available(a: &Account, s: &AccState) -> Pool {
    let mut p = s.real.clone();
    for (d, e) in a.envs.iter().zip(&s.envs) {
        *p.entry(d.amount.sym.clone()).or_insert(0.0) -= e.now + e.next;
    }
    p
}

/// What an envelope asks for today, whatever is available.
pub fn desired(d: &EnvDef, s: &EnvState, t: Day) -> f64 {
    if s.touched || d.funding == Funding::Manual {
        return 0.0;
    }
    let Some(due) = d.next_due(t) else { return 0.0 };
    let rem = d.amount.mag - s.next;
    if rem <= 0.0 {
        return 0.0;
    }
    match d.funding {
        Funding::Manual => 0.0,
        Funding::Aggressive => rem.min(d.amount.mag),
        Funding::Conservative => rem / (due - t) as f64,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RegLine {
    pub date: String,
    pub status: char,
    pub desc: String,
    pub from: String,
    pub to: String,
    /// change and running total per currency; changes that are nil are left out
    pub amounts: BTreeMap<Sym, (f64, f64)>,
}

impl Journal {
    /// The lines, and the entries (date, description) that change nothing but may seem to in the
    /// last digits.
    pub fn register(&self) -> Option<(Vec<RegLine>, Vec<(String, String)>)> {
        let mut es: Vec<&Entry> = self.entries.iter().collect();
        es.sort_by_key(|e| e.date);
        let mut run = Pool::new();
        let mut out = vec![];
        let mut crumbs = vec![];
        let mut vague = false;
        for e in es {
            let mut per: BTreeMap<Sym, u32> = BTreeMap::new();
            let (mut pos, mut neg) = (vec![], vec![]);
            let mut ch = Pool::new();
            for (n, v) in e.real().unwrap_or_default() {
                if v.mag > 0.0 {
                    pos.push(n);
                } else if v.mag < 0.0 {
                    neg.push(n);
                }
                if n.starts_with("asset") {
                    *per.entry(v.sym.clone()).or_default() += 1;
                    *ch.entry(v.sym).or_insert(0.0) += v.mag;
                }
            }
            let name = |v: &mut Vec<&str>| {
                v.sort();
                v.dedup();
                match v.len() {
                    0 => "(none)".to_string(),
                    1 => v[0].to_string(),
                    _ => "(multiple)".to_string(),
                }
            };
            let mut amounts = BTreeMap::new();
            for (s, v) in &ch {
                let r = run.entry(s.clone()).or_insert(0.0);
                *r += v;
                // a fraction of the last digit: it may be shown as nil or not
                if v.abs() < 2e-8 && (v * 1e8 - (v * 1e8).round()).abs() > 0.01 {
                    vague = true;
                }
                if v.abs() > NIL {
                    amounts.insert(s.clone(), (*v, *r));
                }
            }
            if amounts.is_empty() {
                if per.values().any(|n| *n > 2) || e.postings.iter().filter(|p| p.envelope.is_none()).count() > 2 {
                    crumbs.push((cal::format(e.date, &self.date_format).replace(" ", ""), e.desc.clone()));
                }
                continue;
            }
            out.push(RegLine {
                date: cal::format(e.date, &self.date_format),
                status: e.status,
                desc: e.desc.clone(),
                from: name(&mut neg),
                to: name(&mut pos),
                amounts,
            });
        }
        if vague { None } else { Some((out, crumbs)) }
    }
}

// ---- paths --------------------------------------------------------------------

impl Disk {
    /// Follows `path` from `cwd` through symbolic links to a normal absolute path.
    pub fn resolve(&self, cwd: &str, path: &str) -> Option<String> {
        let mut todo: Vec<String> = path.split('/').rev().map(|s| s.to_string()).collect();
        let mut cur = if path.starts_with('/') { String::new() } else { cwd.trim_end_matches('/').to_string() };
        let mut links = 0;
        while let Some(c) = todo.pop() {
            match c.as_str() {
                "" | "." => {}
                ".." => {
                    cur.truncate(cur.rfind('/').unwrap_or(0));
                }
                c => {
                    let p = format!("{cur}/{c}");
                    match self.nodes.get(&p)? {
                        Node::Link(t) => {
                            links += 1;
                            if links > 8 {
                                return None;
                            }
                            if t.starts_with('/') {
                                cur = String::new();
                            }
                            todo.extend(t.split('/').rev().map(|s| s.to_string()));
                        }
                        _ => cur = p,
                    }
                }
            }
        }
        Some(cur)
    }
}
