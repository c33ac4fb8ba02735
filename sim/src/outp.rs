//! Readers for what silverfox prints.
use crate::cal::{self, Day};
use crate::model::{Pool, RegLine};
use std::collections::BTreeMap;

/// An amount as silverfox shows it: `$ 5`, `$-5`, ` 5 USD`, `-5`.
pub fn amount(s: &str) -> Option<(f64, String)> {
    let num: String = s.chars().filter(|c| c.is_ascii_digit() || *c == '.' || *c == '-' || *c == '+').collect();
    let sym: String = s.chars().filter(|c| !(c.is_ascii_digit() || *c == '.' || *c == '-' || *c == '+' || c.is_whitespace())).collect();
    Some((num.parse().ok()?, sym))
}

pub fn balance(out: &str) -> Option<BTreeMap<String, Pool>> {
    let mut m: BTreeMap<String, Pool> = BTreeMap::new();
    let mut cur = String::new();
    for l in out.lines() {
        if l.trim().is_empty() {
            continue;
        }
        if l.starts_with(char::is_whitespace) {
            let (v, s) = amount(l)?;
            let p = m.get_mut(&cur)?;
            if p.insert(s, v).is_some() {
                return None;
            }
        } else {
            let name = l.split_whitespace().next()?.to_string();
            let rest = l[name.len()..].trim();
            let mut p = Pool::new();
            if !rest.is_empty() {
                let (v, s) = amount(rest)?;
                p.insert(s, v);
            }
            if m.insert(name.clone(), p).is_some() {
                return None;
            }
            cur = name;
        }
    }
    Some(m)
}

#[derive(Clone, Debug, Default)]
pub struct EnvOut {
    pub name: String,
    pub now: f64,
    pub next: f64,
    pub goal: f64,
    pub sym: String,
    pub due: Option<Day>,
    /// filled and all cells of the bars, now and next
    pub bars: [(usize, usize); 2],
}
#[derive(Clone, Debug, Default)]
pub struct AccOut {
    pub available: Pool,
    pub envs: Vec<EnvOut>,
}

pub fn envelopes(out: &str) -> Option<BTreeMap<String, AccOut>> {
    let mut m: BTreeMap<String, AccOut> = BTreeMap::new();
    let mut acc = String::new();
    let mut section = String::new();
    for l in out.lines() {
        if l.trim().is_empty() {
            continue;
        }
        let ind = l.len() - l.trim_start().len();
        let t = l.trim();
        match ind {
            0 => {
                acc = t.to_string();
                if m.insert(acc.clone(), AccOut::default()).is_some() {
                    return None;
                }
            }
            2 => section = t.to_string(),
            _ => {
                let a = m.get_mut(&acc)?;
                if section == "available" {
                    let (v, s) = amount(t)?;
                    if a.available.insert(s, v).is_some() {
                        return None;
                    }
                } else if ind == 4 {
                    a.envs.push(EnvOut { name: t.to_string(), ..Default::default() });
                } else {
                    let e = a.envs.last_mut()?;
                    let body = &t[..t.find('|')?];
                    let bar = t[body.len()..].strip_prefix('|')?.strip_suffix('|')?;
                    let bar = (bar.chars().filter(|c| !c.is_whitespace()).count(), bar.chars().count());
                    let (is_next, rest) = if let Some(r) = body.strip_prefix("now") {
                        (false, r)
                    } else {
                        (true, body.strip_prefix("next")?)
                    };
                    let rest = rest.trim();
                    let rest = match rest.strip_prefix("(on ") {
                        Some(r) => {
                            let i = r.find(')')?;
                            e.due = Some(cal::parse(&r[..i], "%Y-%m-%d")?);
                            &r[i + 1..]
                        }
                        None => rest,
                    };
                    let (x, y) = rest.split_once(" / ")?;
                    let (v, s) = amount(x)?;
                    let (g, s2) = amount(y)?;
                    if s != s2 {
                        return None;
                    }
                    e.goal = g;
                    e.bars[is_next as usize] = bar;
                    e.sym = s;
                    if is_next {
                        e.next = v;
                    } else {
                        e.now = v;
                    }
                }
            }
        }
    }
    Some(m)
}

/// Takes amounts off a list of words.
fn amounts(words: &[&str]) -> Option<Vec<(f64, String)>> {
    let is_num = |w: &str| w.parse::<f64>().is_ok();
    let mut v = vec![];
    let mut i = 0;
    while i < words.len() {
        let w = words[i];
        if is_num(w) {
            if i + 1 < words.len() && words[i + 1].len() > 2 && !words[i + 1].chars().any(|c| c.is_ascii_digit()) {
                v.push((w.parse().ok()?, words[i + 1].to_string()));
                i += 2;
            } else {
                v.push((w.parse().ok()?, String::new()));
                i += 1;
            }
        } else if w.chars().any(|c| c.is_ascii_digit()) {
            v.push(amount(w)?);
            i += 1;
        } else {
            let n = words.get(i + 1)?;
            v.push((n.parse().ok()?, w.to_string()));
            i += 2;
        }
    }
    Some(v)
}

/// Register lines; changes that are nil are left out of them, as in the model.
pub fn register(out: &str) -> Option<Vec<RegLine>> {
    let mut v: Vec<RegLine> = vec![];
    for l in out.lines() {
        if l.trim().is_empty() {
            continue;
        }
        let words: Vec<&str>;
        if let Some(i) = l.rfind(" -> ") {
            let mut left: Vec<&str> = l[..i].split_whitespace().collect();
            // a day padded with a blank ("03/ 7/2026")
            let joined;
            if left.len() > 1 && left[0].ends_with(['/', '-', '.']) {
                joined = format!("{}{}", left[0], left[1]);
                left.splice(0..2, [joined.as_str()]);
            }
            if left.len() < 3 {
                return None;
            }
            let right: Vec<&str> = l[i + 4..].split_whitespace().collect();
            v.push(RegLine {
                date: left[0].to_string(),
                status: left[1].chars().next()?,
                desc: left[2..left.len() - 1].join(" "),
                from: left[left.len() - 1].to_string(),
                to: right.first()?.to_string(),
                amounts: BTreeMap::new(),
            });
            words = right[1..].to_vec();
        } else {
            words = l.split_whitespace().collect();
        }
        let a = amounts(&words)?;
        if a.len() != 2 || a[0].1 != a[1].1 {
            return None;
        }
        v.last_mut()?.amounts.insert(a[0].1.clone(), (a[0].0, a[1].0));
    }
    for r in v.iter_mut() {
        r.amounts.retain(|_, (c, _)| c.abs() > crate::model::NIL);
    }
    Some(v)
}
