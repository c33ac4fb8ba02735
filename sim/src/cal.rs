//! Calendar arithmetic, written from the calendar and not from the code under
//! test.  A date is a day number; day 0 is 1970-01-01.
pub type Day = i64;

pub fn day(y: i64, m: i64, d: i64) -> Day {
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}
pub fn civil(z: Day) -> (i64, i64, i64) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z - era * 146_097;
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// 0 = Monday
pub fn weekday(d: Day) -> i64 {
    (d + 3).rem_euclid(7)
}
/// The given day of the month, or the last one if the month is shorter;
/// `m` counts months from January (0) and may run outside 0..12.
pub fn clamped(y: i64, m: i64, d: i64) -> Day {
    let y = y + m.div_euclid(12);
    let m = m.rem_euclid(12) + 1;
    day(y, m, d.min(month_len(y, m)))
}

const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

pub fn format(d: Day, f: &str) -> String {
    let (y, m, dd) = civil(d);
    let mut out = String::new();
    let mut it = f.chars();
    while let Some(c) = it.next() {
        if c != '%' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('Y') => out.push_str(&format!("{y:04}")),
            Some('m') => out.push_str(&format!("{m:02}")),
            Some('d') => out.push_str(&format!("{dd:02}")),
            Some('e') => out.push_str(&format!("{dd:2}")),
            Some('y') => out.push_str(&format!("{:02}", y.rem_euclid(100))),
            Some('b') => out.push_str(MON[m as usize - 1]),
            Some('F') => out.push_str(&format!("{y:04}-{m:02}-{dd:02}")),
            _ => {}
        }
    }
    out
}

pub fn parse(s: &str, f: &str) -> Option<Day> {
    let b: Vec<char> = s.chars().collect();
    let f = f.replace("%F", "%Y-%m-%d");
    let mut p = 0;
    let (mut y, mut m, mut d) = (None, None, None);
    let mut it = f.chars();
    let num = |p: &mut usize, max: usize| -> Option<i64> {
        let st = *p;
        let mut v = 0i64;
        while *p < b.len() && *p - st < max && b[*p].is_ascii_digit() {
            v = v * 10 + b[*p].to_digit(10)? as i64;
            *p += 1;
        }
        (*p > st).then_some(v)
    };
    while let Some(c) = it.next() {
        if c != '%' {
            if b.get(p) != Some(&c) {
                return None;
            }
            p += 1;
            continue;
        }
        match it.next()? {
            'Y' => y = Some(num(&mut p, 4)?),
            'm' => m = Some(num(&mut p, 2)?),
            'd' | 'e' => d = Some(num(&mut p, 2)?),
            'y' => {
                let v = num(&mut p, 2)?;
                y = Some(if v < 70 { 2000 + v } else { 1900 + v });
            }
            'b' => {
                let w: String = b.iter().skip(p).take(3).collect();
                m = Some(MON.iter().position(|x| *x == w)? as i64 + 1);
                p += 3;
            }
            _ => return None,
        }
    }
    let (y, m, d) = (y?, m?, d?);
    if p != b.len() || !(1..=12).contains(&m) || d < 1 || d > month_len(y, m) {
        return None;
    }
    Some(day(y, m, d))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Freq {
    Never,
    Once(Day),
    Weekly(i64),
    Biweekly(Day),
    Monthly(i64),
    Bimonthly(Day),
    Annually(Day),
}

impl Freq {
    /// The dates of the schedule around `t`: every scheduled date from about
    /// two periods before to two periods after it.
    fn around(&self, t: Day) -> Vec<Day> {
        let (y, m, _) = civil(t);
        match *self {
            Freq::Never => vec![],
            Freq::Once(d) => vec![d],
            Freq::Weekly(w) => (t - 15..=t + 15).filter(|&d| weekday(d) == w).collect(),
            Freq::Biweekly(s) => (t - 30..=t + 30).filter(|&d| (d - s).rem_euclid(14) == 0).collect(),
            Freq::Monthly(dom) => (-3..=3).map(|k| clamped(y, m - 1 + k, dom)).collect(),
            Freq::Bimonthly(s) => {
                let (sy, sm, sd) = civil(s);
                (-5..=5)
                    .map(|k| (y, m - 1 + k))
                    .filter(|&(yy, mm)| ((yy - sy) * 12 + mm - (sm - 1)).rem_euclid(2) == 0)
                    .map(|(yy, mm)| clamped(yy, mm, sd))
                    .collect()
            }
            Freq::Annually(s) => {
                let (_, sm, sd) = civil(s);
                (-3..=3).map(|k| clamped(y + k, sm - 1, sd)).collect()
            }
        }
    }
    fn start(&self) -> Option<Day> {
        match *self {
            Freq::Biweekly(s) | Freq::Bimonthly(s) | Freq::Annually(s) => Some(s),
            _ => None,
        }
    }
    /// First scheduled date after `t` and not before the starting date.
    pub fn next_due(&self, t: Day, starting: Option<Day>) -> Option<Day> {
        let s = starting.or(self.start());
        let from = match s {
            Some(s) if s > t => s - 1,
            _ => t,
        };
        self.around(from).into_iter().filter(|&d| d > from).min()
    }
    /// Most recent scheduled date up to and including `t`, not before the starting date.
    pub fn last_due(&self, t: Day, starting: Option<Day>) -> Option<Day> {
        let s = starting.or(self.start());
        self.around(t).into_iter().filter(|&d| d <= t && s.is_none_or(|s| d >= s)).max()
    }
}
