//! Makes a failing scenario smaller while it keeps failing the same way.
use crate::scen::*;
use std::time::{Duration, Instant};

/// Every way to take one thing out of a scenario, biggest cuts first.
fn candidates(s: &Scenario) -> Vec<Scenario> {
    let mut out: Vec<Scenario> = vec![];
    let mut push = |f: &dyn Fn(&mut Scenario)| {
        let mut c = s.clone();
        f(&mut c);
        if c != *s {
            out.push(c);
        }
    };
    for i in 0..s.steps.len() {
        push(&|c| {
            c.steps.remove(i);
        });
    }
    // what these properties expect follows from the rules and the rows
    let fixed = |p: &str| matches!(s.prop.as_str(), "C05" | "C19") && (p.ends_with(".csv") || p.ends_with(".rules"));
    for i in 0..s.world.files.len() {
        if fixed(&s.world.files[i].path) {
            continue;
        }
        push(&|c| {
            c.world.files.remove(i);
        });
    }
    push(&|c| c.world.links.clear());
    push(&|c| c.world.dirs.clear());
    for i in 0..s.world.links.len() {
        push(&|c| {
            c.world.links.remove(i);
        });
    }
    for (i, f) in s.world.files.iter().enumerate() {
        let rows = s.rows.as_ref().filter(|r| r.0 == f.path).map(|r| r.1);
        let n = f.chunks.len();
        if fixed(&f.path) && rows.is_none() {
            continue;
        }
        if rows.is_none() {
            // halves first
            let mut w = n / 2;
            while w > 1 {
                let mut at = 0;
                while at + w <= n {
                    push(&|c| {
                        c.world.files[i].chunks.drain(at..at + w);
                    });
                    at += w;
                }
                w /= 2;
            }
        }
        for k in rows.unwrap_or(0)..n {
            push(&|c| {
                c.world.files[i].chunks.remove(k);
                match rows {
                    Some(first) if k >= first => {
                        let r = c.rows.as_mut().unwrap();
                        if k - first < r.2.len() {
                            r.2.remove(k - first);
                        }
                    }
                    _ => {}
                }
            });
        }
    }
    for (i, st) in s.steps.iter().enumerate() {
        match st {
            Step::Run(r) => {
                for k in 0..r.faults.len() {
                    push(&|c| {
                        if let Step::Run(r) = &mut c.steps[i] {
                            r.faults.remove(k);
                        }
                    });
                }
                for g in RUN_RESETS {
                    push(&|c| {
                        if let Step::Run(r) = &mut c.steps[i] {
                            g(r);
                        }
                    });
                }
            }
            Step::Conc { runs, appends, sched } => {
                for k in 0..runs.len() {
                    push(&|c| {
                        if let Step::Conc { runs, .. } = &mut c.steps[i] {
                            runs.remove(k);
                        }
                    });
                    for f in 0..runs[k].faults.len() {
                        push(&|c| {
                            if let Step::Conc { runs, .. } = &mut c.steps[i] {
                                runs[k].faults.remove(f);
                            }
                        });
                    }
                    for g in RUN_RESETS {
                        push(&|c| {
                            if let Step::Conc { runs, .. } = &mut c.steps[i] {
                                g(&mut runs[k]);
                            }
                        });
                    }
                }
                for k in 0..appends.len() {
                    push(&|c| {
                        if let Step::Conc { appends, .. } = &mut c.steps[i] {
                            appends.remove(k);
                        }
                    });
                }
                let n = sched.len();
                for keep in [0, n / 8, n / 4, n / 2, n * 3 / 4, n.saturating_sub(8), n.saturating_sub(1)] {
                    push(&|c| {
                        if let Step::Conc { sched, .. } = &mut c.steps[i] {
                            sched.truncate(keep);
                        }
                    });
                }
                for (w, z) in sched.windows(2).enumerate().filter(|(_, w)| w[0] != w[1]).map(|(k, w)| (k, w[0])) {
                    // one switch fewer: carry the earlier choice on
                    push(&|c| {
                        if let Step::Conc { sched, .. } = &mut c.steps[i] {
                            let old = sched[w + 1];
                            let mut k = w + 1;
                            while k < sched.len() && sched[k] == old {
                                sched[k] = z;
                                k += 1;
                            }
                        }
                    });
                }
            }
            Step::Edit { .. } => {}
        }
    }
    for (i, f) in s.world.files.iter().enumerate() {
        for g in FILE_RESETS {
            push(&|c| g(&mut c.world.files[i]));
        }
        let rows = s.rows.as_ref().is_some_and(|r| r.0 == f.path);
        if rows || fixed(&f.path) {
            continue;
        }
        for k in 0..f.chunks.len() {
            let lines: Vec<&str> = f.chunks[k].split('\n').collect();
            if lines.len() > 1 {
                for l in 0..lines.len() {
                    push(&|c| {
                        let mut v = lines.clone();
                        v.remove(l);
                        c.world.files[i].chunks[k] = v.join("\n");
                    });
                }
            }
        }
    }
    push(&|c| c.world.free = None);
    out
}

const RUN_RESETS: [fn(&mut RunSpec); 8] = [
    |r| r.tick_ns = 0,
    |r| r.jump = None,
    |r| r.tz_text = None,
    |r| {
        r.utc += r.tz as i64 * 60;
        r.tz = 0
    },
    |r| {
        r.env.retain(|e| e.0.ends_with("_FILE"));
    },
    |r| r.entropy = 1,
    |r| {
        if r.tty != 0 {
            r.tty = 80
        }
    },
    |r| r.utc = r.utc.div_euclid(86_400) * 86_400 + 43_200,
];
const FILE_RESETS: [fn(&mut FileSpec); 5] = [
    |f| f.crlf = false,
    |f| f.no_final_newline = false,
    |f| f.cut = None,
    |f| f.garble.clear(),
    |f| f.mode = None,
];

pub fn shrink(start: &Scenario, class: &str, ctx: &mut Ctx, eval: &mut dyn FnMut(&mut Ctx, &Scenario) -> Verdict, limit: Duration) -> (Scenario, u32) {
    let t0 = Instant::now();
    let mut cur = start.clone();
    let mut evals = 0;
    loop {
        let mut better = false;
        let mut cand = candidates(&cur);
        let mut i = 0;
        while i < cand.len() {
            if t0.elapsed() > limit || evals > 3000 {
                return (cur, evals);
            }
            evals += 1;
            match eval(ctx, &cand[i]) {
                Verdict::Bad { class: c, .. } if c == class => {
                    cur = cand[i].clone();
                    cand = candidates(&cur);
                    better = true;
                    // go on from about the same place
                    i = i.min(cand.len());
                }
                _ => i += 1,
            }
        }
        if !better {
            return (cur, evals);
        }
    }
}
