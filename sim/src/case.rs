//! One recorded run: what is judged, minimised, written and replayed.

use std::path::Path;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use crate::exec::*;
use crate::imp::*;
use crate::step::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Found {
    pub class: String,
    pub message: String,
    pub step: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub property: String,
    /// Which build of the simulator (and of cola) showed it.
    pub build: String,
    pub verif_seed: u64,
    pub run: u64,
    pub seed: u64,
    pub found: Found,
    /// Digest of everything observed while replaying this file.
    pub digest: u64,
    pub original_steps: usize,
    pub config: Config,
    pub steps: Vec<Step>,
}

/// The substitution that decides whether a failure is due to the machinery the
/// property is about.
pub fn subst_for(prop: &str) -> Option<Subst> {
    let d = Subst::default();
    Some(match prop {
        "C03" => Subst { no_dups: true, ..d },
        "C09" => Subst { load_as_fork: true, ..d },
        "C10" => Subst { fork_as_load: true, ..d },
        "C12" => Subst { native: true, ..d },
        "C16" => Subst { all_cur: true, ..d },
        "C18" => Subst { no_bad: true, ..d },
        _ => return None,
    })
}

fn relevant(prop: &str, s: &Step) -> bool {
    match prop {
        "C03" => matches!(s, Step::Dlv { .. }),
        "C09" => matches!(s, Step::Load { .. }),
        "C10" => matches!(s, Step::Fork { .. } | Step::Swap { .. } | Step::Twin { .. }),
        "C12" => matches!(s, Step::Dlv { w, .. } | Step::Res { w, .. } | Step::Snap { w, .. } if *w != Wire::Native),
        "C16" => matches!(s, Step::Load { .. }),
        "C18" => matches!(s, Step::Bad { .. } | Step::Noop { .. }),
        _ => false,
    }
}

pub fn run(cfg: &Config, steps: &[Step], sub: Subst) -> (Vec<Violation>, u64) {
    let mut ex = match Exec::new(cfg.clone(), sub) {
        Ok(e) => e,
        Err(v) => return (vec![v], 0),
    };
    for (i, s) in steps.iter().enumerate() {
        ex.step(i, s);
        if ex.poisoned {
            break;
        }
    }
    ex.finish(steps.len());
    let d = ex.digest ^ ex.order_digest.rotate_left(17);
    let v = std::mem::take(&mut ex.violations);
    // A panic may have left a replica in any state.
    if ex.poisoned {
        std::mem::forget(ex);
    }
    (v, d)
}

/// Does this run break `prop`?
pub fn judge(prop: &str, cfg: &Config, steps: &[Step], vs: &[Violation]) -> Option<Found> {
    if let Some(v) = vs.iter().find(|v| v.tags.contains(&prop)) {
        return Some(Found { class: v.class.clone(), message: v.msg.clone(), step: v.step });
    }
    // A copy may bring an edit earlier than its turn, which moves the moment
    // from which an anchor must resolve: that is not about redelivery.
    let v = vs.iter().find(|v| prop != "C03" || !v.tags.iter().all(|t| ["C14", "C15"].contains(t)))?;
    let sub = subst_for(prop)?;
    if prop == "C16" && cfg.imp == Imp::Cur && !steps.iter().any(|s| matches!(s, Step::Load { imp: Imp::Base, .. })) {
        return None;
    }
    if !steps.iter().any(|s| relevant(prop, s)) {
        return None;
    }
    let (without, _) = run(cfg, steps, sub);
    if !without.is_empty() {
        return None;
    }
    Some(Found {
        class: format!("differs:{}", v.class),
        message: format!("{} [and not when the same run does without what {prop} is about]", v.msg),
        step: v.step,
    })
}

pub fn check(prop: &str, cfg: &Config, steps: &[Step]) -> (Option<Found>, u64) {
    if prop == "C20" || prop == "C21" {
        let mut beats = 0;
        let judge = if prop == "C20" { crate::cost::judge } else { crate::weight::judge };
        let j = judge(cfg, steps, &mut || {
            beats += 1;
            status(1, beats);
        });
        return (j.found, j.digest);
    }
    let (vs, d) = run(cfg, steps, Subst::default());
    (judge(prop, cfg, steps, &vs), d)
}

/// Minimises while `test` keeps returning a finding of the same class.
pub fn shrink(
    case: &mut Case,
    budget: Duration,
    test: &mut dyn FnMut(&Config, &[Step]) -> Option<(Found, u64)>,
) {
    let t0 = Instant::now();
    let class = case.found.class.clone();
    let mut attempt = |case: &mut Case, cfg: &Config, steps: &[Step]| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        match test(cfg, steps) {
            Some((f, d)) if f.class == class => {
                case.config = cfg.clone();
                case.steps = steps.to_vec();
                case.digest = d;
                case.found = f;
                true
            },
            _ => false,
        }
    };
    // Nothing after the failing step matters.
    let cut = (case.found.step + 1).min(case.steps.len());
    let (cfg, steps) = (case.config.clone(), case.steps[..cut].to_vec());
    attempt(case, &cfg, &steps);
    for _round in 0..6 {
        let size = (case.steps.len(), serde_json::to_string(&case.steps).map_or(0, |s| s.len()));
        // Whole peers first.
        let mut labels: Vec<u16> = case.steps.iter().filter_map(peer_of).collect();
        labels.sort_unstable();
        labels.dedup();
        for l in labels {
            let kept: Vec<Step> = case.steps.iter().filter(|s| peer_of(s) != Some(l)).cloned().collect();
            if kept.len() < case.steps.len() {
                let cfg = case.config.clone();
                attempt(case, &cfg, &kept);
            }
        }
        // Then chunks, from halves down to single steps.
        let mut chunk = (case.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < case.steps.len() && t0.elapsed() < budget {
                let j = (i + chunk).min(case.steps.len());
                let mut kept = case.steps[..i].to_vec();
                kept.extend_from_slice(&case.steps[j..]);
                let cfg = case.config.clone();
                if !attempt(case, &cfg, &kept) {
                    i = j;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // Simpler configuration and arguments.
        for c in simpler_cfg(&case.config) {
            let steps = case.steps.clone();
            attempt(case, &c, &steps);
        }
        let mut i = 0;
        while i < case.steps.len() && t0.elapsed() < budget {
            for s in simpler(&case.steps[i]) {
                if s == case.steps[i] {
                    continue;
                }
                let mut steps = case.steps.clone();
                steps[i] = s;
                let cfg = case.config.clone();
                attempt(case, &cfg, &steps);
            }
            i += 1;
        }
        let now = (case.steps.len(), serde_json::to_string(&case.steps).map_or(0, |s| s.len()));
        if now == size || t0.elapsed() > budget {
            break;
        }
    }
}

fn peer_of(s: &Step) -> Option<u16> {
    Some(match s {
        Step::Ins { p, .. }
        | Step::Del { p, .. }
        | Step::Dlv { p, .. }
        | Step::Drain { p }
        | Step::Part { p, .. }
        | Step::Snap { p, .. }
        | Step::Crash { p }
        | Step::Swap { p }
        | Step::Twin { p }
        | Step::Untwin { p }
        | Step::Anc { p, .. }
        | Step::Res { p, .. }
        | Step::Bad { p, .. }
        | Step::Noop { p, .. }
        | Step::Check { p } => *p,
        Step::Fork { to, .. } | Step::Load { to, .. } => *to,
        _ => return None,
    })
}

fn simpler_cfg(c: &Config) -> Vec<Config> {
    let mut out = Vec::new();
    let mut k = c.init;
    if k > 0 {
        out.push(Config { init: 0, ..c.clone() });
    }
    while k > 1 {
        k /= 2;
        out.push(Config { init: k, ..c.clone() });
    }
    out.reverse();
    if c.scale > 1 {
        out.push(Config { scale: 1, ..c.clone() });
    }
    if c.id != 1 {
        out.push(Config { id: 1, ..c.clone() });
    }
    out
}

fn nums(x: u32) -> Vec<u32> {
    let mut v = vec![0, 1, 2];
    let mut y = x;
    for _ in 0..4 {
        y /= 2;
        v.push(y);
    }
    if x > 0 {
        v.push(x - 1);
    }
    v.retain(|&y| y < x);
    v.sort_unstable();
    v.dedup();
    v.truncate(6);
    v
}

fn simpler(s: &Step) -> Vec<Step> {
    let mut out = Vec::new();
    match s.clone() {
        Step::Ins { p, u, pos, n } => {
            for k in nums(n) {
                if k > 0 {
                    out.push(Step::Ins { p, u, pos, n: k });
                }
            }
            for k in nums(pos) {
                out.push(Step::Ins { p, u, pos: k, n });
            }
        },
        Step::Del { p, u, pos, n, b } => {
            for k in nums(n) {
                if k > 0 {
                    out.push(Step::Del { p, u, pos, n: k, b });
                }
            }
            for k in nums(pos) {
                out.push(Step::Del { p, u, pos: k, n, b });
            }
            out.push(Step::Del { p, u, pos, n, b: 0 });
        },
        Step::Dlv { p, u, w } if w != Wire::Native => out.push(Step::Dlv { p, u, w: Wire::Native }),
        Step::Snap { p, s, w } if w != Wire::Native => out.push(Step::Snap { p, s, w: Wire::Native }),
        Step::Res { p, a, w } if w != Wire::Native => out.push(Step::Res { p, a, w: Wire::Native }),
        Step::Fork { p, to, id, shadow } => {
            if shadow {
                out.push(Step::Fork { p, to, id, shadow: false });
            }
            if id != to as u64 + 1 {
                out.push(Step::Fork { p, to, id: to as u64 + 1, shadow });
            }
        },
        Step::Load { s, to, id, imp, shadow } => {
            if shadow {
                out.push(Step::Load { s, to, id, imp, shadow: false });
            }
            if imp != Imp::Cur {
                out.push(Step::Load { s, to, id, imp: Imp::Cur, shadow });
            }
            if id != to as u64 + 1 {
                out.push(Step::Load { s, to, id: to as u64 + 1, imp, shadow });
            }
        },
        Step::Anc { p, a, pos, right } => {
            for k in nums(pos) {
                out.push(Step::Anc { p, a, pos: k, right });
            }
        },
        Step::Noop { p, u, ins, pos } => {
            for k in nums(pos) {
                out.push(Step::Noop { p, u, ins, pos: k });
            }
        },
        Step::Part { p, ins, del } => {
            out.push(Step::Part { p, ins: ins / 2, del });
            out.push(Step::Part { p, ins, del: del / 2 });
        },
        _ => {},
    }
    out
}

pub fn write(path: &Path, case: &Case) {
    let tmp = path.with_extension("tmp");
    let mut text = String::new();
    // One step per line: the trace is meant to be read.
    let mut v = serde_json::to_value(case).unwrap();
    let steps = v.as_object_mut().unwrap().remove("steps").unwrap();
    let head = serde_json::to_string_pretty(&v).unwrap();
    text.push_str(head.trim_end().trim_end_matches('}').trim_end());
    text.push_str(",\n  \"steps\": [\n");
    let steps = steps.as_array().unwrap();
    for (i, s) in steps.iter().enumerate() {
        text.push_str("    ");
        text.push_str(&s.to_string());
        text.push_str(if i + 1 < steps.len() { ",\n" } else { "\n" });
    }
    text.push_str("  ]\n}\n");
    std::fs::write(&tmp, text).expect("write replay");
    std::fs::rename(&tmp, path).expect("write replay");
}

pub fn read(path: &Path) -> Case {
    let b = std::fs::read(path).expect("read replay");
    serde_json::from_slice(&b).expect("parse replay")
}
