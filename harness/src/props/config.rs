//! C18 the same answers everywhere, C19 no undefined behaviour: the judges of what the instruments
//! recorded.
use std::collections::BTreeMap;

use crate::ctx::Ctx;
use crate::portable::record;
use crate::rng::{fnv, mix};
use crate::scene::Setup;

/// One run of the `portable` workload under some instrument.
#[derive(Clone, Debug)]
pub struct Run {
    pub name: String,
    pub kind: String,
    pub rc: i32,
    pub log: String,
    pub out: String,
}

/// Lines `name kind rc log out`.
pub fn read_runs(path: &str) -> Vec<Run> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let v: Vec<&str> = l.split_whitespace().collect();
            let [name, kind, rc, log, out] = v[..] else { return None };
            let read = |p: &str| {
                std::fs::read(p)
                    .map(|b| String::from_utf8_lossy(&b).into_owned())
                    .unwrap_or_default()
            };
            Some(Run {
                name: name.into(),
                kind: kind.into(),
                rc: rc.parse().unwrap_or(-1),
                log: read(log),
                out: read(out),
            })
        })
        .collect()
}

fn excerpt(log: &str, needle: &str) -> String {
    let lines: Vec<&str> = log.lines().collect();
    let at = lines.iter().position(|l| l.contains(needle)).unwrap_or(0);
    lines[at..lines.len().min(at + 6)]
        .iter()
        .map(|l| l.trim())
        .collect::<Vec<_>>()
        .join(" | ")
}

fn by_record(out: &str) -> BTreeMap<u64, Vec<(char, String, String)>> {
    let mut m: BTreeMap<u64, Vec<(char, String, String)>> = BTreeMap::new();
    for l in out.lines() {
        let Some(kind @ ('D' | 'F')) = l.chars().next() else { continue };
        let rest = &l[2..];
        let Some((rec, rest)) = rest.split_once(' ') else { continue };
        let Ok(rec) = rec.parse() else { continue };
        // F lines end in one word of hex digits; keys may contain spaces.
        let (key, val) = if kind == 'F' {
            rest.rsplit_once(' ').unwrap_or((rest, ""))
        } else {
            rest.split_once(' ').unwrap_or((rest, ""))
        };
        m.entry(rec).or_default().push((kind, key.into(), val.into()));
    }
    m
}

fn floats(hex: &str) -> Vec<f32> {
    hex.as_bytes()
        .chunks(8)
        .map(|c| {
            let s = std::str::from_utf8(c).unwrap_or("0");
            f32::from_bits(u32::from_str_radix(s, 16).unwrap_or(0))
        })
        .collect()
}

fn complete(run: &Run) -> bool {
    run.rc == 0 && run.out.ends_with("END\n")
}

/// Signs of undefined behaviour in what an instrument printed.
const UB: [&str; 7] = [
    "Undefined Behavior",
    "AddressSanitizer",
    "unsafe precondition(s) violated",
    "SIGSEGV",
    "Segmentation fault",
    "double free",
    "UndefinedBehaviorSanitizer",
];

pub fn c19(ctx: &mut Ctx, runs: &[Run]) {
    ctx.rule = "one evaluation = one observation line of the workload completed under an instrument (Miri with Tree Borrows: aliasing, uninitialised memory, bounds, alignment, invalid values; AddressSanitizer: bounds and lifetimes on many more records; both with debug assertions); distinct = distinct observations";
    ctx.assumptions = vec![
        "the unsafe code executed is mostly that of the dependencies the library uses; what no record executes is not judged",
        "aliasing is judged by Tree Borrows: bitvec 1.1.1 itself is not clean under the stricter experimental Stacked Borrows",
    ];
    ctx.required = vec![("records under miri", 8), ("records under asan", 500)];
    for r in runs {
        if let Some(sign) = UB.iter().find(|s| r.log.contains(**s)) {
            ctx.violation(&r.name, 0, format!("{}: {}", r.name, excerpt(&r.log, sign)));
            continue;
        }
        if [139, 135, 132, 134].contains(&r.rc) {
            ctx.violation(
                &r.name,
                0,
                format!("{} died with status {}: {}", r.name, r.rc, excerpt(&r.log, "panic")),
            );
            continue;
        }
        if !complete(r) {
            ctx.acc.harness_errors.push(format!(
                "{} ended with status {} and no result: {}",
                r.name,
                r.rc,
                excerpt(&r.log, "error")
            ));
            continue;
        }
        let recs = by_record(&r.out);
        let n = recs.len() as u64;
        *ctx.acc.counters.entry(format!("records under {}", r.kind)).or_default() += n;
        for (rec, lines) in recs {
            for (_, k, v) in lines {
                ctx.acc.evals += 1;
                if ctx.acc.distinct.len() < 1_000_000 {
                    ctx.acc.distinct.insert(mix(fnv(k.as_bytes()) ^ fnv(v.as_bytes())));
                }
                if k == "PANIC" {
                    *ctx.acc.counters.entry("panics (judged by C04)".into()).or_default() += 1;
                }
            }
            if ctx.acc.samples.len() < 6 && rec % 3 == 0 {
                ctx.acc.samples.push(format!("{} record {rec} completed", r.name));
            }
        }
    }
}

fn is_const(key: &str) -> bool {
    !key.starts_with("image") && !key.starts_with("ambient")
}

struct Judge<'c> {
    ctx: &'c mut Ctx,
    run: &'c str,
    rec: u64,
}

impl Judge<'_> {
    fn bad(&mut self, msg: String) {
        let m = format!("{} differs from the native std build: record {}: {msg}", self.run, self.rec);
        self.ctx.violation(self.run, self.rec, m);
    }
    fn count(&mut self, k: &str) {
        *self.ctx.acc.counters.entry(k.into()).or_default() += 1;
    }
    /// `None`: not to be judged.
    fn float(&self, key: &str, i: usize, a: f32, s: Option<&Setup>) -> Option<f64> {
        if a.is_nan() || a.is_infinite() || a.abs() > 1e30 {
            return None;
        }
        let mag = f64::from(a).abs();
        if is_const(key) {
            return Some(mag * 1e-4_f64.min(2e-5) + 1e-30);
        }
        let s = s?;
        if key.starts_with("ambient") {
            return Some(0.02 + mag * 1e-4);
        }
        let sp = usize::from(key.ends_with('1'));
        let chess = s.cam.chess();
        if !s.cam.model.in_subpage(i, sp, chess) {
            return Some(0.0);
        }
        if s.cal.failed[i] {
            return None;
        }
        let raw = super::calc::raw_of(&s.cam, i, sp);
        let iv = s.scene(sp).temp(i, raw);
        if iv.decided() && iv.width() < 0.5 {
            Some(0.05 + iv.width())
        } else {
            None
        }
    }
}

pub fn c18(ctx: &mut Ctx, runs: &[Run]) {
    ctx.rule = "one evaluation = one observation (result, error, register, bus transaction digest, calibration constant, pixel) made on another configuration and compared with the native std build: exactly, or for floats within rounding where the reference says the value is well conditioned; distinct = distinct (record, observation)";
    ctx.assumptions = vec![
        "the configurations: std and libm backends and builds with and without arithmetic checks on x86-64; 32-bit x86 and 64-bit ARM with std, 32-bit ARM with libm and 64-bit big endian (s390x) with std under the Miri interpreter; bare ARM Cortex-M4F and M0 and RISC-V (core only, no allocator) are compiled but not run",
    ];
    ctx.required = vec![
        ("records compared: libm", 200),
        ("records compared: plain", 200),
        ("bare-metal builds", 3),
        ("records compared: i686", 4),
        ("records compared: s390x", 4),
        ("records compared: armv7", 4),
        ("records compared: aarch64", 4),
        ("pixels compared", 10_000),
        ("constants compared", 100_000),
    ];
    let Some(base) = runs.iter().find(|r| r.kind == "base") else {
        ctx.acc.harness_errors.push("no base run".into());
        return;
    };
    if !complete(base) {
        ctx.acc.harness_errors.push(format!("base run: {} {}", base.rc, excerpt(&base.log, "error")));
        return;
    }
    let want = by_record(&base.out);
    let seed = ctx.seed;
    for r in runs {
        if r.kind == "base" || !ctx.acc.violations.is_empty() {
            continue;
        }
        if r.log.contains("could not compile `mlx9064x`") {
            ctx.violation(
                &r.name,
                0,
                format!("does not compile for {}: {}", r.name, excerpt(&r.log, "error")),
            );
            continue;
        }
        if !complete(r) {
            let died = r.log.contains("Undefined Behavior") || [139, 134].contains(&r.rc);
            let msg = format!(
                "{} ended with status {} and no result: {}",
                r.name,
                r.rc,
                excerpt(&r.log, "error:")
            );
            if died {
                ctx.violation(&r.name, 0, msg);
            } else {
                ctx.acc.harness_errors.push(msg);
            }
            continue;
        }
        if r.kind == "bare" {
            *ctx.acc.counters.entry("bare-metal builds".into()).or_default() += 1;
        }
        for (rec, got) in by_record(&r.out) {
            let Some(exp) = want.get(&rec) else {
                ctx.acc.harness_errors.push(format!("record {rec} is not in the base run"));
                return;
            };
            let (_, setup) = record(seed, rec);
            let mut j = Judge {
                ctx,
                run: &r.name,
                rec,
            };
            j.count(&format!("records compared: {}", r.kind));
            for (g, e) in got.iter().zip(exp) {
                j.ctx.acc.evals += 1;
                if g.0 != e.0 || g.1 != e.1 {
                    j.bad(format!("observes {} {:?} instead of {} {:?}", g.1, g.2, e.1, e.2));
                    break;
                }
                j.ctx.acc.distinct.insert(mix(rec ^ fnv(g.1.as_bytes()) ^ fnv(g.2.as_bytes())));
                if g.0 == 'D' {
                    if g.2 != e.2 {
                        j.bad(format!("{}: {} instead of {}", g.1, g.2, e.2));
                        break;
                    }
                    continue;
                }
                let (a, b) = (floats(&g.2), floats(&e.2));
                if a.len() != b.len() {
                    j.bad(format!("{}: {} values instead of {}", g.1, a.len(), b.len()));
                    break;
                }
                if setup.is_none() && !is_const(&g.1) {
                    continue;
                }
                for (i, (x, y)) in a.iter().zip(&b).enumerate() {
                    let Some(tol) = j.float(&g.1, i, *y, setup.as_ref()) else { continue };
                    j.ctx.acc.evals += 1;
                    j.count(if is_const(&g.1) { "constants compared" } else { "pixels compared" });
                    let diff = (f64::from(*x) - f64::from(*y)).abs();
                    if !(diff <= tol) {
                        j.bad(format!("{}[{i}]: {x:e} instead of {y:e}", g.1));
                        break;
                    }
                }
            }
            if got.len() != exp.len() && j.ctx.acc.violations.is_empty() {
                j.bad(format!("{} observations instead of {}", got.len(), exp.len()));
            }
            if ctx.acc.samples.len() < 6 && rec % 5 == 0 {
                ctx.acc.samples.push(format!("{} record {rec}: {} observations agree", r.name, got.len()));
            }
            if !ctx.acc.violations.is_empty() {
                break;
            }
        }
    }
}
