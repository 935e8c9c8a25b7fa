//! C01, C02, C21: calibration decoding against the reference decoders.
use mlx9064x::common::{FlaggedPixels, FromI2C};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::{
    AccessPattern, CalibrationData, Error, LibraryError, MelexisCamera, Mlx90640Driver,
    Mlx90641Driver, Subpage,
};

use crate::ctx::{Case, Ctx};
use crate::drv::{errv, ErrV};
use crate::ee::*;
use crate::laws::laws;
use crate::refcalc::res_raw;
use crate::rng::{fnv, mix, Rng};
use crate::scene;
use crate::sim::{Bus, Cam, Model, EEPROM_BASE, EEPROM_WORDS};

const TOL: f64 = 1.0 / (1u64 << 18) as f64;

fn near(g: f64, r: f64) -> bool {
    (g - r).abs() <= r.abs() * TOL + 1e-30
}

/// Compare every constant of a library calibration with the reference; first difference.
pub fn compare<'a, C>(c: &'a C, r: &RefCal) -> Result<u64, String>
where
    C: CalibrationData<'a>,
{
    let m = r.model;
    let n = m.pixels();
    let mut done = 0u64;
    if C::Camera::NUM_PIXELS != n {
        return Err(format!("NUM_PIXELS {} != {n}", C::Camera::NUM_PIXELS));
    }
    macro_rules! exact {
        ($what:literal, $g:expr, $r:expr) => {
            let (g, r) = (i64::from($g), i64::from($r));
            done += 1;
            if g != r {
                return Err(format!("{}: library {g}, EEPROM layout {r}", $what));
            }
        };
    }
    macro_rules! float {
        ($what:expr, $g:expr, $r:expr) => {
            let (g, r) = (f64::from($g), $r);
            done += 1;
            if !near(g, r) {
                return Err(format!("{}: library {g:e}, EEPROM layout {r:e}", $what));
            }
        };
    }
    exact!("k_v_dd", c.k_v_dd(), r.k_v_dd);
    exact!("v_dd_25", c.v_dd_25(), r.v_dd_25);
    exact!("resolution", res_raw(c.resolution()), r.resolution);
    float!("v_dd_0", c.v_dd_0(), r.v_dd_0);
    float!("k_v_ptat", c.k_v_ptat(), r.k_v_ptat);
    float!("k_t_ptat", c.k_t_ptat(), r.k_t_ptat);
    float!("v_ptat_25", c.v_ptat_25(), r.v_ptat_25);
    float!("alpha_ptat", c.alpha_ptat(), r.alpha_ptat);
    float!("gain", c.gain(), r.gain);
    float!("k_s_ta", c.k_s_ta(), r.k_s_ta);
    match (c.emissivity(), r.emissivity) {
        (None, None) => done += 1,
        (Some(g), Some(r)) => {
            float!("emissivity", g, r);
        }
        (g, r) => return Err(format!("emissivity: library {g:?}, EEPROM layout {r:?}")),
    }
    let ct: Vec<i64> = c.corner_temperatures().iter().map(|v| i64::from(*v)).collect();
    done += 1;
    if ct != r.ct {
        return Err(format!("corner temperatures: library {ct:?}, layout {:?}", r.ct));
    }
    if c.k_s_to().len() != r.k_s_to.len() || c.alpha_correction().len() != r.ct.len() {
        return Err("k_s_to/alpha_correction length differs from the number of ranges".into());
    }
    for (i, (g, r)) in c.k_s_to().iter().zip(&r.k_s_to).enumerate() {
        float!(format!("k_s_to[{i}]"), *g, *r);
    }
    for (i, (g, iv)) in c.alpha_correction().iter().zip(&r.alpha_corr).enumerate() {
        done += 1;
        if iv.admits(*g) == Some(false) {
            return Err(format!("alpha_correction[{i}]: library {g:e}, layout {iv:?}"));
        }
    }
    float!(
        "temperature gradient coefficient",
        c.temperature_gradient_coefficient().unwrap_or(0.0),
        r.tgc
    );
    for (s, sp) in [(0, Subpage::Zero), (1, Subpage::One)] {
        exact!("offset_reference_cp", c.offset_reference_cp(sp), r.off_cp[s]);
        float!(format!("alpha_cp({s})"), c.alpha_cp(sp), r.alpha_cp[s]);
        float!(format!("k_v_cp({s})"), c.k_v_cp(sp), r.kv_cp);
        float!(format!("k_ta_cp({s})"), c.k_ta_cp(sp), r.kta_cp);
        float!(
            format!("interleave compensation of the compensation pixel ({s})"),
            c.access_pattern_compensation_cp(sp, AccessPattern::Interleave)
                .unwrap_or(0.0),
            r.il_cp[s]
        );
        float!(
            format!("chess compensation of the compensation pixel ({s})"),
            c.access_pattern_compensation_cp(sp, AccessPattern::Chess)
                .unwrap_or(0.0),
            0.0
        );
        let mut count = 0;
        for (i, g) in c.offset_reference_pixels(sp).take(n + 1).enumerate() {
            count += 1;
            if i < n && !r.failed[i] && i64::from(*g) != r.off[s][i] {
                return Err(format!(
                    "offset[{i}] of subpage {s}: library {g}, EEPROM layout {}",
                    r.off[s][i]
                ));
            }
        }
        if count != n {
            return Err(format!("offset iterator yields {count} pixels, not {n}"));
        }
        macro_rules! pixels {
            ($what:literal, $it:expr, $r:expr) => {
                let mut count = 0;
                for (i, g) in $it.take(n + 1).enumerate() {
                    count += 1;
                    if i < n && !r.failed[i] && !near(f64::from(*g), $r[i]) {
                        return Err(format!(
                            "{}[{i}] of subpage {s}: library {g:e}, EEPROM layout {:e}",
                            $what, $r[i]
                        ));
                    }
                }
                if count != n {
                    return Err(format!("{} iterator yields {count} pixels, not {n}", $what));
                }
                done += n as u64;
            };
        }
        pixels!("alpha", c.alpha_pixels(sp), r.alpha);
        pixels!("k_v", c.k_v_pixels(sp), r.kv);
        pixels!("k_ta", c.k_ta_pixels(sp), r.kta);
        done += n as u64;
    }
    for (chess, ap) in [(true, AccessPattern::Chess), (false, AccessPattern::Interleave)] {
        let mut count = 0;
        for (i, g) in c.access_pattern_compensation_pixels(ap).take(n + 1).enumerate() {
            count += 1;
            if i < n {
                let want = if chess { 0.0 } else { r.il_pix[i] };
                let g = f64::from(g.copied().unwrap_or(0.0));
                if !near(g, want) {
                    return Err(format!(
                        "access pattern compensation[{i}] ({ap:?}): library {g:e}, layout {want:e}"
                    ));
                }
            }
        }
        if count != n {
            return Err(format!("compensation iterator yields {count} pixels, not {n}"));
        }
        done += n as u64;
    }
    Ok(done)
}

/// Move the average offset so that the largest or smallest pixel offset lands on an edge of i16.
fn edge(rng: &mut Rng, model: Model, words: &mut [u16]) {
    let d = match model {
        Model::M40 => decode40(words),
        Model::M41 => decode41(words),
    };
    let Decoded::Ok(c) = d else { return };
    let at = usize::from(0x2411 - EEPROM_BASE);
    let avg = match model {
        Model::M40 => sx(words[at], 16),
        Model::M41 => {
            let v = i64::from(words[at]) * 32 + i64::from(words[at + 1]);
            if v > 32767 {
                v - 65536
            } else {
                v
            }
        }
    };
    let live = |v: &Vec<i64>| -> Vec<i64> {
        v.iter()
            .zip(&c.failed)
            .filter(|(_, f)| !**f)
            .map(|(o, _)| *o - avg)
            .collect()
    };
    let mut rest = live(&c.off[0]);
    rest.extend(live(&c.off[1]));
    let (Some(max), Some(min)) = (rest.iter().max(), rest.iter().min()) else {
        return;
    };
    let over = i64::from(rng.bool());
    let new = if rng.bool() {
        32767 - max + over
    } else {
        -32768 - min - over
    };
    if (-32768..=32767).contains(&new) {
        let w = new as i16 as u16;
        match model {
            Model::M40 => words[at] = w,
            Model::M41 => {
                words[at] = w >> 5;
                words[at + 1] = w & 31;
            }
        }
    }
}

fn image(rng: &mut Rng, i: u64, model: Model) -> (Vec<u16>, Decoded, &'static str) {
    let (style, kind) = match i % 8 {
        0 | 1 => (Style::Plausible, "plausible"),
        2..=4 => (Style::Wild, "wild"),
        5 => (Style::Random, "random"),
        _ => (Style::Wild, "edge"),
    };
    let mut w = match model {
        Model::M40 => gen40(rng, style),
        Model::M41 => gen41(rng, style),
    };
    if kind == "edge" {
        edge(rng, model, &mut w);
    }
    match model {
        Model::M40 => {
            let d = decode40(&w);
            (w, d, kind)
        }
        Model::M41 => {
            let d = decode41(&w);
            (ham_words(&w), d, kind)
        }
    }
}

/// The per-pixel constants are the same however their iterators are walked.
fn walk<C>(case: &mut Case, c: &C, model: Model)
where
    C: for<'a> CalibrationData<'a>,
{
    let n = model.pixels();
    let sp = case.rng.bool();
    let s = if sp { Subpage::One } else { Subpage::Zero };
    let ap = if case.rng.bool() { AccessPattern::Chess } else { AccessPattern::Interleave };
    let which = case.rng.idx(5);
    let mut rng = case.rng.clone();
    let got = case.lib("walking the per-pixel constants", || {
        let f = |v: &f32| v.to_bits();
        match which {
            0 => laws(&mut rng, "offset_reference_pixels", n, || c.offset_reference_pixels(s), |v| *v),
            1 => laws(&mut rng, "alpha_pixels", n, || c.alpha_pixels(s), f),
            2 => laws(&mut rng, "k_v_pixels", n, || c.k_v_pixels(s), f),
            3 => laws(&mut rng, "k_ta_pixels", n, || c.k_ta_pixels(s), f),
            _ => laws(
                &mut rng,
                "access_pattern_compensation_pixels",
                n,
                || c.access_pattern_compensation_pixels(ap),
                |v| v.map(f),
            ),
        }
    });
    case.rng = rng;
    match got {
        Some(Ok(k)) => {
            case.evals(k);
            case.count("per-pixel constants walked in other ways", 1);
        }
        Some(Err(e)) => case.fail(format!("{}: {e}", model.name())),
        None => {}
    }
}

fn verdict<C>(
    case: &mut Case,
    how: &str,
    d: &Decoded,
    got: Option<Result<C, LibraryError>>,
    model: Model,
) where
    C: for<'a> CalibrationData<'a>,
{
    let Some(got) = got else { return };
    match (d, &got) {
        (Decoded::Ok(r), Ok(c)) => {
            let r2 = (**r).clone();
            match case.lib("reading the calibration constants", || compare(c, &r2)) {
                Some(Ok(n)) => {
                    case.evals(n);
                    case.count("calibrations compared", 1);
                    if case.rng.chance(1, 16) {
                        walk(case, c, model);
                    }
                }
                Some(Err(e)) => case.fail(format!("{} {how}: {e}", model.name())),
                None => {}
            }
        }
        (Decoded::Ok(_), Err(e)) => case.fail(format!(
            "{} {how}: a representable EEPROM image was rejected: {e:?}",
            model.name()
        )),
        (Decoded::MustErr(why), Ok(_)) => case.fail(format!(
            "{} {how}: image accepted although {why}",
            model.name()
        )),
        (Decoded::MustErr(_), Err(_)) => {
            case.eval();
            case.count("unrepresentable images rejected", 1);
        }
        (Decoded::Either, _) => case.count("no verdict (failed pixel out of range)", 1),
    }
}

macro_rules! decode_phase {
    ($ctx:expr, $n:expr, $model:expr, $cal:ident, $driver:ident) => {
        $ctx.phase("decode", $n, |case| {
            let i = case.idx;
            let model = $model;
            let (w, d, kind) = image(&mut case.rng, i, model);
            case.count(&format!("images:{kind}"), 1);
            let bytes = to_bytes(&w);
            case.seen(fnv(&bytes));
            case.sample(|| {
                let r = match &d {
                    Decoded::Ok(c) => format!(
                        "gain={} v_dd_25={} off[0][5]={} alpha[5]={:e} kta[5]={:e} ct={:?}",
                        c.gain, c.v_dd_25, c.off[0][5], c.alpha[5], c.kta[5], c.ct
                    ),
                    Decoded::MustErr(e) => format!("must be rejected: {e}"),
                    Decoded::Either => "no verdict".into(),
                };
                format!("{kind} image fnv={:016x}, reference: {r}", fnv(&bytes))
            });
            let got = case.lib("from_data", || $cal::from_data(&bytes));
            verdict(case, "from_data", &d, got, model);
            if case.failed() {
                return;
            }
            let addr = scene::address(&mut case.rng);
            let cam = Cam::new(model, addr, w, vec![0; model.ram_len()]);
            let mut bus = Bus::one(cam);
            let got = case.lib("from_i2c", || {
                $cal::from_i2c(&mut bus, addr).map_err(|e: Error<Bus>| match errv(e) {
                    ErrV::Lib(l) => l,
                    _ => LibraryError::Other("bus error without a fault"),
                })
            });
            verdict(case, "from_i2c", &d, got, model);
            if i % 8 == 1 {
                // the driver's constructor accepts and rejects the same images
                let r = case.lib("Driver::new", || $driver::new(bus.clone(), addr).is_ok());
                match (&d, r) {
                    (Decoded::Ok(_), Some(false)) => case.fail("driver rejects a valid camera"),
                    (Decoded::MustErr(_), Some(true)) => {
                        case.fail("driver accepts an unrepresentable image")
                    }
                    _ => case.eval(),
                }
            }
        });
    };
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "one case = one EEPROM image (plausible / every field over its whole range / uniformly random bits / pixel offset moved to an edge of 16 bits), decoded by from_data and over the simulated bus and compared constant by constant with the reference decoder; distinct = distinct images";
    ctx.required = vec![("calibrations compared", 100), ("unrepresentable images rejected", 10)];
    ctx.assumptions = vec!["the reference decoder transcribes the datasheet's EEPROM map"];
    let n = ctx.n(6_000, 200_000);
    decode_phase!(ctx, n, Model::M40, Mlx90640Calibration, Mlx90640Driver);
    sweep(ctx, Model::M40);
    every_value(ctx, Model::M40);
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "one case = one MLX90641 EEPROM image with valid checksums (plausible / whole field ranges / random / offsets at an edge of 16 bits), decoded by from_data and over the simulated bus and compared constant by constant with the reference decoder; distinct = distinct images";
    ctx.required = vec![("calibrations compared", 100), ("unrepresentable images rejected", 10)];
    ctx.assumptions = vec!["the reference decoder transcribes the datasheet's EEPROM map"];
    let n = ctx.n(12_000, 400_000);
    decode_phase!(ctx, n, Model::M41, Mlx90641Calibration, Mlx90641Driver);
    sweep(ctx, Model::M41);
    every_value(ctx, Model::M41);
}

/// All words at once run through all of their values, each at its own pace.
fn every_value(ctx: &mut Ctx, model: Model) {
    let rounds = if ctx.thorough { 16 } else { 1 };
    let seed = ctx.seed;
    ctx.phase("every value of every word", rounds << 16, |case| {
        let (k, round) = (case.idx as u16, case.idx >> 16);
        let value = |a: usize| {
            let h = mix(seed ^ mix(a as u64 ^ round << 32));
            k.wrapping_mul(h as u16 | 1).wrapping_add((h >> 16) as u16)
        };
        let n = EEPROM_WORDS;
        let mut w: Vec<u16> = (0..n).map(value).collect();
        let fold = |v: u16| v ^ v >> 11 ^ v << 5;
        // Scales which leave most images representable, the other fields as they come.
        let small = if k % 4 == 0 { k >> 2 } else { 0 };
        match model {
            Model::M40 => {
                let nibbles = (small & 3) << 8 | (small >> 2 & 3) << 4 | (small >> 4 & 3);
                w[0x10] = (w[0x10] & 0xF000) | nibbles;
            }
            Model::M41 => {
                for x in w.iter_mut() {
                    *x = fold(*x) & 0x7FF;
                }
                w[0x10] = (w[0x10] & 0x1F) | (small & 3) << 5;
                // Words which make up one number together.
                for a in [0x11usize, 0x24, 0x28, 0x2F] {
                    let v = value(a);
                    (w[a], w[a + 1]) = (v >> 5, v & 0x1F);
                }
            }
        }
        let (stored, d) = match model {
            Model::M40 => {
                let d = decode40(&w);
                (w, d)
            }
            Model::M41 => {
                let d = decode41(&w);
                (ham_words(&w), d)
            }
        };
        let bytes = to_bytes(&stored);
        case.seen(fnv(&bytes));
        match model {
            Model::M40 => {
                let got = case.lib("from_data", || Mlx90640Calibration::from_data(&bytes));
                verdict(case, "from_data", &d, got, model);
            }
            Model::M41 => {
                let got = case.lib("from_data", || Mlx90641Calibration::from_data(&bytes));
                verdict(case, "from_data", &d, got, model);
            }
        }
    });
}

/// Walk the values of every configuration word, one at a time.
fn sweep(ctx: &mut Ctx, model: Model) {
    let (lo, hi) = match model {
        Model::M40 => (0x10u64, 0x40u64),
        Model::M41 => (0x10, 0x40),
    };
    let per = ctx.n(96, 4096);
    ctx.phase("configuration words", (hi - lo) * per, |case| {
        let word = (lo + case.idx / per) as usize;
        let k = case.idx % per;
        let mut w = match model {
            Model::M40 => gen40(&mut case.rng, Style::Plausible),
            Model::M41 => gen41(&mut case.rng, Style::Plausible),
        };
        let mask = if model == Model::M40 { 0xFFFF } else { 0x7FF };
        // single bits, complements, boundary values, then random ones
        let v = match k {
            0..=15 => 1u16 << k,
            16..=31 => !(1u16 << (k - 16)),
            32 => 0,
            33 => 0xFFFF,
            34 => 0x7FFF,
            35 => 0x8000,
            36 => 0x00FF,
            37 => 0xFF00,
            38 => 0x0F0F,
            39 => 0xF0F0,
            40 => 0x03FF,
            41 => 0xFC00,
            _ => case.rng.u16(),
        } & mask;
        w[word] = v;
        // scales that make a plausible image unrepresentable are judged by the reference as well
        let (stored, d) = match model {
            Model::M40 => {
                let d = decode40(&w);
                (w, d)
            }
            Model::M41 => {
                let d = decode41(&w);
                (ham_words(&w), d)
            }
        };
        case.seen((word as u64) << 16 | u64::from(v));
        let bytes = to_bytes(&stored);
        let how = format!("word {:04x} = {v:04x}", 0x2400 + word);
        match model {
            Model::M40 => {
                let got = case.lib(&how, || Mlx90640Calibration::from_data(&bytes));
                verdict(case, &how, &d, got, model);
            }
            Model::M41 => {
                let got = case.lib(&how, || Mlx90641Calibration::from_data(&bytes));
                verdict(case, &how, &d, got, model);
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------

pub fn flags_of<F: FlaggedPixels>(f: F, n: usize) -> (bool, Vec<usize>) {
    (f.any(), f.iter_flagged().take(n + 8).collect())
}

fn c21_one(case: &mut Case, model: Model, w: &[u16], r: &RefCal) {
    let n = model.pixels();
    let bytes = to_bytes(w);
    let got = case.lib("reading flags", || match model {
        Model::M40 => Mlx90640Calibration::from_data(&bytes).map(|c| {
            (flags_of(c.failed_pixels(), n), flags_of(c.outlier_pixels(), n))
        }),
        Model::M41 => Mlx90641Calibration::from_data(&bytes).map(|c| {
            (flags_of(c.failed_pixels(), n), flags_of(c.outlier_pixels(), n))
        }),
    });
    if case.rng.chance(1, 4) {
        let mut rng = case.rng.clone();
        macro_rules! both {
            ($cal:ident) => {
                $cal::from_data(&bytes).map_err(|_| String::new()).and_then(|c| {
                    let k = |i: usize| i;
                    let (f, o) = (c.failed_pixels(), c.outlier_pixels());
                    laws(&mut rng, "failed pixels", n, || f.iter_flagged(), k)?;
                    laws(&mut rng, "outlier pixels", n, || o.iter_flagged(), k)
                })
            };
        }
        let walked = case.lib("walking the flags", || match model {
            Model::M40 => both!(Mlx90640Calibration),
            Model::M41 => both!(Mlx90641Calibration),
        });
        case.rng = rng;
        match walked {
            Some(Ok(k)) => {
                case.evals(2 * k);
                case.count("flags walked in other ways", 1);
            }
            Some(Err(e)) if !e.is_empty() => case.fail(format!("{}: {e}", model.name())),
            _ => {}
        }
    }
    let (failed, outlier) = match got {
        Some(Ok(v)) => v,
        Some(Err(e)) => return case.fail(format!("image rejected: {e:?}")),
        None => return,
    };
    for (what, (any, list), want) in [
        ("failed", failed, &r.failed),
        ("outlier", outlier, &r.outlier),
    ] {
        let exp: Vec<usize> = (0..n).filter(|i| want[*i]).collect();
        case.count(&format!("{what} pixels observed"), exp.len() as u64);
        case.check(list == exp, || {
            format!(
                "{} {what} pixels: library {:?}.. ({}), EEPROM {:?}.. ({})",
                model.name(),
                &list[..list.len().min(6)],
                list.len(),
                &exp[..exp.len().min(6)],
                exp.len()
            )
        });
        case.check(any == !exp.is_empty(), || {
            format!("{} {what}: any() = {any}, flagged {}", model.name(), exp.len())
        });
    }
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "one case = one EEPROM image with a chosen set of failed / outlier pixels (none, one, first, last, dense, sparse, near misses); the library's flag iterators are compared with the set; distinct = distinct flag sets";
    ctx.required = vec![("failed pixels observed", 100), ("outlier pixels observed", 100)];
    let n = ctx.n(24_000, 100_000);
    ctx.phase("flags", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let px = model.pixels();
        let mode = (case.idx / 2) % 8;
        // the flag sets
        let pick = |rng: &mut Rng, which: u64| -> Vec<bool> {
            let mut v = vec![false; px];
            match which {
                0 => {}
                1 => v[0] = true,
                2 => v[px - 1] = true,
                3 => {
                    let i = rng.idx(px);
                    v[i] = true;
                }
                4 => v.iter_mut().for_each(|b| *b = rng.chance(1, 50)),
                5 => v.iter_mut().for_each(|b| *b = rng.bool()),
                6 => {
                    // a run crossing a row boundary
                    let s = rng.idx(px - 40);
                    v[s..s + 40].iter_mut().for_each(|b| *b = true);
                }
                _ => v.iter_mut().for_each(|b| *b = true),
            }
            v
        };
        let failed = pick(&mut case.rng, mode);
        let om = case.rng.below(8);
        let outlier = pick(&mut case.rng, om);
        let style = if case.rng.bool() { Style::Plausible } else { Style::Wild };
        let (stored, d) = match model {
            Model::M40 => {
                let mut w = gen40(&mut case.rng, style);
                for i in 0..px {
                    let p = &mut w[0x40 + i];
                    if *p == 0 {
                        *p = 0x10;
                    }
                    *p = (*p & !1) | u16::from(outlier[i]);
                    if *p == 0 {
                        // a pixel with every other field zero is not failed unless all are
                        *p = 0x0020;
                    }
                    if failed[i] {
                        *p = 0;
                    }
                }
                let d = decode40(&w);
                (w, d)
            }
            Model::M41 => {
                let mut w = gen41(&mut case.rng, style);
                for i in 0..px {
                    let at = [0x40 + i, 0x280 + i, 0x100 + i, 0x1C0 + i];
                    if failed[i] {
                        at.iter().for_each(|a| w[*a] = 0);
                    } else if outlier[i] {
                        // near miss: a single word keeps the pixel alive
                        let keep = case.rng.idx(4);
                        for (n, a) in at.iter().enumerate() {
                            if n != keep {
                                w[*a] = 0;
                            } else if n >= 2 {
                                w[*a] = 1 << case.rng.idx(11);
                            } else if w[*a] == 0 {
                                w[*a] = 1;
                            }
                        }
                    } else if at.iter().all(|a| w[*a] == 0) {
                        w[at[2]] = 1;
                    }
                }
                let d = decode41(&w);
                let mut stored = ham_words(&w);
                if case.rng.chance(1, 3) {
                    // what is marked stays marked when each word has a repairable flip
                    let all = case.rng.bool();
                    for i in 0..px {
                        for a in [0x40 + i, 0x280 + i, 0x100 + i, 0x1C0 + i] {
                            if all || case.rng.chance(1, 40) {
                                stored[a] ^= 1 << case.rng.idx(16);
                            }
                        }
                    }
                    case.count("images with flipped bits", 1);
                }
                (stored, d)
            }
        };
        let mut h = 0xcbf2u64;
        for f in failed.iter().chain(&outlier) {
            h = h.wrapping_mul(0x100000001b3) ^ u64::from(*f);
        }
        case.seen(h);
        match d {
            Decoded::Ok(r) => {
                case.sample(|| {
                    format!(
                        "{} failed={} outlier={}",
                        model.name(),
                        r.failed.iter().filter(|b| **b).count(),
                        r.outlier.iter().filter(|b| **b).count()
                    )
                });
                c21_one(case, model, &stored, &r)
            }
            _ => case.count("unrepresentable, skipped", 1),
        }
    });
    let _ = (EEPROM_WORDS, Mlx90640::NUM_PIXELS, Mlx90641::NUM_PIXELS);
}
