//! C08-C12, C22: from raw measurement words to images.
use std::marker::PhantomData;

use mlx9064x::calculations::*;
use mlx9064x::common::FromI2C;
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::{CalibrationData, MelexisCamera};

use crate::ctx::{Case, Ctx};
use crate::custom::{self, Custom};
use crate::drv::{same_bits, Act, Drv, How, Val};
use crate::ee::*;
use crate::iv::Iv;
use crate::laws::Mask;
use crate::refcalc::*;
use crate::rng::{mix, Rng};
use crate::scene::{self, setup, Frame, Setup};
use crate::wear::Wear;
use crate::sim::{Bus, Cam, Model, RAM_BASE};

/// The pixel bytes as the library's buffers hold them.
pub fn pixel_bytes(cam: &Cam, subpage: usize) -> Vec<u8> {
    (0..cam.model.pixels())
        .flat_map(|i| {
            cam.ram[usize::from(cam.model.pixel_addr(i, subpage) - RAM_BASE)].to_be_bytes()
        })
        .collect()
}

pub fn raw_of(cam: &Cam, px: usize, subpage: usize) -> i16 {
    cam.ram_word(cam.model.pixel_addr(px, subpage))
}

fn hash_cam(cam: &Cam) -> u64 {
    cam.ram
        .iter()
        .chain(&cam.eeprom)
        .fold(u64::from(cam.control), |h, w| mix(h ^ u64::from(*w)))
}

/// Everything one frame yields through the calculation functions.
pub struct Pipelines {
    pub ir: Vec<f32>,
    pub ir_ta: f32,
    pub one: Vec<f32>,
    pub one_ta: f32,
    pub two: Vec<f32>,
}

pub const SENTINEL: f32 = -54321.25;

#[allow(clippy::too_many_arguments)]
pub fn pipelines<'a, C: CalibrationData<'a>>(
    cal: &'a C,
    cam: &Cam,
    subpage: usize,
    chess: bool,
    rc: f32,
    emissivity: f32,
    t_r: Option<f32>,
) -> Pipelines {
    let n = cam.model.pixels();
    let bytes = pixel_bytes(cam, subpage);
    let ram = Ram::of(cam, subpage).lib();
    let (s, p) = (sub(subpage), pattern(chess));
    let mask: Vec<bool> = (0..n).map(|i| cam.model.in_subpage(i, subpage, chess)).collect();
    let kind = usize::from(bytes[5]);
    let mut ir = vec![SENTINEL; n];
    let mut it = Mask::new(&mask, kind);
    let ir_ta = raw_pixels_to_ir_data(cal, emissivity, rc, &bytes, ram, s, p, &mut it, &mut ir);
    let mut one = vec![SENTINEL; n];
    let mut it = Mask::new(&mask, kind + 1);
    let one_ta = raw_pixels_to_temperatures(
        cal, emissivity, t_r, rc, &bytes, ram, s, p, &mut it, &mut one,
    );
    let mut two = ir.clone();
    let mut it = Mask::new(&mask, kind + 2);
    raw_ir_to_temperatures(cal, emissivity, ir_ta, t_r, s, &mut it, &mut two);
    Pipelines {
        ir,
        ir_ta,
        one,
        one_ta,
        two,
    }
}

fn judge(case: &mut Case, what: impl Fn() -> String, iv: Iv, got: f32) -> bool {
    case.eval();
    match iv.admits(got) {
        Some(true) => {
            case.count("values decided", 1);
            true
        }
        None => {
            case.count("values undecided", 1);
            true
        }
        Some(false) => {
            case.fail(format!("{}: library {got:e}, documented formula {iv:?}", what()));
            false
        }
    }
}

/// Tightness of an interval that decided a temperature.
fn tight(case: &mut Case, iv: Iv) {
    if let Iv::In(a, b) = iv {
        if b - a < 0.1 {
            case.count("temperatures pinned to < 0.1 K", 1);
        }
    }
}

fn judge_ir(case: &mut Case, who: &str, sc: &Scene, cam: &Cam, chess: bool, out: &[f32]) {
    let sp = sc.subpage;
    for px in 0..cam.model.pixels() {
        if !cam.model.in_subpage(px, sp, chess) || sc.cal.failed[px] {
            continue;
        }
        let raw = raw_of(cam, px, sp);
        let iv = sc.ir(px, raw);
        let w = || {
            format!(
                "{who} {} pixel {px} subpage {sp} chess={chess} raw={raw} emissivity={}: IR",
                cam.model.name(),
                sc.emissivity
            )
        };
        if !judge(case, w, iv, out[px]) {
            return;
        }
    }
}

fn judge_temp(case: &mut Case, who: &str, sc: &Scene, cam: &Cam, chess: bool, out: &[f32]) {
    let sp = sc.subpage;
    for px in 0..cam.model.pixels() {
        if !cam.model.in_subpage(px, sp, chess) || sc.cal.failed[px] {
            continue;
        }
        let raw = raw_of(cam, px, sp);
        let iv = sc.temp(px, raw);
        let w = || {
            format!(
                "{who} {} pixel {px} subpage {sp} chess={chess} raw={raw} emissivity={} t_r={:?}: T_o",
                cam.model.name(),
                sc.emissivity,
                sc.t_r
            )
        };
        tight(case, iv);
        if !judge(case, w, iv, out[px]) {
            return;
        }
    }
}

/// A custom calibration with a frame that suits it.
fn custom_case<C: MelexisCamera>(
    rng: &mut Rng,
    model: Model,
    kind: Frame,
) -> (Custom<C>, RefCal, Setup) {
    let mut s = setup(rng, model, Style::Plausible, kind);
    let (c, x) = custom::made::<C>(rng, model);
    s.cal = c.view(&x, 0, s.cam.chess());
    s.refill(rng, kind);
    (c, x, s)
}

// ---------------------------------------------------------------------------------------------

fn functions<C: MelexisCamera>(case: &mut Case, model: Model) {
    let (_, x) = gen_ok(&mut case.rng, model, Style::Plausible);
    let (_, y) = gen_ok(&mut case.rng, model, Style::Plausible);
    let mut c: Custom<C> = Custom::mix(&mut case.rng, &x, &y, true);
    let rng = &mut case.rng;
    let wide = |rng: &mut Rng| {
        if rng.chance(1, 4) {
            scene::special(rng)
        } else {
            rng.i16()
        }
    };
    if rng.bool() {
        c.k_v_dd = wide(rng);
        c.v_dd_25 = wide(rng);
    }
    for _ in 0..64 {
        let rng = &mut case.rng;
        let r = Ram {
            v_be: wide(rng),
            ptat: wide(rng),
            vdd: wide(rng),
            gain: wide(rng),
            cp: wide(rng),
        };
        let (cal, cur) = (rng.below(4) as u16, rng.below(4) as u16);
        let rc = res_corr(cal, cur);
        let emissivity = scene::pick_emissivity(rng);
        let mut v = c.view(&x, 0, false);
        v.k_v_dd = c.k_v_dd.into();
        v.v_dd_25 = c.v_dd_25.into();
        let want = common(&v, &r, rc);
        case.seen(mix(r.v_be as u64 | (r.ptat as u64) << 16 | (r.vdd as u64) << 32));
        let got = case.lib("delta_v / v_dd / v_ptat_art / ambient_temperature", || {
            let d = delta_v(&c, r.vdd);
            let art = v_ptat_art(&c, r.ptat, r.v_be);
            (
                d,
                v_dd(&c, rc as f32, d),
                art,
                ambient_temperature(&c, art, d),
                CommonIrData::new(rc as f32, emissivity, &c, &r.lib()),
            )
        });
        let Some((d, vd, art, ta, com)) = got else { return };
        let ctx = || format!("{} {r:?} rc={rc}", model.name());
        judge(case, || format!("{} delta_v", ctx()), want.delta_v, d);
        judge(case, || format!("{} v_dd", ctx()), want.v_dd, vd);
        judge(case, || format!("{} v_ptat_art", ctx()), want.art, art);
        judge(case, || format!("{} ambient_temperature", ctx()), want.t_a, ta);
        judge(case, || format!("{} CommonIrData.gain", ctx()), want.gain, com.gain);
        judge(case, || format!("{} CommonIrData.v_dd", ctx()), want.v_dd, com.v_dd);
        judge(case, || format!("{} CommonIrData.t_a", ctx()), want.t_a, com.t_a);
        case.check(com.emissivity == emissivity, || "CommonIrData.emissivity".into());
        // one pixel, with common data of a sensible size
        let rng = &mut case.rng;
        let com = CommonIrData {
            gain: rng.frange(0.5, 1.5) as f32,
            v_dd: rng.frange(3.0, 3.6) as f32,
            emissivity,
            t_a: rng.frange(-40.0, 125.0) as f32,
        };
        let (raw, off) = (rng.i16(), rng.i16());
        let kv = rng.frange(-1.0, 1.0) as f32;
        let kta = rng.frange(-0.05, 0.05) as f32;
        let il = if rng.bool() { Some(rng.frange(-10.0, 10.0) as f32) } else { None };
        let e = |v: f32| Iv::exact(f64::from(v));
        let one = Iv::exact(1.0);
        let mut iv = e(f32::from(raw)).mul(e(com.gain));
        if let Some(il) = il {
            iv = iv.add(e(il));
        }
        let ta = one.add(e(kta).mul(e(com.t_a).sub(Iv::exact(25.0))));
        let vd = one.add(e(kv).mul(e(com.v_dd).sub(Iv::c(3.3))));
        let iv = iv
            .sub(Iv::exact(f64::from(off)).mul(ta).mul(vd))
            .div(e(emissivity));
        let Some(g) = case.lib("per_pixel_v_ir", || {
            per_pixel_v_ir(raw, &com, off, kv, kta, il)
        }) else {
            return;
        };
        judge(
            case,
            || format!("per_pixel_v_ir({raw}, {com:?}, {off}, {kv}, {kta}, {il:?})"),
            iv,
            g,
        );
        if case.failed() {
            return;
        }
    }
    case.sample(|| format!("{} 64 sets of raw words against custom constants", model.name()));
}

/// One of the words a frame is computed from takes each of its values; the others stay sensible.
fn every_word<C: MelexisCamera>(case: &mut Case, model: Model, word: usize, block: u64) {
    const SIZE: i32 = 4096;
    let (c, x, mut s) = custom_case::<C>(&mut case.rng, model, Frame::Real);
    let (chess, rc) = (s.cam.chess(), s.rc());
    let sp = case.rng.idx(2);
    let v = c.view(&x, sp, chess);
    let name = ["V_BE", "PTAT", "V_DD", "gain", "compensation pixel", "pixel"][word];
    let first = -32768 + SIZE * block as i32;
    let n = model.pixels();
    let measured: Vec<usize> = (0..n).filter(|p| model.in_subpage(*p, sp, chess)).collect();
    let mut out = vec![0f32; n];
    let mut at = first;
    while at < first + SIZE {
        let mut r = Ram::of(&s.cam, sp);
        let to = at as i16;
        match word {
            0 => r.v_be = to,
            1 => r.ptat = to,
            2 => r.vdd = to,
            3 => r.gain = to,
            4 => r.cp = to,
            _ => {
                for (k, px) in measured.iter().enumerate() {
                    let a = model.pixel_addr(*px, sp);
                    s.cam.ram[usize::from(a - RAM_BASE)] = (at + k as i32) as u16;
                }
            }
        }
        let sc = Scene::new(&v, r, f64::from(rc as f32), sp, false, s.emissivity, s.t_r);
        let what = || format!("{} {name} {to}, {r:?}", model.name());
        case.seen(mix(word as u64 | (at as u16 as u64) << 16 | (block << 40)));
        case.count("values of one word", 1);
        if word < 4 {
            let Some(com) = case.lib("CommonIrData::new", || {
                CommonIrData::new(rc as f32, s.emissivity, &c, &r.lib())
            }) else {
                return;
            };
            judge(case, || format!("{} CommonIrData.gain", what()), sc.c.gain, com.gain);
            judge(case, || format!("{} CommonIrData.v_dd", what()), sc.c.v_dd, com.v_dd);
            judge(case, || format!("{} CommonIrData.t_a", what()), sc.c.t_a, com.t_a);
            at += 1;
        } else {
            let bytes = pixel_bytes(&s.cam, sp);
            // The compensation pixel matters to every pixel: a few are enough.
            let few = word == 4;
            let pick = case.rng.idx(n);
            let wanted = |px: usize| {
                model.in_subpage(px, sp, chess) && (!few || (px + n - pick) % n < 4)
            };
            let Some(ta) = case.lib("raw_pixels_to_ir_data", || {
                let mut it = (0..n).map(wanted);
                raw_pixels_to_ir_data(
                    &c, s.emissivity, rc as f32, &bytes, r.lib(), sub(sp), pattern(chess), &mut it,
                    &mut out,
                )
            }) else {
                return;
            };
            judge(case, || format!("{} T_a", what()), sc.c.t_a, ta);
            for px in (0..n).filter(|p| wanted(*p)) {
                let raw = raw_of(&s.cam, px, sp);
                let w = || format!("{} pixel {px} raw={raw} subpage {sp} chess={chess}", what());
                judge(case, w, sc.ir(px, raw), out[px]);
            }
            at += if few { 1 } else { measured.len() as i32 };
        }
        if case.failed() {
            return;
        }
    }
    case.sample(|| format!("{} {name} {first}..{}", model.name(), first + SIZE));
}

fn each<F>(case: &mut Case, kind: Frame, f: F)
where
    F: Fn(&mut Case, &Setup, usize, bool, f32, Option<Pipelines>, RefCal),
{
    let i = case.idx;
    macro_rules! go {
        ($cam:ty, $model:expr) => {{
            let (c, x, s) = custom_case::<$cam>(&mut case.rng, $model, kind);
            let (chess, rc) = (s.cam.chess(), s.rc() as f32);
            case.seen(hash_cam(&s.cam));
            for sp in 0..2 {
                let v = c.view(&x, sp, chess);
                let p = case.lib("the calculation functions", || {
                    pipelines(&c, &s.cam, sp, chess, rc, s.emissivity, s.t_r)
                });
                f(case, &s, sp, chess, rc, p, v);
            }
        }};
    }
    if i % 2 == 0 {
        go!(Mlx90640, Model::M40)
    } else {
        go!(Mlx90641, Model::M41)
    }
}

fn kinds(i: u64) -> Frame {
    [Frame::Real, Frame::Noise, Frame::Wild, Frame::Real][((i / 2) % 4) as usize]
}

/// A scene over a custom calibration: the compensation is already the one of the access pattern.
fn custom_scene<'c>(s: &Setup, v: &'c RefCal, sp: usize, rc: f32) -> Scene<'c> {
    Scene::new(
        v,
        Ram::of(&s.cam, sp),
        f64::from(rc),
        sp,
        false,
        s.emissivity,
        s.t_r,
    )
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "one case = one set of raw words and constants: the per-frame functions, the IR image functions with calibrations that differ per subpage, and the drivers over the simulated bus, each value compared with interval evaluation of the documented formula; distinct = distinct raw words / camera memories";
    ctx.required = vec![("values decided", 100_000)];
    ctx.assumptions = vec![
        "values whose f32 evaluation is dominated by rounding (division by an interval containing 0, overflow, subnormals) get no verdict",
        "the driver frames use the reference-decoded calibration",
    ];
    let n = ctx.n(4_000, 100_000);
    ctx.phase("functions", n, |case| {
        if case.idx % 2 == 0 {
            functions::<Mlx90640>(case, Model::M40)
        } else {
            functions::<Mlx90641>(case, Model::M41)
        }
    });
    let sets = if ctx.thorough { 60 } else { 4 };
    ctx.phase("every word", sets * 192, |case| {
        let (word, block) = ((case.idx / 2 % 6) as usize, case.idx / 12 % 16);
        if case.idx % 2 == 0 {
            every_word::<Mlx90640>(case, Model::M40, word, block)
        } else {
            every_word::<Mlx90641>(case, Model::M41, word, block)
        }
    });
    let n = ctx.n(1_500, 40_000);
    ctx.phase("custom calibration", n, |case| {
        let kind = kinds(case.idx);
        each(case, kind, |case, s, sp, chess, rc, p, v| {
            let Some(p) = p else { return };
            let sc = custom_scene(s, &v, sp, rc);
            let what = || format!("T_a of {} {:?}", s.cam.model.name(), sc.ram);
            judge(case, what, sc.c.t_a, p.ir_ta);
            judge(case, what, sc.c.t_a, p.one_ta);
            judge_ir(case, "raw_pixels_to_ir_data", &sc, &s.cam, chess, &p.ir);
            case.sample(|| {
                format!(
                    "{} subpage {sp} T_a={} ir[0..2]={:?} reference {:?}",
                    s.cam.model.name(),
                    p.ir_ta,
                    &p.ir[..2],
                    sc.ir(0, raw_of(&s.cam, 0, sp))
                )
            });
        });
    });
    let n = ctx.n(1_500, 40_000);
    ctx.phase("driver", n, |case| driver_frame(case, true, false));
    let n = ctx.n(800, 20_000);
    ctx.phase("driver with a custom calibration", n, |case| driver_frame(case, true, true));
}

/// A driver over the bus, with the reference decoding the EEPROM, or with constants of our own.
fn driver_frame(case: &mut Case, raw: bool, own: bool) {
    let (style, kind) = scene::kind(case.idx / 2);
    let model = Model::BOTH[(case.idx % 2) as usize];
    let mut s = setup(&mut case.rng, model, style, kind);
    let chess = s.cam.chess();
    let seed = case.rng.u64();
    let how = if own { How::Custom(seed) } else { How::Bus };
    let views = if own {
        let v = [0, 1].map(|n| custom::seeded_view(model, seed, n, chess));
        s.cal = v[0].clone();
        s.refill(&mut case.rng, kind);
        Some(v)
    } else {
        None
    };
    case.seen(hash_cam(&s.cam));
    let addr = s.cam.addr;
    let bus = Bus::one(s.cam.clone());
    let Some(d) = case.lib("Driver::new", || how.make(model, &bus, addr)) else { return };
    let mut d = match d {
        Ok(d) => d,
        Err(e) => return case.fail(format!("{}: driver rejects the camera: {e:?}", model.name())),
    };
    let e0 = s.cal.emissivity.unwrap_or(1.0) as f32;
    if case.rng.chance(1, 3) {
        s.emissivity = e0;
    } else {
        d.override_emissivity(s.emissivity);
    }
    d.set_reflected(s.t_r);
    if Wear::perhaps(case, 24, 300, &bus, &mut d, model).is_none() {
        return;
    }
    for round in 0..2 {
        let sp = case.rng.idx(2);
        let act = if raw {
            Act::RawSub(sub(sp))
        } else {
            match case.rng.idx(3) {
                0 => Act::ImageSub(sub(sp)),
                1 => Act::Image,
                _ => Act::IfReady,
            }
        };
        if matches!(act, Act::Image | Act::IfReady) {
            let bit = sp as u16;
            bus.cam(|c| c.status = (c.status & !9) | bit | 8);
        }
        let mut out = vec![SENTINEL; model.pixels()];
        let Some(r) = case.lib("generating an image", || d.act(act, &mut out)) else { return };
        case.check(matches!(r, Ok(Val::Unit) | Ok(Val::Bool(true))), || {
            format!("{act:?} on a healthy bus: {r:?}")
        });
        let sc = match &views {
            Some(v) => custom_scene(&s, &v[sp], sp, s.rc() as f32),
            None => s.scene(sp),
        };
        let ta = d.ambient();
        case.check(ta.is_some(), || format!("no ambient temperature after {act:?}"));
        judge(
            case,
            || format!("{} ambient temperature, {:?}, rc={}", model.name(), sc.ram, s.rc()),
            sc.c.t_a,
            ta.unwrap_or(0.0),
        );
        if raw {
            judge_ir(case, "driver", &sc, &s.cam, chess, &out);
        } else {
            judge_temp(case, "driver", &sc, &s.cam, chess, &out);
        }
        case.sample(|| {
            format!(
                "{} {act:?} chess={chess} resolution {}->{} T_a={ta:?} out[0..3]={:?}",
                model.name(),
                s.cal.resolution,
                s.cam.resolution(),
                &out[..3]
            )
        });
        if case.failed() {
            return;
        }
        if round == 0 {
            s.refill(&mut case.rng, kind);
            let ram = s.cam.ram.clone();
            bus.cam(|c| c.ram = ram);
        }
    }
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "one case = one frame (inverted from a wanted scene, noise, or wild words) through the temperature functions and the drivers, every pixel compared with interval evaluation of the documented formulas; distinct = distinct camera memories / argument sets";
    ctx.required = vec![
        ("values decided", 100_000),
        ("temperatures pinned to < 0.1 K", 20_000),
    ];
    ctx.assumptions = vec![
        "pixels whose f32 evaluation is dominated by rounding get no verdict",
        "basic temperature range only, as the library documents",
    ];
    let n = ctx.n(8_000, 200_000);
    ctx.phase("functions", n, |case| {
        for _ in 0..64 {
            let rng = &mut case.rng;
            let t_a = rng.frange(-60.0, 130.0) as f32;
            let t_r = match rng.idx(6) {
                0 => scene::odd_reflected(rng),
                1 => t_a,
                2 => t_a + rng.frange(-0.5, 0.5) as f32,
                _ => rng.frange(-80.0, 130.0) as f32,
            };
            let eps = if rng.chance(1, 3) {
                scene::odd_emissivity(rng)
            } else {
                scene::pick_emissivity(rng)
            };
            let x = |v: f32| Iv::exact(f64::from(v));
            let Some(g) = case.lib("t_ar", || mlx9064x::calculations::t_ar(t_a, t_r, eps)) else { return };
            let iv = crate::refcalc::t_ar(x(t_a), x(t_r), eps);
            judge(case, || format!("t_ar({t_a}, {t_r}, {eps})"), iv, g);
            let rng = &mut case.rng;
            let alpha = (rng.frange(1.0, 9.0) * 10f64.powi(-(rng.range(5, 8) as i32))) as f32;
            let tar = (rng.frange(180.0, 500.0).powi(4)) as f32;
            let to = rng.frange(150.0, 800.0).powi(4);
            let v = (f64::from(alpha) * (to - f64::from(tar))) as f32;
            let ks = *rng.pick(&[0.0, 1.0, -1.0]) * rng.frange(1e-5, 2e-3);
            let ks = ks as f32;
            let Some(g) = case.lib("per_pixel_temperature", || {
                per_pixel_temperature(v, alpha, tar, ks)
            }) else {
                return;
            };
            let iv = temperature(x(v), x(alpha), x(tar), x(ks));
            tight(case, iv);
            judge(
                case,
                || format!("per_pixel_temperature({v:e}, {alpha:e}, {tar:e}, {ks:e})"),
                iv,
                g,
            );
            case.seen(mix(u64::from(v.to_bits()) << 32 | u64::from(alpha.to_bits())));
        }
    });
    let n = ctx.n(1_500, 40_000);
    ctx.phase("custom calibration", n, |case| {
        let kind = kinds(case.idx);
        each(case, kind, |case, s, sp, chess, rc, p, v| {
            let Some(p) = p else { return };
            let sc = custom_scene(s, &v, sp, rc);
            judge_temp(case, "raw_pixels_to_temperatures", &sc, &s.cam, chess, &p.one);
            judge_temp(case, "raw_ir_to_temperatures", &sc, &s.cam, chess, &p.two);
            case.sample(|| {
                format!(
                    "{} subpage {sp} T_o[0..3]={:?} reference {:?}",
                    s.cam.model.name(),
                    &p.one[..3],
                    sc.temp(0, raw_of(&s.cam, 0, sp))
                )
            });
        });
    });
    // IR values that no frame produced, straight into the second step.
    let n = ctx.n(1_500, 40_000);
    ctx.phase("second step alone", n, |case| {
        let m40 = case.idx % 2 == 0;
        macro_rules! go {
            ($cam:ty, $model:expr) => {{
                let (c, x, s) = custom_case::<$cam>(&mut case.rng, $model, Frame::Real);
                let (chess, rc) = (s.cam.chess(), s.rc() as f32);
                let sp = case.rng.idx(2);
                let v = c.view(&x, sp, chess);
                let mut sc = custom_scene(&s, &v, sp, rc);
                let t_a = case.rng.frange(-40.0, 110.0) as f32;
                sc.c.t_a = Iv::exact(f64::from(t_a));
                let n = $model.pixels();
                let ir: Vec<f32> = (0..n)
                    .map(|_| case.rng.frange(-300.0, 3000.0) as f32)
                    .collect();
                let mut out = ir.clone();
                case.seen(u64::from(ir[0].to_bits()));
                let done = case.lib("raw_ir_to_temperatures", || {
                    let mut it = (0..n).map(|i| $model.in_subpage(i, sp, chess));
                    raw_ir_to_temperatures(
                        &c, s.emissivity, t_a, s.t_r, sub(sp), &mut it, &mut out,
                    )
                });
                if done.is_none() {
                    return;
                }
                for px in 0..n {
                    if $model.in_subpage(px, sp, chess) {
                        let iv = sc.temp_of_ir(px, Iv::exact(f64::from(ir[px])));
                        let e = s.emissivity;
                        let w = || {
                            format!(
                                "raw_ir_to_temperatures {} pixel {px} subpage {sp} V_IR={} t_a={t_a} t_r={:?} emissivity={e}",
                                $model.name(), ir[px], s.t_r
                            )
                        };
                        tight(case, iv);
                        if !judge(case, w, iv, out[px]) {
                            return;
                        }
                    } else if out[px].to_bits() != ir[px].to_bits() {
                        return case.fail(format!("pixel {px} outside the subpage changed"));
                    }
                }
            }};
        }
        if m40 {
            go!(Mlx90640, Model::M40)
        } else {
            go!(Mlx90641, Model::M41)
        }
    });
    let n = ctx.n(1_500, 40_000);
    ctx.phase("driver", n, |case| driver_frame(case, false, false));
    let n = ctx.n(800, 20_000);
    ctx.phase("driver with a custom calibration", n, |case| driver_frame(case, false, true));
}

// ---------------------------------------------------------------------------------------------

/// Two evaluations of the same documented quantity.
fn agree(iv: Iv, a: f32, b: f32) -> Option<bool> {
    if same_bits(a) == same_bits(b) {
        return Some(true);
    }
    match iv {
        Iv::In(..) => Some(f64::from((a - b).abs()) <= iv.width() * 1.01 + 1e-30),
        Iv::Nan => Some(a.is_nan() && b.is_nan()),
        Iv::Undecided => None,
    }
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = "one case = one frame taken through every public route to the same image: IR then temperatures, one pass, and the three driver calls; images compared pixel by pixel, T_a too; distinct = distinct camera memories";
    ctx.required = vec![("pixel pairs compared", 100_000)];
    let n = ctx.n(1_500, 40_000);
    ctx.phase("custom calibration", n, |case| {
        let kind = kinds(case.idx);
        each(case, kind, |case, s, sp, chess, rc, p, v| {
            let Some(p) = p else { return };
            let sc = custom_scene(s, &v, sp, rc);
            pair(case, s, &sc, chess, "one pass / two steps", &p.one, &p.two);
            let ok = agree(sc.c.t_a, p.ir_ta, p.one_ta);
            case.check(ok != Some(false), || {
                format!("T_a differs between the routes: {} / {}", p.ir_ta, p.one_ta)
            });
        });
    });
    let n = ctx.n(1_500, 40_000);
    ctx.phase("driver", n, |case| {
        let (style, kind) = scene::kind(case.idx / 2);
        let model = Model::BOTH[(case.idx % 2) as usize];
        let s = setup(&mut case.rng, model, style, kind);
        case.seen(hash_cam(&s.cam));
        let chess = s.cam.chess();
        let sp = case.rng.idx(2);
        let addr = s.cam.addr;
        let mut cam = s.cam.clone();
        cam.status = (cam.status & !9) | sp as u16 | 8;
        // The functions, fed from the same EEPROM and the same memory
        let rc = s.rc() as f32;
        let mut cal_bus = Bus::one(cam.clone());
        let p = case.lib("the calculation functions", || match model {
            Model::M40 => Mlx90640Calibration::from_i2c(&mut cal_bus, addr)
                .ok()
                .map(|c| pipelines(&c, &cam, sp, chess, rc, s.emissivity, s.t_r)),
            Model::M41 => Mlx90641Calibration::from_i2c(&mut cal_bus, addr)
                .ok()
                .map(|c| pipelines(&c, &cam, sp, chess, rc, s.emissivity, s.t_r)),
        });
        let Some(Some(p)) = p else {
            return case.fail("calibration rejected");
        };
        let sc = s.scene(sp);
        pair(case, &s, &sc, chess, "one pass / two steps", &p.one, &p.two);
        for act in [Act::ImageSub(sub(sp)), Act::Image, Act::IfReady, Act::RawSub(sub(sp))] {
            let past = Wear::pick(&mut case.rng, 60, 300);
            let bus = Bus::one(cam.clone());
            let mut out = vec![SENTINEL; model.pixels()];
            let r = case.lib("driver", || {
                let mut d = Drv::new(model, &bus, addr).ok()?;
                d.override_emissivity(s.emissivity);
                d.set_reflected(s.t_r);
                past.map(|w| w.live(&bus, &mut d, model));
                let r = d.act(act, &mut out).ok()?;
                Some((r, d.ambient()))
            });
            let Some(Some((r, ta))) = r else {
                return case.fail(format!("{act:?} failed on a healthy bus"));
            };
            case.check(r != Val::Bool(false), || "ready data was not taken".into());
            let ok = agree(sc.c.t_a, ta.unwrap_or(SENTINEL), p.one_ta);
            case.check(ta.is_some() && ok != Some(false), || {
                format!("{act:?} ambient temperature {ta:?}, functions {}", p.one_ta)
            });
            let want = if matches!(act, Act::RawSub(_)) { &p.ir } else { &p.one };
            let name = format!("{act:?} / functions");
            if matches!(act, Act::RawSub(_)) {
                for px in 0..model.pixels() {
                    if sc.cal.failed[px] {
                        continue;
                    }
                    let iv = sc.ir(px, raw_of(&s.cam, px, sp));
                    compare_px(case, &s, &name, px, iv, chess, sp, out[px], want[px]);
                }
            } else {
                pair(case, &s, &sc, chess, &name, &out, want);
            }
            if case.failed() {
                return;
            }
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn compare_px(
    case: &mut Case,
    s: &Setup,
    what: &str,
    px: usize,
    iv: Iv,
    chess: bool,
    sp: usize,
    a: f32,
    b: f32,
) {
    let m = s.cam.model;
    if !m.in_subpage(px, sp, chess) {
        case.check(a.to_bits() == b.to_bits(), || {
            format!("{what} {} pixel {px} outside subpage {sp}: {a} / {b}", m.name())
        });
        return;
    }
    match agree(iv, a, b) {
        Some(ok) => {
            case.count("pixel pairs compared", 1);
            case.check(ok, || {
                format!("{what} {} pixel {px} subpage {sp}: {a:e} / {b:e} ({iv:?})", m.name())
            });
        }
        None => case.count("pixel pairs undecided", 1),
    }
}

fn pair(case: &mut Case, s: &Setup, sc: &Scene, chess: bool, what: &str, a: &[f32], b: &[f32]) {
    for px in 0..s.cam.model.pixels() {
        if sc.cal.failed[px] {
            continue;
        }
        let iv = sc.temp(px, raw_of(&s.cam, px, sc.subpage));
        compare_px(case, s, what, px, iv, chess, sc.subpage, a[px], b[px]);
        if case.failed() {
            return;
        }
    }
    case.sample(|| format!("{what}: {} pixel 0: {} / {}", s.cam.model.name(), a[0], b[0]));
}

// ---------------------------------------------------------------------------------------------

fn fill(seed: u64, n: usize) -> Vec<f32> {
    (0..n)
        .map(|i| f32::from_bits((mix(seed ^ i as u64) as u32 & 0x007F_FFFF) | 0xC700_0000))
        .collect()
}

/// Call the driver with a given destination from a given camera state.
fn image_run(
    model: Model,
    cam: &Cam,
    s: &Setup,
    act: Act,
    past: Option<Wear>,
    dest: &mut [f32],
) -> Result<(Val, Option<f32>), String> {
    let bus = Bus::one(cam.clone());
    let mut d = Drv::new(model, &bus, cam.addr).map_err(|e| format!("{e:?}"))?;
    d.override_emissivity(s.emissivity);
    d.set_reflected(s.t_r);
    past.map(|w| w.live(&bus, &mut d, model));
    let v = d.act(act, dest).map_err(|e| format!("{e:?}"))?;
    Ok((v, d.ambient()))
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "one case = one image call (driver or function) into destinations prefilled with two different patterns and with several lengths: pixels of the subpage must be written (identically whatever was there), all others must keep their bits; distinct = distinct (camera memory, call, length)";
    ctx.required = vec![
        ("pixels that had to stay untouched", 50_000),
        ("pixels that had to be written", 50_000),
    ];
    let n = ctx.n(2_000, 60_000);
    ctx.phase("driver", n, |case| {
        let (style, kind) = scene::kind(case.idx / 2);
        let model = Model::BOTH[(case.idx % 2) as usize];
        let s = setup(&mut case.rng, model, style, kind);
        let chess = s.cam.chess();
        let np = model.pixels();
        let sp = case.rng.idx(2);
        let act = match case.idx / 12 % 4 {
            0 => Act::RawSub(sub(sp)),
            1 => Act::ImageSub(sub(sp)),
            2 => Act::Image,
            _ => Act::IfReady,
        };
        let mut cam = s.cam.clone();
        if !matches!(act, Act::RawSub(_) | Act::ImageSub(_)) {
            cam.status = (cam.status & !9) | sp as u16 | 8;
        }
        let len = match case.rng.idx(6) {
            0 => case.rng.idx(np + 1),
            1 => 0,
            2 => np - 1,
            3 => np + 1 + case.rng.idx(40),
            _ => np,
        };
        case.seen(mix(hash_cam(&cam) ^ len as u64));
        let past = Wear::pick(&mut case.rng, 16, 300);
        let (sa, sb) = (case.rng.u64(), case.rng.u64());
        let (a0, b0, f0) = (fill(sa, len), fill(sb, len), fill(sa ^ 1, np));
        let (mut a, mut b, mut full) = (a0.clone(), b0.clone(), f0.clone());
        let r = case.lib("generating an image", || {
            (
                image_run(model, &cam, &s, act, past, &mut a),
                image_run(model, &cam, &s, act, past, &mut b),
                image_run(model, &cam, &s, act, past, &mut full),
            )
        });
        match r {
            Some((Ok(x), Ok(y), Ok(z))) => {
                case.check(
                    x.0 == y.0 && x.0 == z.0 && x.1.map(same_bits) == z.1.map(same_bits),
                    || format!("{act:?}: outcome depends on the destination: {x:?} {y:?} {z:?}"),
                );
            }
            Some(e) => return case.fail(format!("{act:?} on a healthy bus: {e:?}")),
            None => return,
        }
        written(case, &format!("{act:?} {}", model.name()), len, np, |i| {
            model.in_subpage(i, sp, chess)
        }, (&a0, &a), (&b0, &b), Some((&f0, &full)));
        case.sample(|| {
            format!("{} {act:?} chess={chess} destination of {len}, status {:#06x}", model.name(), cam.status)
        });
    });
    let n = ctx.n(2_000, 60_000);
    ctx.phase("functions", n, |case| {
        let m40 = case.idx % 2 == 0;
        macro_rules! go {
            ($cam:ty, $model:expr) => {{
                let (c, _, s) = custom_case::<$cam>(&mut case.rng, $model, Frame::Real);
                let np = $model.pixels();
                let sp = case.rng.idx(2);
                let chess = s.cam.chess();
                let rc = s.rc() as f32;
                let len = match case.rng.idx(4) {
                    0 => case.rng.idx(np + 1),
                    1 => np + 1 + case.rng.idx(40),
                    _ => np,
                };
                // any mask the caller likes, of any length
                let mlen = match case.rng.idx(3) {
                    0 => case.rng.idx(np + 1),
                    _ => np + case.rng.idx(3),
                };
                let mode = case.rng.idx(4);
                let mask: Vec<bool> = (0..mlen)
                    .map(|i| match mode {
                        0 => case.rng.bool(),
                        1 => case.rng.chance(1, 40),
                        2 => true,
                        _ => $model.in_subpage(i.min(np - 1), sp, chess),
                    })
                    .collect();
                let mut bytes = pixel_bytes(&s.cam, sp);
                let blen = match case.rng.idx(4) {
                    0 => case.rng.idx(2 * np + 1),
                    1 => 2 * np - 1,
                    _ => 2 * np,
                };
                bytes.truncate(blen);
                let ram = Ram::of(&s.cam, sp).lib();
                let temps = case.rng.bool();
                let kind = case.rng.idx(Mask::KINDS);
                let call = |dest: &mut [f32]| {
                    let mut it = Mask::new(&mask, kind);
                    if temps {
                        raw_pixels_to_temperatures(
                            &c, s.emissivity, s.t_r, rc, &bytes, ram, sub(sp), pattern(chess),
                            &mut it, dest,
                        );
                    } else {
                        raw_pixels_to_ir_data(
                            &c, s.emissivity, rc, &bytes, ram, sub(sp), pattern(chess), &mut it,
                            dest,
                        );
                    }
                };
                case.seen(mix(hash_cam(&s.cam) ^ (len * 4096 + mlen) as u64));
                let (sa, sb) = (case.rng.u64(), case.rng.u64());
                let (a0, b0, f0) = (fill(sa, len), fill(sb, len), fill(sb ^ 1, np));
                let (mut a, mut b, mut full) = (a0.clone(), b0.clone(), f0.clone());
                if case
                    .lib("image function", || {
                        call(&mut a);
                        call(&mut b);
                        call(&mut full);
                    })
                    .is_none()
                {
                    return;
                }
                let pick = |i: usize| {
                    mask.get(i).copied().unwrap_or(false) && i < np && 2 * i + 1 < blen
                };
                let name = format!("{} function temps={temps}", $model.name());
                written(case, &name, len, np, pick, (&a0, &a), (&b0, &b), Some((&f0, &full)));
                // the second step, in place
                let mut t = a0.clone();
                if case
                    .lib("raw_ir_to_temperatures", || {
                        let mut it = Mask::new(&mask, kind);
                        raw_ir_to_temperatures(
                            &c, s.emissivity, 30.0, s.t_r, sub(sp), &mut it, &mut t,
                        )
                    })
                    .is_none()
                {
                    return;
                }
                for i in 0..len {
                    let sel = mask.get(i).copied().unwrap_or(false) && i < np;
                    if !sel && t[i].to_bits() != a0[i].to_bits() {
                        return case.fail(format!(
                            "raw_ir_to_temperatures changed pixel {i}, which was not selected"
                        ));
                    }
                    if sel && t[i].to_bits() == a0[i].to_bits() {
                        return case.fail(format!("raw_ir_to_temperatures left pixel {i}"));
                    }
                }
            }};
        }
        if m40 {
            go!(Mlx90640, Model::M40)
        } else {
            go!(Mlx90641, Model::M41)
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn written(
    case: &mut Case,
    what: &str,
    len: usize,
    np: usize,
    pick: impl Fn(usize) -> bool,
    a: (&[f32], &[f32]),
    b: (&[f32], &[f32]),
    full: Option<(&[f32], &[f32])>,
) {
    for i in 0..len {
        let sel = i < np && pick(i);
        case.eval();
        if sel {
            case.count("pixels that had to be written", 1);
            if same_bits(a.1[i]) != same_bits(b.1[i]) {
                return case.fail(format!(
                    "{what}: pixel {i} (of the subpage) is {} / {} depending on what was there",
                    a.1[i], b.1[i]
                ));
            }
        } else {
            case.count("pixels that had to stay untouched", 1);
            if a.1[i].to_bits() != a.0[i].to_bits() || b.1[i].to_bits() != b.0[i].to_bits() {
                return case.fail(format!(
                    "{what}: pixel {i} is not part of the subpage but was written ({} -> {})",
                    a.0[i], a.1[i]
                ));
            }
        }
    }
    let Some(f) = full else { return };
    for i in 0..np {
        if pick(i) {
            if i < len && same_bits(a.1[i]) != same_bits(f.1[i]) {
                return case.fail(format!(
                    "{what}: pixel {i} is {} in a destination of {len}, {} in a full one",
                    a.1[i], f.1[i]
                ));
            }
        } else if f.0[i].to_bits() != f.1[i].to_bits() {
            return case.fail(format!("{what}: pixel {i} written in the full image"));
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "one case = one camera memory and image call, then the same call after changing a single memory word; the set of outputs that changed is compared with the set the memory map allows; distinct = distinct (memory, word)";
    ctx.required = vec![
        ("own pixel words", 1000),
        ("foreign words", 1000),
        ("frame words", 500),
        ("influence confirmed", 1000),
    ];
    let n = ctx.n(1_500, 40_000);
    ctx.phase("perturb", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let kind = if case.idx / 2 % 2 == 0 { Frame::Real } else { Frame::Noise };
        let s = setup(&mut case.rng, model, Style::Plausible, kind);
        let chess = s.cam.chess();
        let np = model.pixels();
        let sp = case.rng.idx(2);
        let act = match case.idx / 4 % 4 {
            0 => Act::RawSub(sub(sp)),
            1 => Act::ImageSub(sub(sp)),
            2 => Act::Image,
            _ => Act::IfReady,
        };
        let mut cam = s.cam.clone();
        // the status register's subpage must only matter where the call has no subpage argument
        let bit = if matches!(act, Act::Image | Act::IfReady) { sp as u16 } else { case.rng.u16() & 1 };
        cam.status = (cam.status & !9) | bit | 8;
        // Frame words nobody expects, so that nothing else is looked at instead.
        if case.rng.chance(1, 3) {
            let a = *case.rng.pick(&model.aux());
            let v = *case.rng.pick(&[0, 0, 1, -1, i16::MIN, i16::MAX]);
            cam.set_ram(a, v);
            case.count("odd frame words", 1);
        }
        if case.rng.chance(1, 12) {
            let v = *case.rng.pick(&[0, -1]);
            model.aux().iter().for_each(|a| cam.set_ram(*a, v));
        }
        let s = Setup { cam: cam.clone(), ..s };
        let past = Wear::pick(&mut case.rng, 24, 64);
        let f0 = fill(case.rng.u64(), np);
        let mut base = f0.clone();
        let Some(Ok((_, ta0))) =
            case.lib("generating an image", || image_run(model, &cam, &s, act, past, &mut base))
        else {
            return case.fail(format!("{act:?} on a healthy bus"));
        };
        let sc0 = s.scene(sp);
        let mine: Vec<usize> = (0..np).filter(|i| model.in_subpage(*i, sp, chess)).collect();
        let other: Vec<usize> = (0..np).filter(|i| !model.in_subpage(*i, sp, chess)).collect();
        for k in 0..24 {
            let aux = model.aux();
            // (address, expected)
            #[derive(Debug, PartialEq)]
            enum Who {
                Own(usize),
                Aux(usize),
                Nobody,
            }
            let (addr, who) = match k % 8 {
                0..=2 => {
                    let px = *case.rng.pick(&mine);
                    (model.pixel_addr(px, sp), Who::Own(px))
                }
                3 => {
                    // the same pixel in the other subpage's memory (or a pixel of the other one)
                    let px = if other.is_empty() {
                        *case.rng.pick(&mine)
                    } else {
                        *case.rng.pick(&other)
                    };
                    (model.pixel_addr(px, 1 - sp), Who::Nobody)
                }
                4 => {
                    let a = [0usize, 2, 3, 5][case.rng.idx(4)];
                    (aux[a], Who::Aux(a))
                }
                5 => (model.cp(sp), Who::Aux(1)),
                6 => (model.cp(1 - sp), Who::Nobody),
                _ => {
                    // any word which is neither a pixel of this subpage nor a frame word in use
                    let a = loop {
                        let a = RAM_BASE + case.rng.idx(model.ram_len()) as u16;
                        let used = mine.iter().any(|p| model.pixel_addr(*p, sp) == a)
                            || (aux.contains(&a) && a != model.cp(1 - sp));
                        if !used {
                            break a;
                        }
                    };
                    (a, Who::Nobody)
                }
            };
            let mut c2 = cam.clone();
            let old = c2.ram_word(addr);
            let new = match who {
                Who::Aux(_) => {
                    let d = case.rng.range(60, 200) as i16;
                    old.checked_add(d).unwrap_or_else(|| old.wrapping_sub(d))
                }
                _ => match case.rng.idx(4) {
                    0 => old ^ (1 << case.rng.idx(15)),
                    1 => old.wrapping_add(300),
                    2 => *case.rng.pick(&[0, 1, -1, i16::MIN, i16::MAX]),
                    _ => case.rng.i16(),
                },
            };
            if new == old {
                continue;
            }
            c2.set_ram(addr, new);
            case.seen(mix(hash_cam(&c2) ^ u64::from(addr)));
            let mut out = f0.clone();
            let Some(Ok((_, ta))) =
                case.lib("generating an image", || image_run(model, &c2, &s, act, past, &mut out))
            else {
                return case.fail(format!("{act:?} on a healthy bus"));
            };
            let changed: Vec<usize> = (0..np)
                .filter(|i| same_bits(out[*i]) != same_bits(base[*i]))
                .collect();
            let ta_changed = ta.map(same_bits) != ta0.map(same_bits);
            let d = |c: &Vec<usize>| format!("{:?}.. ({} pixels)", &c[..c.len().min(5)], c.len());
            match who {
                Who::Own(px) => {
                    case.count("own pixel words", 1);
                    case.check(changed.iter().all(|i| *i == px) && !ta_changed, || {
                        format!(
                            "{act:?} {}: word {addr:#06x} belongs to pixel {px} alone, but changing it changed {} T_a:{ta_changed}",
                            model.name(), d(&changed)
                        )
                    });
                    // and it must have an effect where the formula says so
                    let (i0, i1) = match act {
                        Act::RawSub(_) => (sc0.ir(px, old), sc0.ir(px, new)),
                        _ => (sc0.temp(px, old), sc0.temp(px, new)),
                    };
                    if let (Iv::In(a, b), Iv::In(c, e)) = (i0, i1) {
                        if (b < c || e < a) && !s.cal.failed[px] {
                            case.count("influence confirmed", 1);
                            case.check(!changed.is_empty(), || {
                                format!(
                                    "{act:?} {}: pixel {px} does not show a change of its word {addr:#06x}",
                                    model.name()
                                )
                            });
                        }
                    }
                }
                Who::Nobody => {
                    case.count("foreign words", 1);
                    case.check(changed.is_empty() && !ta_changed, || {
                        format!(
                            "{act:?} {} subpage {sp} chess={chess}: word {addr:#06x} is not part of this subpage, but changing it changed {} T_a:{ta_changed}",
                            model.name(), d(&changed)
                        )
                    });
                }
                Who::Aux(a) => {
                    case.count("frame words", 1);
                    let mut s2 = Setup {
                        cam: c2.clone(),
                        cal: s.cal.clone(),
                        emissivity: s.emissivity,
                        t_r: s.t_r,
                    };
                    s2.cam.control = s.cam.control;
                    let sc2 = s2.scene(sp);
                    let apart = |x: Iv, y: Iv| match (x, y) {
                        (Iv::In(a, b), Iv::In(c, e)) => b < c || e < a,
                        _ => false,
                    };
                    if matches!(a, 1 | 2) {
                        case.check(!ta_changed, || {
                            format!("{act:?} {}: word {addr:#06x} changed T_a", model.name())
                        });
                    } else if apart(sc0.c.t_a, sc2.c.t_a) {
                        case.count("influence confirmed", 1);
                        case.check(ta_changed, || {
                            format!("{act:?} {}: word {addr:#06x} does not reach T_a", model.name())
                        });
                    }
                    if a == 1 && s.cal.tgc == 0.0 {
                        case.check(changed.is_empty(), || {
                            format!(
                                "{act:?} {}: compensation pixel used although gradient compensation is off",
                                model.name()
                            )
                        });
                    }
                    if matches!(act, Act::RawSub(_)) {
                        for px in &mine {
                            let raw = raw_of(&cam, *px, sp);
                            if s.cal.failed[*px] || !apart(sc0.ir(*px, raw), sc2.ir(*px, raw)) {
                                continue;
                            }
                            case.count("influence confirmed", 1);
                            if !changed.contains(px) {
                                return case.fail(format!(
                                    "{act:?} {}: pixel {px} does not show a change of frame word {addr:#06x}",
                                    model.name()
                                ));
                            }
                        }
                    }
                }
            }
            case.sample(|| {
                format!("{} {act:?}: word {addr:#06x} {old}->{new} ({who:?}) changed {}", model.name(), d(&changed))
            });
            if case.failed() {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------

pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "one case = one plausible camera looking at a scene of known temperatures: raw words are computed from the scene by inverting the measurement equations in f64, and the driver's image is compared with the scene (allowance: quantisation of the raw word and the rounding bound of f32); plus monotonicity in the raw word; distinct = distinct camera memories";
    ctx.required = vec![("pixels recovered", 20_000), ("ordered pairs", 5_000), ("pixels above 300 degrees", 2_000)];
    let n = ctx.n(4_500, 40_000);
    ctx.phase("scene", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let mut s = setup(&mut case.rng, model, Style::Plausible, Frame::Noise);
        s.emissivity = match case.rng.idx(4) {
            0 => case.rng.frange(0.97, 1.0) as f32,
            1 => 1.0,
            2 => case.rng.frange(0.05, 0.6) as f32,
            _ => case.rng.frange(0.5, 1.0) as f32,
        };
        let chess = s.cam.chess();
        let sp = case.rng.idx(2);
        let np = model.pixels();
        let lo = case.rng.frange(-20.0, 60.0);
        let hi = lo
            + if case.rng.chance(1, 4) {
                case.rng.frange(190.0, 900.0)
            } else {
                case.rng.frange(5.0, 190.0)
            };
        let mut want = vec![None; np];
        {
            let mut cam = s.cam.clone();
            let sc = s.scene(sp);
            for px in 0..np {
                if !model.in_subpage(px, sp, chess) || s.cal.failed[px] {
                    continue;
                }
                let t = case.rng.frange(lo, hi);
                let raw = scene::invert(&sc, px, t);
                if !(-32000.0..32000.0).contains(&raw) || sc.alpha(px).mid() < 2e-8 {
                    continue;
                }
                let slope = (scene::invert(&sc, px, t + 0.5) - scene::invert(&sc, px, t - 0.5)).abs();
                cam.set_ram(model.pixel_addr(px, sp), raw.round() as i16);
                want[px] = Some((t, slope, raw.round() as i16));
            }
            drop(sc);
            s.cam = cam;
        }
        case.seen(hash_cam(&s.cam));
        let mut out = vec![SENTINEL; np];
        let cam = s.cam.clone();
        let past = Wear::pick(&mut case.rng, 24, 300);
        let Some(Ok(_)) = case.lib("generating an image", || {
            image_run(model, &cam, &s, Act::ImageSub(sub(sp)), past, &mut out)
        }) else {
            return case.fail("image failed on a healthy bus");
        };
        let sc = s.scene(sp);
        for px in 0..np {
            let Some((t, slope, raw)) = want[px] else { continue };
            let iv = sc.temp(px, raw);
            if !matches!(iv, Iv::In(..)) || !(slope >= 0.2) || iv.width() > 5.0 {
                case.count("pixels without verdict", 1);
                continue;
            }
            let allow = 0.75 / slope + iv.width() + 0.02;
            case.count("pixels recovered", 1);
            if allow < 1.0 {
                case.count("pixels recovered within 1 K", 1);
            }
            if t > 300.0 {
                case.count("pixels above 300 degrees", 1);
            }
            case.eval();
            if !((f64::from(out[px]) - t).abs() <= allow) {
                return case.fail(format!(
                    "{} pixel {px} subpage {sp}: scene {t:.3}, image {:.3}, allowance {allow:.3}",
                    model.name(),
                    out[px]
                ));
            }
        }
        case.sample(|| {
            let px = want.iter().position(|w| w.is_some()).unwrap_or(0);
            format!("{} scene {:?} image {}", model.name(), want[px], out[px])
        });
        // hotter never looks colder
        let px: Vec<usize> = (0..np).filter(|p| want[*p].is_some()).collect();
        if px.is_empty() {
            return;
        }
        for _ in 0..3 {
            let p = *case.rng.pick(&px);
            let (_, _, r0) = want[p].unwrap();
            let r1 = r0.saturating_add(case.rng.range(1, 400) as i16);
            let (a, b) = (sc.temp(p, r0), sc.temp(p, r1));
            let (Iv::In(_, ah), Iv::In(bl, _)) = (a, b) else { continue };
            if ah >= bl {
                continue;
            }
            let mut c2 = s.cam.clone();
            c2.set_ram(model.pixel_addr(p, sp), r1);
            let mut o2 = vec![SENTINEL; np];
            let Some(Ok(_)) = case.lib("generating an image", || {
                image_run(model, &c2, &s, Act::ImageSub(sub(sp)), past, &mut o2)
            }) else {
                return case.fail("image failed on a healthy bus");
            };
            case.count("ordered pairs", 1);
            case.check(o2[p] > out[p], || {
                format!(
                    "{} pixel {p}: raw {r0} -> {:.3}, raw {r1} -> {:.3}",
                    model.name(),
                    out[p],
                    o2[p]
                )
            });
        }
    });
    let _ = PhantomData::<()>;
}
