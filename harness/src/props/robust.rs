//! C04 totality: no input makes the library panic, overflow or hang. C17 no heap.
use mlx9064x::calculations::*;
use mlx9064x::common::{read_ram, FromI2C};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration, RamAddress as Ram40};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration, RamAddress as Ram41};
use mlx9064x::{
    Address, CalibrationData, ControlRegister, Error, FrameRate, I2cRegister, LibraryError,
    MelexisCamera, Mlx90640Driver, Mlx90641Driver, Resolution, StatusRegister,
};

use crate::ctx::{Case, Ctx};
use crate::custom::Custom;
use crate::drv::{Act, Drv, ErrV, Swarm, Val, RATES};
use crate::ee::{gen, gen_ok, ham_words, to_bytes, Style};
use crate::heap::watch;
use crate::laws::Mask;
use crate::refcalc::{extract, pattern, raw_res, sub};
use crate::rng::{fnv, mix, Rng};
use crate::scene::{self, setup, Frame};
use crate::wear::Wear;
use crate::sim::{Bus, Cam, Fault, Model, RdErr, WrErr};

pub fn float(rng: &mut Rng) -> f32 {
    match rng.idx(5) {
        0 => *rng.pick(&[
            0.0,
            -0.0,
            1.0,
            -1.0,
            f32::NAN,
            f32::INFINITY,
            f32::NEG_INFINITY,
            f32::MAX,
            f32::MIN,
            f32::MIN_POSITIVE,
            f32::EPSILON,
        ]),
        1 => f32::from_bits(rng.u64() as u32),
        _ => rng.frange(-300.0, 300.0) as f32,
    }
}

fn word(rng: &mut Rng) -> i16 {
    if rng.chance(1, 3) {
        *rng.pick(&[0, 1, -1, i16::MIN, i16::MAX, i16::MIN + 1])
    } else {
        rng.i16()
    }
}

/// EEPROM content: from plausible to arbitrary.
fn content(rng: &mut Rng, model: Model) -> Vec<u16> {
    let fill = |rng: &mut Rng| -> Vec<u16> {
        let v = rng.u16();
        (0..832).map(|_| v).collect()
    };
    match rng.idx(8) {
        0 => (0..832).map(|_| rng.u16()).collect(),
        1 => {
            // constant, or two values mixed
            let (a, b) = (*rng.pick(&[0, 0xFFFF, 0x8000, 0x7FFF]), rng.u16());
            let mut v = fill(rng);
            for w in &mut v {
                *w = if rng.chance(1, 8) { b } else { a };
            }
            v
        }
        2 | 3 => {
            // extreme fields inside a plausible image
            let (mut w, _) = gen(rng, model, Style::Plausible);
            for _ in 0..rng.range(1, 40) {
                let i = rng.idx(832);
                w[i] = *rng.pick(&[0, 0xFFFF, 0x8000, 0x7FFF, 0xF000, 0x000F, 0x00FF]);
            }
            if model == Model::M41 {
                let d: Vec<u16> = w.iter().map(|x| x & 0x7FF).collect();
                w = ham_words(&d);
            }
            w
        }
        4 => {
            // extreme scales: the words with shifts and multipliers
            let (mut w, _) = gen(rng, model, Style::Wild);
            for i in 0..0x40 {
                if rng.chance(1, 3) {
                    w[i] = *rng.pick(&[0, 0xFFFF, 0x8000, 0x7FFF, 0x07FF, 0x0400]);
                }
            }
            if model == Model::M41 {
                let d: Vec<u16> = w.iter().map(|x| x & 0x7FF).collect();
                w = ham_words(&d);
            }
            w
        }
        5 if model == Model::M41 => {
            let d: Vec<u16> = (0..832).map(|_| rng.u16() & 0x7FF).collect();
            ham_words(&d)
        }
        _ => gen(rng, model, Style::Wild).0,
    }
}

fn dump_outcome(case: &mut Case, model: Model, dump: &[u8]) -> Option<Result<u64, LibraryError>> {
    let what = format!("from_data ({} bytes, {})", dump.len(), model.name());
    let hash = |r: crate::ee::RefCal| {
        let mut h = r.gain.to_bits() ^ r.v_dd_25 as u64;
        for v in r.off.iter().flatten() {
            h = mix(h ^ *v as u64);
        }
        for v in r.alpha.iter().chain(&r.kv).chain(&r.kta).chain(&r.k_s_to) {
            h = mix(h ^ v.to_bits());
        }
        h
    };
    case.lib(&what, || match model {
        Model::M40 => Mlx90640Calibration::from_data(dump).map(|c| hash(extract(&c, model))),
        Model::M41 => Mlx90641Calibration::from_data(dump).map(|c| hash(extract(&c, model))),
    })
}

fn generic_calls<C: MelexisCamera>(case: &mut Case, model: Model, heap: bool) {
    let mut r0 = Rng::new(case.idx % 16);
    let (_, x) = gen_ok(&mut r0, model, Style::Plausible);
    let mut c: Custom<C> = Custom::mix(&mut case.rng, &x, &x, true);
    for _ in 0..20 {
        let rng = &mut case.rng;
        c.k_v_dd = word(rng);
        c.v_dd_25 = word(rng);
        c.alpha_ptat = float(rng);
        c.k_v_ptat = float(rng);
        c.k_t_ptat = float(rng);
        c.v_ptat_25 = float(rng);
        c.gain = float(rng);
        c.k_s_ta = float(rng);
        c.tgc = if rng.bool() { Some(float(rng)) } else { None };
        c.v_dd_0 = float(rng);
        for s in &mut c.sub {
            s.off_cp = word(rng);
            for i in 0..s.off.len() {
                if rng.chance(1, 10) {
                    s.off[i] = word(rng);
                    s.alpha[i] = float(rng);
                    s.kv[i] = float(rng);
                    s.kta[i] = float(rng);
                }
            }
        }
        for k in &mut c.k_s_to {
            *k = float(rng);
        }
        let ram = RamData {
            t_a_v_be: word(rng),
            t_a_ptat: word(rng),
            v_dd_pixel: word(rng),
            gain: word(rng),
            compensation_pixel: word(rng),
        };
        let n = model.pixels();
        let len = |rng: &mut Rng, full: usize| match rng.idx(6) {
            0 => 0,
            1 => 1,
            2 => full - 1,
            3 => full + 1 + rng.idx(70),
            4 => rng.idx(full),
            _ => full,
        };
        let (nd, nb, nm) = (len(rng, n), len(rng, 2 * n), len(rng, n));
        let bytes: Vec<u8> = (0..nb).map(|_| rng.u8()).collect();
        let mask: Vec<bool> = (0..nm).map(|_| rng.chance(3, 4)).collect();
        let kind = rng.idx(Mask::KINDS);
        let (rc, e, ta) = (float(rng), float(rng), float(rng));
        let t_r = if rng.bool() { Some(float(rng)) } else { None };
        let (s, p) = (sub(rng.idx(2)), pattern(rng.bool()));
        const MARK: f32 = 123456.0;
        let mut dest = vec![MARK; nd];
        case.seen(mix(u64::from(rc.to_bits()) ^ (nd as u64) << 32 ^ (nb as u64) << 48));
        let d = dest.clone();
        let Some((d, allocs, _)) = case.lib(
            &format!("the calculation functions ({nd} pixels, {nb} bytes, mask of {nm})"),
            || watch(|| {
                let mut d = d;
                let mut it = Mask::new(&mask, kind);
                raw_pixels_to_ir_data(&c, e, rc, &bytes, ram, s, p, &mut it, &mut d);
                let mut it = Mask::new(&mask, kind + 1);
                raw_ir_to_temperatures(&c, e, ta, t_r, s, &mut it, &mut d);
                let mut it = Mask::new(&mask, kind + 2);
                raw_pixels_to_temperatures(&c, e, t_r, rc, &bytes, ram, s, p, &mut it, &mut d);
                let dv = delta_v(&c, ram.v_dd_pixel);
                let _ = v_dd(&c, rc, dv);
                let _ = ambient_temperature(&c, v_ptat_art(&c, ram.t_a_ptat, ram.t_a_v_be), ta);
                let _ = sensitivity_correction_coefficient(&c, ta);
                let _ = t_ar(ta, rc, e);
                let _ = per_pixel_temperature(rc, ta, e, rc);
                let common = CommonIrData::new(rc, e, &c, &ram);
                let _ = per_pixel_v_ir(ram.gain, &common, ram.v_dd_pixel, ta, rc, t_r);
                d
            }),
        ) else {
            return;
        };
        if heap {
            case.count("calculation calls watched", 10);
            let fine = case.check(allocs == 0, || {
                format!("the calculation functions made {allocs} allocations")
            });
            if !fine {
                return;
            }
        }
        dest = d;
        case.count("calculation calls", 10);
        // Only pixels which have data and are selected may change.
        let reach = nd.min(nb / 2).min(n);
        for (i, v) in dest.iter().enumerate() {
            // raw_ir_to_temperatures works in place and needs no raw data
            let reachable = i < nd.min(n) && mask.get(i) == Some(&true);
            if !case.check(reachable || *v == MARK, || {
                format!("pixel {i} of {nd} was written (data for {reach}, mask of {nm})")
            }) {
                return;
            }
        }
    }
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule = "one case = hostile input for one entry point: EEPROM dumps of any length and content, cameras with arbitrary memory and registers under arbitrary call sequences and faults, calculation functions with arbitrary numbers, lengths and masks; the library is built with overflow checks and debug assertions; distinct = distinct inputs by hash";
    ctx.required = vec![
        ("dumps", 10_000),
        ("short dumps rejected", 2_000),
        ("dumps accepted", 500),
        ("dumps rejected for their content", 500),
        ("hostile calls", 20_000),
        ("calls with an odd buffer", 3_000),
        ("cameras refused", 50),
        ("calculation calls", 10_000),
    ];
    ctx.assumptions = vec![
        "a CalibrationData implementation supplied by the user fulfils the trait's documented contract (slice lengths)",
        "hang = more than 500 bus operations in one call; synchronize() waits for the camera by design",
    ];
    let n = ctx.n(18_000, 150_000);
    ctx.phase("dumps", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let words = content(&mut case.rng, model);
        let mut bytes = to_bytes(&words);
        let full = bytes.len();
        let Some(base) = dump_outcome(case, model, &bytes) else { return };
        case.count("dumps", 1);
        case.seen(words.iter().fold(1, |h, w| mix(h ^ u64::from(*w))));
        match &base {
            Ok(_) => case.count("dumps accepted", 1),
            Err(e) => {
                let shown = format!("{e} {e:?}");
                case.check(!shown.is_empty(), || "empty error text".into());
                case.count("dumps rejected for their content", 1);
            }
        }
        // Longer: the rest is ignored.
        for _ in 0..case.rng.range(1, 600) {
            bytes.push(case.rng.u8());
        }
        let Some(long) = dump_outcome(case, model, &bytes) else { return };
        case.check(long == base, || {
            format!(
                "{}: a dump with {} extra bytes gives {long:?}, without them {base:?}",
                model.name(),
                bytes.len() - full
            )
        });
        // Shorter: refused.
        for k in 0..3 {
            let l = match k {
                0 => full - 1 - case.rng.idx(4),
                1 => case.rng.idx(full),
                _ => *case.rng.pick(&[0, 1, 2, 3, 31, 32, 63, 64, 65, 128, 832, 831, 833, 1600, 1662, 1663]),
            };
            let Some(short) = dump_outcome(case, model, &bytes[..l]) else { return };
            case.count("dumps", 1);
            case.count("short dumps rejected", 1);
            case.check(short.is_err(), || {
                format!("{}: a dump of {l} bytes was accepted", model.name())
            });
        }
        case.sample(|| format!("{} {:?}", model.name(), base.is_ok()));
    });
    let n = ctx.n(7_500, 60_000);
    ctx.phase("cameras", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let rng = &mut case.rng;
        let ee = content(rng, model);
        let ram: Vec<u16> = match rng.idx(4) {
            0 => vec![0; model.ram_len()],
            1 => vec![*rng.pick(&[0x8000, 0x7FFF, 0xFFFF]); model.ram_len()],
            _ => (0..model.ram_len()).map(|_| word(rng) as u16).collect(),
        };
        let addr = rng.u8();
        let mut cam = Cam::new(model, addr, ee, ram.clone());
        cam.status = rng.u16();
        cam.control = rng.u16();
        let alt: Vec<u16> = (0..model.ram_len()).map(|_| word(rng) as u16).collect();
        cam.frames = vec![ram, alt];
        let bus = Bus::one(cam);
        bus.with(|b| b.budget = 500);
        let Some(d) = case.lib("construction", || Drv::new(model, &bus, addr)) else { return };
        let mut d = match d {
            Ok(d) => d,
            Err(e) => {
                case.count("cameras refused", 1);
                case.check(matches!(e, ErrV::Lib(_)), || format!("no bus fault, but {e:?}"));
                return;
            }
        };
        if Wear::perhaps(case, 16, 300, &bus, &mut d, model).is_none() {
            return;
        }
        let swarm = Swarm::new(&mut case.rng);
        for _ in 0..16 {
            let rng = &mut case.rng;
            let act = swarm.pick(rng, |rng| match rng.idx(8) {
                0 => Act::OverrideEmissivity(float(rng)),
                1 => Act::SetReflected(Some(float(rng))),
                2 => Act::Sync,
                3 | 4 => Act::image(rng),
                _ => Act::any(rng),
            });
            let n = model.pixels();
            let len = match rng.idx(5) {
                0 => 0,
                1 => rng.idx(n),
                2 => n + 1 + rng.idx(300),
                _ => n,
            };
            let (fault, at) = (rng.chance(1, 6), rng.below(25));
            let (frame, fat) = (rng.chance(1, 4), rng.below(8));
            let other = rng.chance(1, 4).then(|| (rng.u16(), rng.u16()));
            bus.arm();
            bus.with(|b| {
                b.budget = 500;
                b.cams[0].measure_delay = Some(3);
                if fault {
                    b.faults.push((at, Fault::Partial, 1));
                }
                if frame {
                    b.frame_at.push((0, fat));
                }
                if let Some((s, c)) = other {
                    b.cams[0].status = s;
                    b.cams[0].control = c;
                }
            });
            const MARK: f32 = 98765.0;
            let mut dest = vec![MARK; len];
            let what = format!("{} {act:?} with a buffer of {len}", model.name());
            case.count("hostile calls", 1);
            if act.is_image() && len != n {
                case.count("calls with an odd buffer", 1);
            }
            let Some(out) = case.lib(&what, || d.act(act, &mut dest)) else { return };
            case.seen(mix(fnv(act.name().as_bytes()) ^ len as u64 ^ bus.with(|b| u64::from(b.cams[0].control)) << 16));
            case.check(
                !matches!(out, Err(ErrV::Lib(_))),
                || format!("{what}: {out:?} without any data to complain about"),
            );
            if len > n {
                case.check(dest[n..].iter().all(|v| *v == MARK), || {
                    format!("{what}: wrote beyond the image")
                });
            }
            if case.failed() {
                return;
            }
        }
        case.sample(|| format!("{} survived 16 calls", model.name()));
    });
    let n = ctx.n(3_600, 30_000);
    ctx.phase("calculations", n, |case| {
        if case.idx % 2 == 0 {
            generic_calls::<Mlx90640>(case, Model::M40, false)
        } else {
            generic_calls::<Mlx90641>(case, Model::M41, false)
        }
        case.sample(|| "20 sets of arbitrary numbers, lengths and masks".into());
    });
}

// ---------------------------------------------------------------------------------------------

/// A formatter's destination which needs no memory of its own.
struct Void(usize);
impl core::fmt::Write for Void {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Every value type of the API, in and out, shown and compared.
pub fn values(w: u16, f: f32, id: u64) -> u64 {
    use core::convert::TryFrom;
    use core::fmt::Write;
    use mlx9064x::mlx90641::hamming::{add_checksum, validate_checksum};
    let mut v = Void(0);
    let mut x = 0u64;
    macro_rules! show {
        ($e:expr) => {{
            let e = $e;
            let _ = write!(v, "{e:?} {e:#?}");
            e
        }};
    }
    macro_rules! shown {
        ($e:expr) => {
            match show!($e) {
                Ok(_) => x += 1,
                Err(e) => {
                    let _ = write!(v, "{e} {e:>9}");
                    let l: LibraryError = e;
                    x += u64::from(l.clone() == l);
                }
            }
        };
    }
    let b = w.to_be_bytes();
    shown!(FrameRate::try_from(f));
    shown!(FrameRate::try_from(b[0]));
    shown!(FrameRate::try_from(b[0] & 7));
    shown!(Resolution::try_from(b[1]));
    shown!(Resolution::try_from(b[1] & 31));
    shown!(add_checksum(w));
    shown!(add_checksum(w & 0x7FF));
    shown!(validate_checksum(w));
    for r in RATES {
        let t: core::time::Duration = show!(r).into();
        let h: f32 = r.into();
        x += u64::from(t.subsec_millis()) + h as u64 + u64::from(r == FrameRate::default());
        shown!(FrameRate::try_from(h));
        let mut c = ControlRegister::from(&b[..]);
        c.set_frame_rate(r);
        x += c.frame_rate() as u64;
    }
    let mut c = show!(ControlRegister::from(&b[..]));
    x += u64::from(c.clone() == ControlRegister::default_mlx90640())
        + u64::from(c == ControlRegister::default_mlx90641());
    let (p, q) = (id & 1 == 0, id & 2 == 0);
    c.set_use_subpages(p);
    c.set_step_mode(q);
    c.set_data_hold(p);
    c.set_subpage_repeat(q);
    c.set_subpage(sub(usize::from(p)));
    c.set_access_pattern(pattern(q));
    x += u64::from(c.use_subpages()) + u64::from(c.step_mode()) + u64::from(c.data_hold());
    x += u64::from(c.subpage_repeat());
    let _ = write!(v, "{:?}{:?}{:?}", c.subpage(), c.access_pattern(), c.resolution());
    let r = c.resolution();
    c.set_resolution(r);
    let out: [u8; 2] = show!(c).into();
    x += u64::from(out[0]);
    let mut s = show!(StatusRegister::from(&b[..]));
    s.reset_new_data();
    s.set_overwrite_enabled(p);
    s.set_start_measurement();
    x += u64::from(s.new_data()) + u64::from(s.overwrite_enabled());
    x += u64::from(s.start_measurement()) + u64::from(s.clone() == s);
    let _ = write!(v, "{:?}", s.last_updated_subpage());
    let out: [u8; 2] = show!(s).into();
    x += u64::from(out[1]);
    let mut i = show!(I2cRegister::from(&b[..]));
    i.set_fast_mode_plus(p);
    i.set_i2c_threshold_halved(q);
    i.set_sda_current_limiter(p);
    x += u64::from(i.fast_mode_plus()) + u64::from(i.i2c_threshold_halved());
    x += u64::from(i.sda_current_limiter()) + u64::from(i == I2cRegister::default());
    let out: [u8; 2] = show!(i).into();
    x += u64::from(out[0]);
    let a = show!(Address::from(w));
    let (wide, narrow): (usize, u16) = (a.into(), a.into());
    x += wide as u64 + u64::from(narrow);
    x += u64::from(show!(Ram40::try_from(a)).is_ok()) + u64::from(show!(Ram41::try_from(a)).is_ok());
    // Only with the standard library: not part of the answer.
    #[cfg(feature = "std-backend")]
    let mut more = Void(0);
    let errs: [Error<Bus>; 5] = [
        Error::I2cWriteReadError(RdErr(id)),
        Error::I2cWriteError(WrErr(id)),
        Error::LibraryError(LibraryError::Checksum(w)),
        LibraryError::InvalidData("bad data").into(),
        LibraryError::Other("something").into(),
    ];
    for e in &errs {
        let _ = write!(v, "{e} {e:?} {e:#?}");
        #[cfg(feature = "std-backend")]
        {
            let mut at = std::error::Error::source(e);
            while let Some(s) = at {
                let _ = write!(more, "{s}");
                at = s.source();
            }
        }
    }
    x + u64::from(u8::from(raw_res(w))) + v.0 as u64
}

macro_rules! heap_act {
    ($d:expr, $a:expr, $dest:expr) => {{
        let d = $d;
        match $a {
            Act::LastSubpage => d.last_measured_subpage().is_ok(),
            Act::DataAvailable => d.data_available().is_ok(),
            Act::ResetData => d.reset_data_available().is_ok(),
            Act::Overwrite => d.overwrite_enabled().is_ok(),
            Act::SetOverwrite(v) => d.set_overwrite_enabled(v).is_ok(),
            Act::Subpages => d.subpages_enabled().is_ok(),
            Act::SetSubpages(v) => d.set_use_subpages(v).is_ok(),
            Act::Hold => d.data_hold_enabled().is_ok(),
            Act::SetHold(v) => d.set_data_hold(v).is_ok(),
            Act::Repeat => d.subpage_repeat().is_ok(),
            Act::SetRepeat(v) => d.set_subpage_repeat(v).is_ok(),
            Act::Selected => d.selected_subpage().is_ok(),
            Act::SetSelected(v) => d.set_subpage(v).is_ok(),
            Act::Rate => d.frame_rate().is_ok(),
            Act::SetRate(v) => d.set_frame_rate(v).is_ok(),
            Act::Res => d.resolution().is_ok(),
            Act::SetRes(v) => d.set_resolution(v).is_ok(),
            Act::Pattern => d.access_pattern().is_ok(),
            Act::SetPattern(v) => d.set_access_pattern(v).is_ok(),
            Act::RawSub(n) => d.generate_raw_image_subpage_to(n, $dest).is_ok(),
            Act::ImageSub(n) => d.generate_image_subpage_to(n, $dest).is_ok(),
            Act::Image => d.generate_image_to($dest).is_ok(),
            Act::IfReady => d.generate_image_if_ready($dest).is_ok(),
            Act::Sync => d.synchronize().is_ok(),
            Act::OverrideEmissivity(e) => {
                d.override_emissivity(e);
                d.use_default_emissivity();
                true
            }
            _ => {
                d.set_reflected_temperature(Some(1.0));
                let _ = (d.effective_emissivity(), d.reflected_temperature());
                d.ambient_temperature().is_some() && d.height() * d.width() > 0
            }
        }
    }};
}
macro_rules! heap_session {
    ($case:expr, $bus:expr, $addr:expr, $dump:expr, $acts:expr, $dest:expr, $drv:ty, $cal:ty, $cam:ty, $h:expr, $n:expr) => {{
        let (case, bus, addr, dump) = ($case, $bus, $addr, $dump);
        let mut total = 0u64;
        // loading, both ways
        let (c, n, _) = watch(|| <$cal>::from_data(dump));
        total += n;
        case.check(n == 0, || format!("from_data made {n} allocations"));
        if let Ok(c) = c {
            let (d, n, _) = watch(|| <$drv>::new_with_calibration(bus.clone(), addr, c.clone()));
            total += n;
            case.check(n == 0 && d.is_ok(), || {
                format!("new_with_calibration made {n} allocations")
            });
            let ((), n, _) = watch(|| {
                let _ = c.corner_temperatures().len() + c.k_s_to().len();
                for s in [sub(0), sub(1)] {
                    let _ = c.alpha_pixels(s).count() + c.offset_reference_pixels(s).count();
                    let _ = c.k_v_pixels(s).count() + c.k_ta_pixels(s).count();
                    for p in [pattern(true), pattern(false)] {
                        let _ = c.access_pattern_compensation_pixels(p).count();
                        let _ = <$cam>::pixels_in_subpage(s, p).into_iter().count();
                        let _ = <$cam>::pixel_ranges(s, p).into_iter().count();
                    }
                }
                let _ = c.failed_pixels().into_iter().count();
                let _ = c.outlier_pixels().into_iter().count();
            });
            total += n;
            case.check(n == 0, || format!("the calibration accessors made {n} allocations"));
            let mut buf = [0u8; $n * 2];
            let mut b2 = bus.clone();
            let (r, n, _) = watch(|| {
                read_ram::<$cam, Bus, $h>(&mut b2, addr, pattern(true), sub(1), &mut buf)
            });
            total += n;
            case.check(n == 0 && r.is_ok(), || format!("read_ram made {n} allocations"));
        }
        let mut b = bus.clone();
        let (r, n, _) = watch(|| <$cal>::from_i2c(&mut b, addr).map(|_| ()).map_err(|_: Error<Bus>| ()));
        total += n;
        case.check(n == 0, || format!("from_i2c made {n} allocations ({r:?})"));
        let (d, n, bytes) = watch(|| <$drv>::new(bus.clone(), addr));
        total += n;
        case.check(n == 0, || format!("construction made {n} allocations ({bytes} bytes)"));
        if let Ok(d) = d {
            let d = std::cell::RefCell::new(d);
            for a in $acts {
                bus.arm();
                let fault = case.rng.chance(1, 6);
                let at = case.rng.below(10);
                // Now and then a slow camera: thousands of polls within one call
                let slow = matches!(a, Act::Sync) && case.rng.chance(1, 8);
                let delay = if slow { case.rng.range(1_000, 70_000) as u32 } else { 3 };
                if slow {
                    case.count("slow measurements", 1);
                }
                bus.with(|s| {
                    s.cams[0].measure_delay = Some(delay);
                    s.logging = !slow;
                    s.budget = u64::from(delay) + 4_000;
                    if fault {
                        s.faults.push((at, Fault::Partial, 1));
                    }
                });
                let mut d = d.borrow_mut();
                let (_, n, bytes) = watch(|| heap_act!(&mut *d, *a, $dest));
                total += n;
                case.count("calls watched", 1);
                case.seen(fnv(format!("{}{}{}", stringify!($cam), a.name(), fault).as_bytes()));
                if !case.check(n == 0, || {
                    format!("{} {a:?} made {n} allocations ({bytes} bytes)", stringify!($cam))
                }) {
                    break;
                }
            }
            let (_, n, _) = watch(|| d.borrow().clone());
            total += n;
            case.check(n == 0, || format!("cloning the driver made {n} allocations"));
        }
        case.count("allocations seen", total);
    }};
}

pub fn c17(ctx: &mut Ctx) {
    ctx.rule = "one case = loading a calibration both ways and a session of API calls (some failing) with the process's allocator counting the calling thread's requests; distinct = distinct (camera, call, faulted)";
    ctx.required = vec![("calls watched", 10_000), ("detector proven", 8), ("value types", 40_000), ("slow measurements", 50), ("calculation calls watched", 50_000)];
    // The instrument itself: an allocation made on purpose has to be seen.
    ctx.phase("detector", 8, |case| {
        let (v, n, b) = watch(|| std::hint::black_box(vec![1u8; 100]));
        drop(v);
        if n == 1 && b == 100 {
            case.count("detector proven", 1);
        }
    });
    let n = ctx.n(100, 2_000);
    ctx.phase("value types", n, |case| {
        for _ in 0..64 {
            let (w, f) = (case.rng.u16(), float(&mut case.rng));
            let id = case.rng.u64();
            let Some((x, n, b)) = case.lib("a value type", || watch(|| values(w, f, id))) else {
                return;
            };
            std::hint::black_box(x);
            case.count("value types", 1);
            case.seen(mix(u64::from(w) ^ u64::from(f.to_bits()) << 16));
            if !case.check(n == 0, || {
                format!("registers, settings, addresses, checksums or errors made {n} allocations ({b} bytes) for {w:#06x}, {f:?}")
            }) {
                return;
            }
        }
    });
    let n = ctx.n(400, 4_000);
    ctx.phase("calculations", n, |case| {
        if case.idx % 2 == 0 {
            generic_calls::<Mlx90640>(case, Model::M40, true)
        } else {
            generic_calls::<Mlx90641>(case, Model::M41, true)
        }
    });
    let n = ctx.n(1_200, 8_000);
    ctx.phase("sessions", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let s = setup(&mut case.rng, model, Style::Plausible, Frame::Real);
        let (addr, dump) = (s.cam.addr, to_bytes(&s.cam.eeprom));
        let mut dest = vec![0f32; model.pixels()];
        let mut acts: Vec<Act> =
            (0..Act::EVERY).map(|i| Act::every(i, &mut case.rng)).collect();
        acts.extend((0..16).map(|_| Act::any(&mut case.rng)));
        if case.rng.chance(1, 20) {
            // many of one kind in a row
            let a = Act::every(case.rng.idx(Act::EVERY), &mut case.rng);
            let n = if case.rng.chance(1, 4) { 3_000 } else { 300 };
            acts.extend(std::iter::repeat(a).take(n));
        }
        let mut cam = s.cam;
        if case.rng.chance(1, 4) {
            cam.eeprom = content(&mut case.rng, model);
        }
        let bus = Bus::one(cam);
        bus.arm();
        let dest = &mut dest[..];
        match model {
            Model::M40 => heap_session!(
                &mut *case, &bus, addr, &dump, &acts, dest, Mlx90640Driver<Bus>,
                Mlx90640Calibration, Mlx90640, { Mlx90640::HEIGHT }, 768
            ),
            Model::M41 => heap_session!(
                &mut *case, &bus, addr, &dump, &acts, dest, Mlx90641Driver<Bus>,
                Mlx90641Calibration, Mlx90641, { Mlx90641::HEIGHT }, 192
            ),
        }
        case.sample(|| format!("{} {} calls", model.name(), acts.len()));
    });
    let _ = (Val::Unit, scene::kind(0));
}
