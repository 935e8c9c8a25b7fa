//! C03 checksums, C07 registers and settings types, C23 camera geometry.
use std::convert::TryFrom;
use std::time::Duration;

use mlx9064x::common::{read_ram, FromI2C, ToI2C};
use mlx9064x::mlx90640::{Mlx90640, RamAddress as Ram40};
use mlx9064x::mlx90641::hamming::{add_checksum, validate_checksum};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration, RamAddress as Ram41};
use mlx9064x::{
    AccessPattern, Address, ControlRegister, FrameRate, I2cRegister, LibraryError, MelexisCamera,
    Mlx90641Driver, Resolution, StatusRegister, Subpage,
};

use super::eeprom::compare;
use super::eeprom::flags_of;
use mlx9064x::CalibrationData as _;
use crate::ctx::{Case, Ctx};
use crate::drv::{errv, ErrV, RATES};
use crate::ee::*;
use crate::laws::laws;
use crate::refcalc::{pattern, raw_res, sub};
use crate::scene;
use crate::sim::{Bus, Cam, Kind, Model, CONTROL, I2CREG, RAM_BASE, STATUS};

// ---------------------------------------------------------------------------------------------

pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "phase words: all 65536 words through the encoder and the decoder, against minimum-distance decoding (exhaustive: every clean word, every single flip, every double flip); phase image: whole EEPROM images with chosen flips; distinct = distinct words / flip sets";
    ctx.exhaustive = true;
    ctx.required = vec![
        ("words decoded", 65536),
        ("single flips corrected", 2048 * 16),
        ("double flips detected", 2048 * 120),
        ("images corrected", 100),
        ("images rejected", 100),
        ("images with other identification words", 1_000),
    ];
    ctx.phase("words", 65536 / 256, |case| {
        for w in (case.idx * 256) as u32..(case.idx * 256 + 256) as u32 {
            let w = w as u16;
            case.seen(u64::from(w));
            let Some(v) = case.lib("validate_checksum", || validate_checksum(w)) else {
                return;
            };
            case.count("words decoded", 1);
            match ham_reference(w) {
                Some(d) => {
                    case.check(v == Ok(d), || {
                        format!("validate_checksum({w:#06x}) = {v:?}, nearest codeword holds {d:#x}")
                    });
                }
                None => {
                    case.check(v == Err(LibraryError::Checksum(w)), || {
                        format!("validate_checksum({w:#06x}) = {v:?}, two bits are wrong")
                    });
                }
            }
            let Some(a) = case.lib("add_checksum", || add_checksum(w)) else { return };
            if w > 0x7FF {
                case.check(a.is_err(), || {
                    format!("add_checksum({w:#06x}) = {a:?}: more than 11 bits accepted")
                });
                continue;
            }
            case.check(a == Ok(ham_encode(w)), || {
                format!("add_checksum({w:#06x}) = {a:?}, expected {:#06x}", ham_encode(w))
            });
            let Ok(cw) = a else { return };
            for i in 0..16 {
                let f = cw ^ (1 << i);
                let Some(r) = case.lib("validate_checksum", || validate_checksum(f)) else {
                    return;
                };
                case.count("single flips corrected", 1);
                case.check(r == Ok(w), || format!("{w:#x} with bit {i} flipped: {r:?}"));
                for j in 0..i {
                    let g = f ^ (1 << j);
                    let Some(r) = case.lib("validate_checksum", || validate_checksum(g)) else {
                        return;
                    };
                    case.count("double flips detected", 1);
                    case.check(r == Err(LibraryError::Checksum(g)), || {
                        format!("{w:#x} with bits {i},{j} flipped: {r:?}")
                    });
                }
            }
        }
        case.sample(|| format!("words {:#06x}..", case_words(0)));
    });
    let n = ctx.n(12_000, 60_000);
    ctx.phase("image", n, |case| {
        let style = if case.rng.bool() { Style::Plausible } else { Style::Wild };
        let (clean, cal) = gen_ok(&mut case.rng, Model::M41, style);
        let mut w = clean.clone();
        let used = used41();
        let mode = case.idx % 4;
        let mut flips = Vec::new();
        match mode {
            0 => {
                // one flip in every word
                for (i, x) in w.iter_mut().enumerate() {
                    let b = case.rng.idx(16);
                    *x ^= 1 << b;
                    flips.push((i, b));
                }
            }
            1 => {
                // at most one flip in some words
                for _ in 0..case.rng.range(1, 60) {
                    let i = case.rng.idx(w.len());
                    let b = case.rng.idx(16);
                    if !flips.iter().any(|f: &(usize, usize)| f.0 == i) {
                        w[i] ^= 1 << b;
                        flips.push((i, b));
                    }
                }
            }
            _ => {
                // two flips in one used word (walked in order), one in some others
                let i = used[((case.idx / 4) as usize) % used.len()];
                let b = case.rng.idx(16);
                let c = (b + 1 + case.rng.idx(15)) % 16;
                w[i] ^= (1 << b) | (1 << c);
                flips.push((i, b));
                flips.push((i, c));
                if mode == 3 {
                    for _ in 0..10 {
                        let k = case.rng.idx(w.len());
                        if !flips.iter().any(|f| f.0 == k) {
                            let b = case.rng.idx(16);
                            w[k] ^= 1 << b;
                            flips.push((k, b));
                        }
                    }
                }
            }
        }
        if w[..crate::ee::HEADER].iter().any(|x| ham_reference(*x).is_none()) {
            case.count("images with other identification words", 1);
        }
        case.seen(flips.iter().fold(mode, |h, f| {
            crate::rng::mix(h ^ (f.0 * 16 + f.1) as u64)
        }));
        let bytes = to_bytes(&w);
        let over_bus = case.rng.bool();
        let got = case.lib("decoding an image with flipped bits", || {
            if over_bus {
                let addr = 0x33;
                let mut bus = Bus::one(Cam::new(
                    Model::M41,
                    addr,
                    w.clone(),
                    vec![0; Model::M41.ram_len()],
                ));
                Mlx90641Calibration::from_i2c(&mut bus, addr).map_err(|e| match errv(e) {
                    ErrV::Lib(l) => l,
                    _ => LibraryError::Other("bus"),
                })
            } else {
                Mlx90641Calibration::from_data(&bytes)
            }
        });
        let Some(got) = got else { return };
        if mode < 2 {
            case.count("images corrected", 1);
            case.count("flipped bits corrected", flips.len() as u64);
            match got {
                Ok(c) => {
                    match compare(&c, &cal) {
                        Ok(n) => case.evals(n),
                        Err(e) => case.fail(format!("{} corrected flips: {e}", flips.len())),
                    }
                    let n = Model::M41.pixels();
                    for (what, got, want) in [
                        ("failed", flags_of(c.failed_pixels(), n).1, &cal.failed),
                        ("outlier", flags_of(c.outlier_pixels(), n).1, &cal.outlier),
                    ] {
                        let want: Vec<usize> = (0..n).filter(|i| want[*i]).collect();
                        case.check(got == want, || {
                            format!(
                                "{} corrected flips: {what} pixels {got:?}, intact image {want:?}",
                                flips.len()
                            )
                        });
                    }
                }
                Err(e) => case.fail(format!("correctable image rejected: {e:?}")),
            }
        } else {
            case.count("images rejected", 1);
            let (i, word) = (flips[0].0, w[flips[0].0]);
            case.check(got.as_ref().err() == Some(&LibraryError::Checksum(word)), || {
                format!(
                    "two flipped bits in EEPROM word {:#06x} ({word:#06x}): {:?}",
                    0x2400 + i,
                    got.as_ref().map(|_| "accepted").map_err(|e| format!("{e:?}"))
                )
            });
            // and the driver refuses to start on such a camera
            let bus = Bus::one(Cam::new(Model::M41, 0x33, w, vec![0; Model::M41.ram_len()]));
            if let Some(r) = case.lib("Driver::new", || {
                Mlx90641Driver::new(bus.clone(), 0x33).map(|_| ()).map_err(errv)
            }) {
                case.check(matches!(r, Err(ErrV::Lib(LibraryError::Checksum(_)))), || {
                    format!("driver on a damaged EEPROM: {r:?}")
                });
            }
        }
    });
}

fn case_words(i: u64) -> u64 {
    i * 256
}

// ---------------------------------------------------------------------------------------------

fn bit(v: u16, b: u32) -> bool {
    v >> b & 1 == 1
}

fn set(v: u16, shift: u32, width: u32, x: u16) -> u16 {
    let m = ((1u16 << width) - 1) << shift;
    (v & !m) | (x << shift)
}

fn status(w: u16) -> StatusRegister {
    StatusRegister::from(&w.to_be_bytes()[..])
}
fn control(w: u16) -> ControlRegister {
    ControlRegister::from(&w.to_be_bytes()[..])
}
fn i2creg(w: u16) -> I2cRegister {
    I2cRegister::from(&w.to_be_bytes()[..])
}
fn raw<R: Into<[u8; 2]>>(r: R) -> u16 {
    u16::from_be_bytes(r.into())
}

fn registers(case: &mut Case, w: u16) {
    macro_rules! eq {
        ($what:literal, $g:expr, $r:expr) => {{
            let (g, r) = ($g, $r);
            case.check(g == r, || {
                format!("{} of register value {w:#06x}: {g:?}, expected {r:?}", $what)
            });
        }};
    }
    // ---- status
    let s = status(w);
    eq!("status encoding", raw(s), w);
    eq!("last_updated_subpage", s.last_updated_subpage(), sub(usize::from(w & 1)));
    eq!("new_data", s.new_data(), bit(w, 3));
    eq!("overwrite_enabled", s.overwrite_enabled(), bit(w, 4));
    eq!("start_measurement", s.start_measurement(), bit(w, 5));
    let mut t = s;
    t.reset_new_data();
    eq!("reset_new_data", raw(t), w & !8);
    for b in [false, true] {
        let mut t = s;
        t.set_overwrite_enabled(b);
        eq!("set_overwrite_enabled", raw(t), set(w, 4, 1, b.into()));
    }
    let mut t = s;
    t.set_start_measurement();
    eq!("set_start_measurement", raw(t), w | 0x20);
    // ---- control
    let c = control(w);
    eq!("control encoding", raw(c), w);
    eq!("use_subpages", c.use_subpages(), bit(w, 0));
    eq!("step_mode", c.step_mode(), bit(w, 1));
    eq!("data_hold", c.data_hold(), bit(w, 2));
    eq!("subpage_repeat", c.subpage_repeat(), bit(w, 3));
    eq!("subpage", c.subpage(), sub(usize::from(w >> 4 & 1)));
    eq!("frame_rate", c.frame_rate(), RATES[usize::from(w >> 7 & 7)]);
    eq!("resolution", c.resolution(), raw_res(w >> 10));
    eq!("access_pattern", c.access_pattern(), pattern(bit(w, 12)));
    macro_rules! setter {
        ($what:literal, $f:ident, $v:expr, $sh:literal, $wd:literal, $x:expr) => {{
            let mut t = c;
            t.$f($v);
            eq!($what, raw(t), set(w, $sh, $wd, $x));
        }};
    }
    for b in [false, true] {
        setter!("set_use_subpages", set_use_subpages, b, 0, 1, b.into());
        setter!("set_step_mode", set_step_mode, b, 1, 1, b.into());
        setter!("set_data_hold", set_data_hold, b, 2, 1, b.into());
        setter!("set_subpage_repeat", set_subpage_repeat, b, 3, 1, b.into());
        setter!("set_subpage", set_subpage, sub(b.into()), 4, 1, b.into());
        setter!("set_access_pattern", set_access_pattern, pattern(b), 12, 1, b.into());
    }
    for (i, r) in RATES.iter().enumerate() {
        setter!("set_frame_rate", set_frame_rate, *r, 7, 3, i as u16);
    }
    for i in 0..4u16 {
        setter!("set_resolution", set_resolution, raw_res(i), 10, 2, i);
    }
    // ---- I2C configuration
    let g = i2creg(w);
    eq!("I2C register encoding", raw(g), w);
    eq!("fast_mode_plus", g.fast_mode_plus(), !bit(w, 0));
    eq!("i2c_threshold_halved", g.i2c_threshold_halved(), bit(w, 1));
    eq!("sda_current_limiter", g.sda_current_limiter(), !bit(w, 2));
    for b in [false, true] {
        let mut t = g;
        t.set_fast_mode_plus(b);
        eq!("set_fast_mode_plus", raw(t), set(w, 0, 1, (!b).into()));
        let mut t = g;
        t.set_i2c_threshold_halved(b);
        eq!("set_i2c_threshold_halved", raw(t), set(w, 1, 1, b.into()));
        let mut t = g;
        t.set_sda_current_limiter(b);
        eq!("set_sda_current_limiter", raw(t), set(w, 2, 1, (!b).into()));
    }
    // ---- only the first two bytes of a longer buffer count
    let x = w.to_be_bytes();
    let long = [x[0], x[1], 0xAA, 0x55, 0xFF];
    eq!("status from a longer buffer", raw(StatusRegister::from(&long[..])), w);
    eq!("control from a longer buffer", raw(ControlRegister::from(&long[..])), w);
    eq!("I2C register from a longer buffer", raw(I2cRegister::from(&long[..])), w);
    // ---- equality: every single bit, and a random other value
    let other = case.rng.u16();
    for b in (0..16).map(|b| w ^ (1 << b)).chain([other, w]) {
        eq!("status equality", s == status(b), (w ^ b) & 0x0039 == 0);
        eq!("control equality", c == control(b), (w ^ b) & 0x1F9F == 0);
        let h = i2creg(b);
        eq!("I2C register equality", g == h, (w ^ b) & 7 == 0);
        eq!("I2C register ordering", g.cmp(&h) == std::cmp::Ordering::Equal, g == h);
        eq!("I2C register ordering symmetry", g.cmp(&h), h.cmp(&g).reverse());
        eq!("I2C register partial ordering", g.partial_cmp(&h), Some(g.cmp(&h)));
    }
}

fn registers_on_bus(case: &mut Case) {
    let model = *case.rng.pick(&Model::BOTH);
    let addr = scene::address(&mut case.rng);
    let mut cam = Cam::new(model, addr, vec![0; 832], vec![0; model.ram_len()]);
    let (s, c, i) = (case.rng.u16(), case.rng.u16(), case.rng.u16());
    cam.status = s;
    cam.control = c;
    cam.i2creg = i;
    let mut bus = Bus::one(cam);
    let got = case.lib("reading registers", || {
        let a = StatusRegister::from_i2c(&mut bus, addr).map(raw);
        let b = ControlRegister::from_i2c(&mut bus, addr).map(raw);
        let c = I2cRegister::from_i2c(&mut bus, addr).map(raw);
        (a.ok(), b.ok(), c.ok())
    });
    case.check(got == Some((Some(s), Some(c), Some(i))), || {
        format!("registers read over the bus: {got:?}, device holds {s:#x} {c:#x} {i:#x}")
    });
    let (c2, i2) = (case.rng.u16(), case.rng.u16());
    let w = case.lib("writing registers", || {
        (
            control(c2).to_i2c(&mut bus, addr).is_ok(),
            i2creg(i2).to_i2c(&mut bus, addr).is_ok(),
        )
    });
    let (after_c, after_i) = bus.cam(|c| (c.control, c.i2creg));
    case.check(
        w == Some((true, true)) && (after_c, after_i) == (c2, i2),
        || format!("wrote {c2:#06x} {i2:#06x}, device holds {after_c:#06x} {after_i:#06x}"),
    );
    let log = bus.log();
    let regs: Vec<(Kind, u16)> = log.iter().map(|o| (o.kind, o.start)).collect();
    case.check(
        regs == [
            (Kind::Read, STATUS),
            (Kind::Read, CONTROL),
            (Kind::Read, I2CREG),
            (Kind::Write, CONTROL),
            (Kind::Write, I2CREG),
        ],
        || format!("register transactions: {regs:?}"),
    );
    case.count("register transfers on the bus", 5);
}

const RATE_HZ: [f32; 8] = [0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0];

fn settings(case: &mut Case) {
    for (i, r) in RATES.iter().enumerate() {
        let hz: f32 = (*r).into();
        case.check(hz == RATE_HZ[i], || format!("{r:?} is {hz} Hz"));
        let d: Duration = (*r).into();
        let want = Duration::from_nanos((1e9 / f64::from(RATE_HZ[i])) as u64);
        case.check(d == want, || format!("{r:?} lasts {d:?}, expected {want:?}"));
        for (j, q) in RATES.iter().enumerate() {
            case.check(r.cmp(q) == i.cmp(&j) && (r == q) == (i == j), || {
                format!("ordering of {r:?} and {q:?}")
            });
        }
    }
    case.check(FrameRate::default() == FrameRate::Two, || "default frame rate".into());
    case.check(Resolution::default() == Resolution::Eighteen, || "default resolution".into());
    for v in 0..=255u8 {
        let want = RATE_HZ[1..]
            .iter()
            .position(|h| *h == f32::from(v))
            .map(|i| RATES[i + 1]);
        let got = FrameRate::try_from(v).ok();
        case.check(got == want, || format!("FrameRate::try_from({v}u8) = {got:?}"));
        let want = if (16..=19).contains(&v) {
            Some(raw_res(u16::from(v) - 16))
        } else {
            None
        };
        let got = Resolution::try_from(v).ok();
        case.check(got == want, || format!("Resolution::try_from({v}) = {got:?}"));
        if let Some(r) = got {
            case.check(u8::from(r) == v, || format!("{r:?} is {} bits", u8::from(r)));
        }
        let want = match v {
            0 => Some(AccessPattern::Interleave),
            1 => Some(AccessPattern::Chess),
            _ => None,
        };
        let got = AccessPattern::try_from(v).ok();
        case.check(got == want, || format!("AccessPattern::try_from({v}) = {got:?}"));
        if let Some(p) = got {
            case.check(u8::from(p) == v, || format!("{p:?} is {}", u8::from(p)));
        }
    }
    for v in (0..70_000usize).chain((0..64).map(|b| 1usize << b)).chain([usize::MAX]) {
        let want = match v {
            0 => Some(Subpage::Zero),
            1 => Some(Subpage::One),
            _ => None,
        };
        let got = Subpage::try_from(v).ok();
        case.check(got == want, || format!("Subpage::try_from({v}) = {got:?}"));
        if let Some(s) = got {
            case.check(usize::from(s) == v, || format!("{s:?} is {}", usize::from(s)));
        }
    }
    for i in 0..4u16 {
        for j in 0..4u16 {
            case.check(raw_res(i).cmp(&raw_res(j)) == i.cmp(&j), || "resolution order".into());
        }
    }
    let d40 = raw(ControlRegister::default_mlx90640());
    let d41 = raw(ControlRegister::default_mlx90641());
    let di = raw(I2cRegister::default());
    case.check(d40 == 0x1901, || format!("default_mlx90640 = {d40:#06x}"));
    case.check(d41 == 0x0901, || format!("default_mlx90641 = {d41:#06x}"));
    case.check(di == 0, || format!("default I2C register = {di:#06x}"));
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "phase words: all 65536 raw values of each of the three registers, every accessor and every setter with every argument, equality against every one-bit neighbour (exhaustive); phase settings: all values of the u8/usize conversions; phase f32: all 2^32 f32 bit patterns into FrameRate (exhaustive); distinct = distinct register words / blocks of floats";
    ctx.exhaustive = true;
    ctx.required = vec![("f32 patterns tried", 1 << 32), ("register words", 65536)];
    ctx.phase("words", 256, |case| {
        for i in 0..256u16 {
            let w = (case.idx as u16) << 8 | i;
            case.seen(u64::from(w));
            case.count("register words", 1);
            registers(case, w);
            if case.failed() {
                return;
            }
        }
        let i = case.idx;
        case.sample(|| format!("register values {:#06x}..+256, all three registers", i << 8));
    });
    ctx.phase("on the bus", 2000, registers_on_bus);
    ctx.phase("settings", 1, settings);
    ctx.phase("f32", 4096, |case| {
        let start = (case.idx as u32) << 20;
        case.seen(case.idx);
        let bad = case.lib("FrameRate::try_from(f32)", || {
            (0..1u32 << 20).find(|k| {
                let bits = start | k;
                let v = f32::from_bits(bits);
                let ok = match FrameRate::try_from(v) {
                    Ok(r) => RATE_HZ
                        .iter()
                        .position(|h| h.to_bits() == bits)
                        .map(|i| RATES[i] == r)
                        .unwrap_or(false),
                    Err(_) => !RATE_HZ.iter().any(|h| h.to_bits() == bits),
                };
                !ok
            })
        });
        case.evals(1 << 20);
        case.count("f32 patterns tried", 1 << 20);
        if let Some(Some(k)) = bad {
            let v = f32::from_bits(start | k);
            let got = FrameRate::try_from(v);
            case.fail(format!("FrameRate::try_from({v:?}) = {got:?}"));
        }
    });
}

// ---------------------------------------------------------------------------------------------

fn geometry<C: MelexisCamera>(case: &mut Case, model: Model, sp: usize, chess: bool)
where
    C: MelexisCamera,
{
    let n = model.pixels();
    let (s, p) = (sub(sp), pattern(chess));
    case.check(
        (C::HEIGHT, C::WIDTH, C::NUM_PIXELS) == (model.height(), model.width(), n),
        || format!("{}: {}x{} = {}", model.name(), C::WIDTH, C::HEIGHT, C::NUM_PIXELS),
    );
    let aux: Vec<u16> = vec![
        C::T_A_V_BE.into(),
        C::compensation_pixel(Subpage::Zero).into(),
        C::GAIN.into(),
        C::T_A_PTAT.into(),
        C::compensation_pixel(Subpage::One).into(),
        C::V_DD_PIXEL.into(),
    ];
    case.check(aux == model.aux(), || format!("{} memory map: {aux:x?}", model.name()));
    case.check(
        C::BASIC_TEMPERATURE_RANGE == model.basic_range()
            && f64::from(C::SELF_HEATING) == model.self_heating(),
        || format!("{}: basic range / self heating", model.name()),
    );
    let px: Vec<bool> = C::pixels_in_subpage(s, p).into_iter().take(n + 2).collect();
    case.check(px.len() == n, || {
        format!("{} pixels_in_subpage yields {} of {n}", model.name(), px.len())
    });
    for (i, b) in px.iter().enumerate().take(n) {
        let want = model.in_subpage(i, sp, chess);
        if *b != want {
            case.fail(format!("{} pixel {i} in {s:?}/{p:?}: {b}", model.name()));
            return;
        }
    }
    case.evals(n as u64);
    let ranges = C::pixel_ranges(s, p).into_iter().take(C::HEIGHT + 1).count();
    case.check((1..=C::HEIGHT).contains(&ranges), || {
        format!("{} {s:?}/{p:?}: {ranges} ranges", model.name())
    });
    let mut rng = case.rng.clone();
    let walked = case.lib("walking the geometry", || {
        for _ in 0..16 {
            laws(&mut rng, "pixels_in_subpage", n, || C::pixels_in_subpage(s, p).into_iter(), |b| b)?;
            laws(
                &mut rng,
                "pixel_ranges",
                C::HEIGHT,
                || C::pixel_ranges(s, p).into_iter(),
                |r| crate::rng::fnv(format!("{r:?}").as_bytes()),
            )?;
        }
        Ok::<u64, String>(320)
    });
    case.rng = rng;
    match walked {
        Some(Ok(k)) => case.evals(k),
        Some(Err(e)) => case.fail(format!("{} {s:?}/{p:?}: {e}", model.name())),
        None => {}
    }
    for cal in 0..4u16 {
        for cur in 0..4u16 {
            let g = f64::from(C::resolution_correction(raw_res(cal), raw_res(cur)));
            let r = crate::refcalc::res_corr(cal, cur);
            case.check((g - r).abs() <= r * 1e-6, || {
                format!("resolution_correction({cal}, {cur}) = {g}, expected {r}")
            });
        }
    }
}

fn reads<C: MelexisCamera, const H: usize>(case: &mut Case, model: Model, sp: usize, chess: bool) {
    let n = model.pixels();
    let addr = scene::address(&mut case.rng);
    let mut cam = Cam::new(model, addr, vec![0; 832], vec![0; model.ram_len()]);
    // each word holds a value unique to it
    let base = case.rng.u16() | 1;
    for (i, w) in cam.ram.iter_mut().enumerate() {
        *w = (i as u16).wrapping_mul(0x9E37).wrapping_add(base);
    }
    let ram = cam.ram.clone();
    let at = |a: u16| ram[usize::from(a - RAM_BASE)];
    let mut bus = Bus::one(cam);
    let extra = case.rng.idx(3) * 7;
    let mut buf = vec![0xA5u8; n * 2 + extra];
    let got = case.lib("read_ram", || {
        read_ram::<C, _, H>(&mut bus, addr, pattern(chess), sub(sp), &mut buf)
            .map_err(errv)
    });
    let Some(got) = got else { return };
    let r = match got {
        Ok(r) => r,
        Err(e) => return case.fail(format!("read_ram failed without a fault: {e:?}")),
    };
    let a = model.aux();
    let aux = [r.t_a_v_be, r.gain, r.t_a_ptat, r.v_dd_pixel, r.compensation_pixel];
    let want = [a[0], a[2], a[3], a[5], model.cp(sp)].map(|x| at(x) as i16);
    case.check(aux == want, || {
        format!("{} frame words (subpage {sp}): {aux:?}, memory {want:?}", model.name())
    });
    for i in 0..n {
        if model.in_subpage(i, sp, chess) {
            let g = u16::from_be_bytes([buf[2 * i], buf[2 * i + 1]]);
            let want = at(model.pixel_addr(i, sp));
            if g != want {
                return case.fail(format!(
                    "{} pixel {i} of subpage {sp} (chess={chess}) read as {g:#06x}, memory {want:#06x}",
                    model.name()
                ));
            }
        }
    }
    case.check(buf[2 * n..].iter().all(|b| *b == 0xA5), || "bytes after the image written".into());
    let log = bus.log();
    let bad = log.iter().find(|o| !o.legal || o.kind != Kind::Read || o.i2c != addr);
    case.check(bad.is_none(), || format!("illegal transaction {}", bad.unwrap().show()));
    case.evals(n as u64);
    case.count("transactions observed", log.len() as u64);
    case.seen(crate::rng::mix(u64::from(base) << 8 | (sp as u64) << 1 | chess as u64));
    case.sample(|| crate::sim::show_ops(&log));
}

/// The named memory addresses are where the datasheet says, and so are their sums and differences.
macro_rules! named {
    ($case:expr, $t:ident, $model:expr, $name:expr) => {{
        let x = $model.aux();
        let all = [
            ($t::Base, RAM_BASE),
            ($t::AmbientTemperatureVoltageBe, x[0]),
            ($t::CompensationPixelZero, x[1]),
            ($t::Gain, x[2]),
            ($t::AmbientTemperatureVoltage, x[3]),
            ($t::CompensationPixelOne, x[4]),
            ($t::PixelSupplyVoltage, x[5]),
            ($t::End, RAM_BASE + $model.ram_len() as u16 - 1),
        ];
        for (a, va) in all {
            let got = u16::from(a);
            $case.check(got == va, || format!("{} {a:?} is {got:#06x}, not {va:#06x}", $name));
            for (b, vb) in all {
                $case.count("sums and differences of addresses", 1);
                let sums = $case.lib("RamAddress + RamAddress", || [a + b, &a + b, a + &b, &a + &b]);
                $case.check(sums == Some([va + vb; 4]), || format!("{} {a:?} + {b:?}: {sums:x?}", $name));
                if va >= vb {
                    let ds = $case.lib("RamAddress - RamAddress", || [a - b, &a - b, a - &b, &a - &b]);
                    $case.check(ds == Some([va - vb; 4]), || format!("{} {a:?} - {b:?}: {ds:x?}", $name));
                }
                $case.check((a < b) == (va < vb), || format!("{} {a:?} < {b:?}", $name));
            }
        }
    }};
}

pub fn c23(ctx: &mut Ctx) {
    ctx.rule = "one case = one (camera, subpage, access pattern) with a memory in which every word differs: geometry constants and iterators are compared with the datasheet and every pixel read back from a buffer is compared with the word of the memory map it must come from; distinct = distinct memories x modes";
    ctx.required = vec![("transactions observed", 1000)];
    ctx.phase("geometry", 8, |case| {
        let (m, sp, chess) = (case.idx % 2, (case.idx / 2 % 2) as usize, case.idx / 4 == 1);
        case.seen(case.idx);
        if m == 0 {
            geometry::<Mlx90640>(case, Model::M40, sp, chess);
        } else {
            geometry::<Mlx90641>(case, Model::M41, sp, chess);
        }
    });
    let n = ctx.n(16_000, 100_000);
    ctx.phase("reads", n, |case| {
        let (m, sp, chess) = (case.idx % 2, (case.idx / 2 % 2) as usize, case.idx / 4 % 2 == 1);
        if m == 0 {
            reads::<Mlx90640, { Mlx90640::HEIGHT }>(case, Model::M40, sp, chess);
        } else {
            reads::<Mlx90641, { Mlx90641::HEIGHT }>(case, Model::M41, sp, chess);
        }
    });
    ctx.phase("addresses", 1, |case| {
        for a in 0..=0xFFFFu16 {
            let back: u16 = Address::from(a).into();
            let wide: usize = Address::new(a).into();
            case.check(back == a && wide == usize::from(a), || format!("Address {a:#06x}"));
            if let Ok(r) = Ram40::try_from(Address::from(a)) {
                let b: u16 = Address::from(r).into();
                case.check(a == b, || format!("mlx90640 RamAddress {a:#06x} -> {b:#06x}"));
                case.count("named addresses", 1);
            }
            if let Ok(r) = Ram41::try_from(Address::from(a)) {
                let b: u16 = Address::from(r).into();
                case.check(a == b, || format!("mlx90641 RamAddress {a:#06x} -> {b:#06x}"));
                case.count("named addresses", 1);
            }
        }
        named!(case, Ram40, Model::M40, "mlx90640");
        named!(case, Ram41, Model::M41, "mlx90641");
        for a in Model::M40.aux() {
            case.check(Ram40::try_from(Address::from(a)).is_ok(), || format!("{a:#x} unnamed"));
        }
        for a in Model::M41.aux() {
            case.check(Ram41::try_from(Address::from(a)).is_ok(), || format!("{a:#x} unnamed"));
        }
    });
}
