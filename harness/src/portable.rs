//! One deterministic workload which runs unchanged on every configuration (math backend, word
//! size, byte order, interpreter, sanitizer) and reports what it observed line by line.
//!
//! `D` lines hold what has to be identical everywhere, `F` lines hold floats (as bits) which may
//! differ by rounding.
use std::fmt::Write as _;

use mlx9064x::calculations::*;
use mlx9064x::common::{read_ram, FlaggedPixels};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::{CalibrationData, ControlRegister, I2cRegister, MelexisCamera, StatusRegister};

use crate::ctx::guard;
use crate::drv::{Act, Drv, Out, RATES};
use crate::props::robust::{float, values};
use crate::laws::laws;
use crate::ee::{gen, to_bytes, Style};
use crate::refcalc::{pattern, raw_res, res_raw, sub};
use crate::rng::{mix, Rng};
use crate::scene::{setup, Frame, Setup};
use crate::sim::{Bus, Cam, Fault, Model};

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub model: Model,
    /// Hostile records have contents whose floats mean nothing.
    pub hostile: bool,
    pub addr: u8,
    pub control: u16,
    pub status: u16,
    pub i2creg: u16,
    pub emissivity: u32,
    pub t_r: Option<u32>,
    pub seed: u32,
    pub dump_len: u16,
    pub eeprom: Vec<u16>,
    pub ram: Vec<u16>,
}

/// Record `i`; for the benign ones also what the reference knows about it.
pub fn record(seed: u64, i: u64) -> (Rec, Option<Setup>) {
    let mut rng = Rng::new(mix(seed ^ mix(i ^ 0x7075)));
    let model = Model::BOTH[(i % 2) as usize];
    let hostile = i % 4 >= 2;
    if hostile {
        let (mut eeprom, _) = gen(&mut rng, model, Style::Wild);
        if rng.chance(1, 4) {
            eeprom = (0..832).map(|_| rng.u16()).collect();
        }
        let dump_len = match rng.idx(4) {
            0 => rng.idx(1664) as u16,
            1 => 1660 + rng.idx(8) as u16,
            _ => 1664,
        };
        let ram = (0..model.ram_len())
            .map(|_| if rng.chance(1, 6) { *rng.pick(&[0, 0x8000, 0x7FFF, 0xFFFF]) } else { rng.u16() })
            .collect();
        let r = Rec {
            model,
            hostile,
            addr: rng.u8(),
            control: rng.u16(),
            status: rng.u16(),
            i2creg: rng.u16(),
            emissivity: *rng.pick(&[0, 0x3F80_0000, 0x7FC0_0000, 0x7F80_0000, 0x3F00_0000]),
            t_r: if rng.bool() { Some(rng.u64() as u32) } else { None },
            seed: rng.u64() as u32,
            dump_len,
            eeprom,
            ram,
        };
        return (r, None);
    }
    let s = setup(&mut rng, model, Style::Plausible, Frame::Real);
    let c = &s.cam;
    let r = Rec {
        model,
        hostile,
        addr: c.addr,
        control: c.control,
        status: c.status,
        i2creg: c.i2creg,
        emissivity: s.emissivity.to_bits(),
        t_r: s.t_r.map(f32::to_bits),
        seed: rng.u64() as u32,
        dump_len: 1664,
        eeprom: c.eeprom.clone(),
        ram: c.ram.clone(),
    };
    (r, Some(s))
}

pub fn encode(recs: &[Rec]) -> Vec<u8> {
    let mut o = Vec::new();
    for r in recs {
        let flags = u8::from(r.model == Model::M41)
            | u8::from(r.hostile) << 1
            | u8::from(r.t_r.is_some()) << 2;
        o.push(flags);
        o.push(r.addr);
        for w in [r.control, r.status, r.i2creg, r.dump_len] {
            o.extend(w.to_be_bytes());
        }
        for w in [r.emissivity, r.t_r.unwrap_or(0), r.seed] {
            o.extend(w.to_be_bytes());
        }
        for w in r.eeprom.iter().chain(&r.ram) {
            o.extend(w.to_be_bytes());
        }
    }
    o
}

pub fn decode(mut b: &[u8]) -> Vec<Rec> {
    let mut out = Vec::new();
    fn w16(b: &mut &[u8]) -> u16 {
        let v = u16::from_be_bytes([b[0], b[1]]);
        *b = &b[2..];
        v
    }
    fn w32(b: &mut &[u8]) -> u32 {
        u32::from(w16(b)) << 16 | u32::from(w16(b))
    }
    while !b.is_empty() {
        let (flags, addr) = (b[0], b[1]);
        b = &b[2..];
        let model = if flags & 1 == 0 { Model::M40 } else { Model::M41 };
        let (control, status, i2creg, dump_len) =
            (w16(&mut b), w16(&mut b), w16(&mut b), w16(&mut b));
        let (emissivity, t, seed) = (w32(&mut b), w32(&mut b), w32(&mut b));
        let eeprom = (0..832).map(|_| w16(&mut b)).collect();
        let ram = (0..model.ram_len()).map(|_| w16(&mut b)).collect();
        out.push(Rec {
            model,
            hostile: flags & 2 != 0,
            addr,
            control,
            status,
            i2creg,
            emissivity,
            t_r: if flags & 4 != 0 { Some(t) } else { None },
            seed,
            dump_len,
            eeprom,
            ram,
        });
    }
    out
}

pub struct Out2 {
    pub text: String,
    pub rec: u64,
}

const HEX: &[u8; 16] = b"0123456789abcdef";

impl Out2 {
    fn d(&mut self, key: &str, val: impl std::fmt::Debug) {
        let _ = writeln!(self.text, "D {} {key} {val:?}", self.rec);
    }
    fn f(&mut self, key: &str, vals: impl Iterator<Item = f32>) {
        let _ = write!(self.text, "F {} {key} ", self.rec);
        for v in vals {
            let b = if v.is_nan() { 0x7FC0_0000 } else { v.to_bits() };
            for k in (0..8).rev() {
                self.text.push(HEX[(b >> (4 * k) & 15) as usize] as char);
            }
        }
        self.text.push('\n');
    }
    fn out(&mut self, key: &str, o: &Out) {
        match o {
            // floats in results go to F lines
            Ok(crate::drv::Val::F(v)) => self.f(key, std::iter::once(*v)),
            Ok(crate::drv::Val::OptF(v)) => {
                self.d(key, v.is_some());
                self.f(key, v.iter().copied());
            }
            o => self.d(key, o),
        }
    }
}

fn constants<'a, C: CalibrationData<'a>>(c: &'a C, o: &mut Out2) {
    o.d("k_v_dd", (c.k_v_dd(), c.v_dd_25(), res_raw(c.resolution()), c.corner_temperatures()));
    o.d("some", (c.emissivity().is_some(), c.temperature_gradient_coefficient().is_some()));
    o.f(
        "scalars",
        [
            c.v_dd_0(),
            c.k_v_ptat(),
            c.k_t_ptat(),
            c.v_ptat_25(),
            c.alpha_ptat(),
            c.gain(),
            c.k_s_ta(),
            c.emissivity().unwrap_or(0.0),
            c.temperature_gradient_coefficient().unwrap_or(0.0),
        ]
        .into_iter(),
    );
    o.f("k_s_to", c.k_s_to().iter().copied());
    o.f("alpha_correction", c.alpha_correction().iter().copied());
    for n in 0..2 {
        let s = sub(n);
        let h = c.offset_reference_pixels(s).fold(0u64, |h, v| mix(h ^ *v as u16 as u64));
        o.d("offsets", (n, h, c.offset_reference_cp(s)));
        o.f("alpha", c.alpha_pixels(s).copied());
        o.f("k_v", c.k_v_pixels(s).copied());
        o.f("k_ta", c.k_ta_pixels(s).copied());
        o.f("cp", [c.alpha_cp(s), c.k_v_cp(s), c.k_ta_cp(s)].into_iter());
        for chess in [true, false] {
            let p = pattern(chess);
            o.f(
                "pattern compensation",
                c.access_pattern_compensation_pixels(p)
                    .map(|v| v.copied().unwrap_or(-9.0))
                    .take(40),
            );
            o.f(
                "pattern compensation cp",
                std::iter::once(c.access_pattern_compensation_cp(s, p).unwrap_or(-9.0)),
            );
        }
    }
    let mut h = 0u64;
    for i in c.failed_pixels().iter_flagged() {
        h = mix(h ^ i as u64);
    }
    for i in c.outlier_pixels().iter_flagged() {
        h = mix(h ^ i as u64 ^ 0x10000);
    }
    let h = (h, c.failed_pixels().any(), c.outlier_pixels().any());
    o.d("flags", h);
}

fn geometry<C: MelexisCamera>(o: &mut Out2) {
    for n in 0..2 {
        for chess in [true, false] {
            let (s, p) = (sub(n), pattern(chess));
            let h = C::pixels_in_subpage(s, p)
                .into_iter()
                .fold(0u64, |h, b| mix(h ^ u64::from(b) ^ 2));
            o.d("subpage", h);
        }
    }
}

fn low_level<'a, C: CalibrationData<'a>>(c: &'a C, r: &Rec, o: &mut Out2) {
    let mut rng = Rng::new(r.seed.into());
    let n = r.model.pixels();
    let cut = |rng: &mut Rng, full: usize| match rng.idx(5) {
        0 => rng.idx(full),
        1 => full + 1 + rng.idx(9),
        2 => full - 1,
        _ => full,
    };
    for round in 0..2usize {
        let (nd, nb, nm) = (cut(&mut rng, n), cut(&mut rng, 2 * n), cut(&mut rng, n));
        // Bytes have no alignment: one of the two rounds uses odd addresses.
        let at = 1 + round;
        let mut bytes = vec![0xEEu8; at];
        bytes.extend((0..nb).map(|i| (r.ram[i / 2 % r.ram.len()] >> (8 * (1 - i % 2))) as u8));
        let bytes = &bytes[at..];
        let mut d = vec![5.0f32; nd];
        let ram = crate::refcalc::Ram {
            v_be: rng.i16(),
            ptat: rng.i16(),
            vdd: rng.i16(),
            gain: rng.i16(),
            cp: rng.i16(),
        };
        let t_r = r.t_r.map(f32::from_bits);
        let e = f32::from_bits(r.emissivity);
        let (s, p) = (sub(round), pattern(rng.bool()));
        let mut it = (0..nm).map(|i| i % 3 != 0);
        let _ = raw_pixels_to_ir_data(c, e, 1.0, bytes, ram.lib(), s, p, &mut it, &mut d);
        let mut it = (0..nm).map(|i| i % 3 != 0);
        raw_ir_to_temperatures(c, e, 30.0, t_r, s, &mut it, &mut d);
        let mut it = (0..nm).map(|i| i % 3 != 0);
        let _ = raw_pixels_to_temperatures(c, e, t_r, 0.5, bytes, ram.lib(), s, p, &mut it, &mut d);
        o.d("written", d.iter().filter(|v| **v != 5.0).count());
    }
}

/// The functions of numbers, given any numbers: for what the instruments say about it.
fn numbers<'a, C: CalibrationData<'a>>(c: &'a C, r: &Rec) {
    let mut rng = Rng::new(mix(u64::from(r.seed) ^ 0x6e75));
    let mut x = 0f32;
    for _ in 0..12 {
        let mut f = || float(&mut rng);
        let (a, b, e, d) = (f(), f(), f(), f());
        let mut w = || *rng.pick(&[0, 1, -1, i16::MIN, i16::MAX, r.ram[5] as i16]);
        let ram = crate::refcalc::Ram { v_be: w(), ptat: w(), vdd: w(), gain: w(), cp: w() }.lib();
        x += delta_v(c, ram.v_dd_pixel) + v_dd(c, a, b) + v_ptat_art(c, ram.t_a_ptat, ram.t_a_v_be);
        x += ambient_temperature(c, a, b) + sensitivity_correction_coefficient(c, e);
        x += t_ar(a, b, e) + per_pixel_temperature(a, b, e, d);
        let common = CommonIrData::new(a, e, c, &ram);
        x += per_pixel_v_ir(ram.gain, &common, ram.compensation_pixel, a, b, Some(d));
    }
    std::hint::black_box(x);
}

/// One of the iterators, walked in every way there is.
fn walks<'a, C: CalibrationData<'a>>(c: &'a C, r: &Rec, o: &mut Out2) {
    let mut rng = Rng::new(mix(u64::from(r.seed) ^ 0x7761));
    let (which, s, p) = (rng.idx(9), sub(rng.idx(2)), pattern(rng.bool()));
    let rng = &mut rng;
    let bits = |v: &f32| v.to_bits();
    let res = match which {
        0 => laws(rng, "alpha", 769, || c.alpha_pixels(s), bits),
        1 => laws(rng, "k_v", 769, || c.k_v_pixels(s), bits),
        2 => laws(rng, "k_ta", 769, || c.k_ta_pixels(s), bits),
        3 => laws(rng, "offset", 769, || c.offset_reference_pixels(s), |v| *v),
        4 => laws(rng, "flags", 769, || c.failed_pixels().iter_flagged(), |v| v),
        5 => laws(rng, "flags", 769, || c.outlier_pixels().iter_flagged(), |v| v),
        6 => laws(rng, "patterns", 769, || c.access_pattern_compensation_pixels(p), |v| v.map(bits)),
        7 => laws(rng, "mask", 769, || C::Camera::pixels_in_subpage(s, p).into_iter(), |v| v),
        _ => laws(rng, "ranges", 40, || C::Camera::pixel_ranges(s, p).into_iter(), |_| 0u8),
    };
    o.d("walks", res.is_ok());
}

/// Safe functions given buffers which are too small may panic, and nothing worse: this is only run
/// for what the instruments say about it.
fn misuse(r: &Rec, rng: &mut Rng) {
    let full = 2 * r.model.pixels();
    for k in 0..3 {
        let len = match rng.idx(4) {
            0 => rng.idx(full),
            1 => full - 1,
            2 => full - 2 * rng.idx(40),
            _ => 0,
        };
        let (addr, s, p) = (r.addr, sub(rng.idx(2)), pattern(rng.bool()));
        let mut bus = Bus::one(Cam::new(r.model, addr, r.eeprom.clone(), r.ram.clone()));
        // Exactly this long, so that the allocation ends where the slice does.
        let mut buf = vec![0u8; len].into_boxed_slice();
        let _ = guard(|| match (r.model, k) {
            (Model::M40, 2) => {
                read_ram::<Mlx90640, _, 5>(&mut bus, addr, p, s, &mut vec![0; full]).is_ok()
            }
            (Model::M41, 2) => {
                read_ram::<Mlx90641, _, 5>(&mut bus, addr, p, s, &mut vec![0; full]).is_ok()
            }
            (Model::M40, _) => read_ram::<Mlx90640, _, 24>(&mut bus, addr, p, s, &mut buf).is_ok(),
            (Model::M41, _) => read_ram::<Mlx90641, _, 12>(&mut bus, addr, p, s, &mut buf).is_ok(),
        });
        let bytes = vec![rng.u8(); rng.idx(4)].into_boxed_slice();
        let _ = guard(|| u16::from_be_bytes(StatusRegister::from(&bytes[..]).into()));
        let _ = guard(|| u16::from_be_bytes(ControlRegister::from(&bytes[..]).into()));
        let _ = guard(|| u16::from_be_bytes(I2cRegister::from(&bytes[..]).into()));
    }
}

/// Two cameras of one program, each with a driver of its own on a thread of its own, share nothing.
fn threads(r: &Rec, o: &mut Out2) {
    let life = |me: u16| {
        guard(|| {
            let addr = r.addr.wrapping_add(me as u8);
            let dump = to_bytes(&r.eeprom);
            let bus = Bus::one(Cam::new(r.model, addr, r.eeprom.clone(), r.ram.clone()));
            bus.arm();
            // Not the same scene, temperature nor settings as anybody else.
            bus.cam(|c| {
                (c.control, c.measure_delay) = (r.control ^ (me & 1) << 12, Some(1));
                let ptat = usize::from(r.model.aux()[3] - crate::sim::RAM_BASE);
                c.ram[ptat] = c.ram[ptat].wrapping_add(5 * me);
                for w in &mut c.ram[..r.model.pixels()] {
                    *w = w.wrapping_add(3 * me);
                }
            });
            let mut h = 0u64;
            let mut dest = vec![0f32; r.model.pixels()];
            let made = if me % 2 == 0 {
                Drv::new(r.model, &bus, addr)
            } else {
                Drv::from_dump(r.model, &bus, addr, &dump)
            };
            let Ok(mut d) = made else { return h };
            d.override_emissivity(0.9 + 0.01 * f32::from(me));
            let s = usize::from(me);
            let acts = [Act::RawSub(sub(s % 2)), Act::SetRate(RATES[s]), Act::Sync, Act::IfReady];
            for act in acts {
                bus.arm();
                h = mix(h ^ d.act(act, &mut dest).is_ok() as u64);
                h = dest.iter().fold(h, |h, v| mix(h ^ u64::from(crate::drv::same_bits(*v))));
            }
            h
        })
        .map_err(|p| p.msg)
    };
    let (a, b) = std::thread::scope(|s| {
        let (a, b) = (s.spawn(|| life(1)), s.spawn(|| life(2)));
        (a.join(), b.join())
    });
    let (a, b) = (a.expect("a thread"), b.expect("a thread"));
    // An interpreter has told what there is to tell by now.
    let alone = cfg!(miri) || (life(1) == a && life(2) == b);
    o.d("two threads", (a.is_ok(), b.is_ok(), alone));
}

/// Everything one record yields.
pub fn run(index: u64, r: &Rec, o: &mut Out2) {
    o.rec = index;
    let mut rng = Rng::new(r.seed.into());
    let at = index as usize / 4 % 2;
    let mut dump = vec![0xA5; at];
    dump.extend(to_bytes(&r.eeprom));
    dump.resize(usize::from(r.dump_len) + at, 0xA5);
    let dump = &dump[at..];
    let res = guard(|| match r.model {
        Model::M40 => {
            geometry::<Mlx90640>(o);
            Mlx90640Calibration::from_data(dump).map(|c| {
                constants(&c, o);
                low_level(&c, r, o);
                numbers(&c, r);
                walks(&c, r, o);
            })
        }
        Model::M41 => {
            geometry::<Mlx90641>(o);
            Mlx90641Calibration::from_data(dump).map(|c| {
                constants(&c, o);
                low_level(&c, r, o);
                numbers(&c, r);
                walks(&c, r, o);
            })
        }
    });
    match res {
        Ok(r) => o.d("from_data", r),
        Err(p) => o.d("PANIC from_data", p.msg),
    }
    let mut cam = Cam::new(r.model, r.addr, r.eeprom.clone(), r.ram.clone());
    cam.status = r.status;
    cam.control = r.control;
    cam.i2creg = r.i2creg;
    cam.measure_delay = Some(2);
    let bus = Bus::one(cam);
    bus.arm();
    let made = guard(|| Drv::new(r.model, &bus, r.addr));
    let mut d = match made {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => {
            o.d("new", e);
            return;
        }
        Err(p) => {
            o.d("PANIC new", p.msg);
            return;
        }
    };
    d.override_emissivity(f32::from_bits(r.emissivity));
    d.set_reflected(r.t_r.map(f32::from_bits));
    let n = r.model.pixels();
    // A benign record first yields both subpages as they are: these floats are compared.
    for sp in 0..2 {
        if r.hostile && sp == 1 {
            break;
        }
        let mut dest = vec![-1234.5f32; n];
        let res = guard(|| d.act(Act::ImageSub(sub(sp)), &mut dest));
        match res {
            Ok(x) => o.out("image", &x),
            Err(p) => o.d("PANIC image", p.msg),
        }
        let h = dest.iter().fold(0u64, |h, v| mix(h ^ u64::from(*v == -1234.5)));
        o.d("pixels written", h);
        if !r.hostile {
            o.f(&format!("image{sp}"), dest.iter().copied());
            o.f(&format!("ambient{sp}"), d.ambient().into_iter());
        }
    }
    let mut dest = vec![0f32; n];
    for k in 0..Act::EVERY {
        let mut act = Act::every(k, &mut rng);
        if act.is_image() && !r.hostile && k % 2 == 0 {
            act = Act::Image;
        }
        bus.arm();
        bus.with(|s| s.budget = 500);
        if r.hostile && rng.chance(1, 4) {
            let at = rng.below(6);
            bus.with(|s| s.faults.push((at, Fault::Partial, 5)));
        }
        let len = if r.hostile && act.is_image() {
            *rng.pick(&[0, 1, n - 1, n, n + 7])
        } else {
            n
        };
        dest.resize(len, 0.0);
        match guard(|| d.act(act, &mut dest)) {
            Ok(x) => o.out(&act.name(), &x),
            Err(p) => o.d("PANIC act", (act, p.msg)),
        }
        let h = bus.with(|s| {
            let c = &s.cams[0];
            s.log.iter().fold(u64::from(c.status) << 16 | u64::from(c.control), |h, op| {
                mix(h ^ u64::from(op.start) ^ (op.len as u64) << 16 ^ u64::from(op.value) << 32)
            })
        });
        o.d("bus", h);
    }
    let mut twin = d.clone();
    match guard(|| twin.act(Act::Rate, &mut [])) {
        Ok(x) => o.out("clone", &x),
        Err(p) => o.d("PANIC clone", p.msg),
    }
    let mut h = 0u64;
    for _ in 0..64 {
        let w = rng.u16();
        let v = mlx9064x::mlx90641::hamming::validate_checksum(w);
        let a = mlx9064x::mlx90641::hamming::add_checksum(w & 0x7FF);
        h = mix(h ^ u64::from(v.unwrap_or(0xFFFF)) ^ u64::from(a.unwrap_or(0xFFFF)) << 16);
    }
    o.d("checksums", h);
    let mut h = 0u64;
    for _ in 0..3 {
        h = mix(h ^ values(rng.u16(), float(&mut rng), rng.u64()));
    }
    o.d("values", h);
    misuse(r, &mut rng);
    if !r.hostile && index % 8 < 4 {
        threads(r, o);
    }
    let t: Vec<core::time::Duration> = RATES.iter().map(|r| (*r).into()).collect();
    o.d("rates", (t, raw_res(rng.u16())));
}
