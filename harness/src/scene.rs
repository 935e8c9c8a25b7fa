//! Frames of measurement data: from a wanted scene (by inverting the documented formulas) or wild.
use crate::ee::{gen_ok, RefCal, Style};
use crate::refcalc::{common, Common, Ram, Scene};
use crate::rng::Rng;
use crate::sim::{Cam, Model, RAM_BASE};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Frame {
    /// Sensible ambient conditions and a scene of -20..250 degrees.
    Real,
    /// Sensible ambient conditions, random pixels.
    Noise,
    /// Everything random (gain and the T_a denominator kept non-zero).
    Wild,
}

fn put(ram: &mut [u16], a: u16, v: i16) {
    ram[usize::from(a - RAM_BASE)] = v as u16;
}

fn clamp16(v: f64) -> i16 {
    if v.is_nan() {
        return 1;
    }
    v.round().clamp(-32768.0, 32767.0) as i16
}

/// Words which somebody might treat specially.
pub fn special(rng: &mut Rng) -> i16 {
    const BITS: [i16; 4] = [0x0100, 0x4000, 0x00FF, 0x0080];
    match rng.idx(10) {
        0 | 1 => 0,
        2 => i16::MIN,
        3 => i16::MAX,
        4 => -1,
        5 => 1,
        6 => -i16::MAX,
        7 => *rng.pick(&[2, -2, -256, i16::MAX - 1]),
        8 => *rng.pick(&BITS),
        _ => 1 << rng.idx(15),
    }
}

/// Fill the auxiliary words.
pub fn aux(rng: &mut Rng, cal: &RefCal, ram: &mut [u16], kind: Frame) {
    let a = cal.model.aux();
    if kind == Frame::Wild {
        for x in a {
            let v = loop {
                let v = if rng.chance(1, 6) {
                    special(rng)
                } else {
                    rng.i16()
                };
                if v != 0 || (x != a[2] && x != a[3]) {
                    break v;
                }
            };
            put(ram, x, v);
        }
        return;
    }
    let dv = rng.frange(-0.35, 0.35);
    let vdd = clamp16(cal.v_dd_25 as f64 + cal.k_v_dd as f64 * dv);
    let t_a = if rng.chance(1, 8) {
        rng.frange(-40.0, 125.0)
    } else {
        rng.frange(-15.0, 80.0)
    };
    let art = ((t_a - 25.0) * cal.k_t_ptat + cal.v_ptat_25) * (1.0 + cal.k_v_ptat * dv);
    let ptat = rng.range(1400, 2000) as f64;
    let vbe = ptat * 262144.0 / art - ptat * cal.alpha_ptat;
    put(ram, a[0], clamp16(vbe));
    put(ram, a[3], clamp16(ptat));
    put(ram, a[5], vdd);
    let mut g = clamp16(cal.gain * rng.frange(0.85, 1.15));
    if g == 0 {
        g = 5000;
    }
    put(ram, a[2], g);
    for sp in 0..2 {
        let off = cal.off_cp[sp] as f64;
        put(ram, cal.model.cp(sp), clamp16(off + rng.frange(-60.0, 60.0)));
    }
}

/// Raw pixel value which shows an object of `t_o` degrees, by inverting the formulas in f64.
pub fn invert(sc: &Scene, px: usize, t_o: f64) -> f64 {
    let alpha = sc.alpha(px).mid();
    let ks = sc.k_s_to();
    let t_ar = sc.t_ar().mid();
    let want = (t_o + 273.15).powi(4);
    // V = (want - t_ar) * (alpha * (1 - ks * 273.15) + ks * (alpha^3 V + alpha^4 t_ar)^(1/4))
    let mut v = alpha * (1.0 + ks * t_o) * (want - t_ar);
    let mut off = 0.0;
    for _ in 0..200 {
        let sx = ks * (alpha.powi(3) * v + alpha.powi(4) * t_ar).powf(0.25);
        let n = (want - t_ar) * (alpha * (1.0 - ks * 273.15) + sx);
        if !n.is_finite() {
            break;
        }
        off = (n - v).abs();
        v = n;
        if off <= 1e-9 * v.abs() {
            break;
        }
    }
    // No measurement shows this object on that camera.
    if off > 1e-4 * v.abs() + 1e-4 {
        return f64::NAN;
    }
    let c: &Common = &sc.c;
    let cp = if sc.cal.tgc == 0.0 { 0.0 } else { sc.cp_term().mid() };
    let il = if sc.chess { 0.0 } else { sc.cal.il_pix[px] };
    let drift = (1.0 + sc.cal.kta[px] * (c.t_a.mid() - 25.0))
        * (1.0 + sc.cal.kv[px] * (c.v_dd.mid() - 3.3));
    ((v + cp) * f64::from(sc.emissivity) - il + sc.cal.off[sc.subpage][px] as f64 * drift)
        / c.gain.mid()
}

#[allow(clippy::too_many_arguments)]
pub fn pixels(
    rng: &mut Rng,
    cal: &RefCal,
    ram: &mut [u16],
    kind: Frame,
    chess: bool,
    rc: f64,
    emissivity: f32,
    t_r: Option<f32>,
) {
    let m = cal.model;
    // Unused words are noise which must never matter.
    for i in 0..ram.len() {
        let addr = RAM_BASE + i as u16;
        if !m.aux().contains(&addr) {
            ram[i] = if rng.chance(1, 50) {
                special(rng) as u16
            } else {
                rng.u16()
            };
        }
    }
    if kind != Frame::Real {
        return;
    }
    for sp in 0..2 {
        let a = m.aux();
        let w = |x: u16| ram[usize::from(x - RAM_BASE)] as i16;
        let r = Ram {
            v_be: w(a[0]),
            gain: w(a[2]),
            ptat: w(a[3]),
            vdd: w(a[5]),
            cp: w(m.cp(sp)),
        };
        let sc = Scene::new(cal, r, rc, sp, chess, emissivity, t_r);
        let base = rng.frange(-10.0, 60.0);
        for px in 0..m.pixels() {
            if !m.in_subpage(px, sp, chess) {
                continue;
            }
            let t = if rng.chance(1, 8) {
                rng.frange(-20.0, 250.0)
            } else {
                base + rng.frange(-5.0, 5.0)
            };
            let raw = clamp16(invert(&sc, px, t));
            put(ram, m.pixel_addr(px, sp), raw);
        }
    }
}

/// A whole camera with a frame in its memory, plus what the reference decoder knows about it.
pub struct Setup {
    pub cam: Cam,
    pub cal: RefCal,
    pub emissivity: f32,
    pub t_r: Option<f32>,
}

impl Setup {
    pub fn rc(&self) -> f64 {
        crate::refcalc::res_corr(self.cal.resolution, self.cam.resolution())
    }
    pub fn scene(&self, subpage: usize) -> Scene<'_> {
        Scene::new(
            &self.cal,
            Ram::of(&self.cam, subpage),
            self.rc(),
            subpage,
            self.cam.chess(),
            self.emissivity,
            self.t_r,
        )
    }
    pub fn refill(&mut self, rng: &mut Rng, kind: Frame) {
        let rc = self.rc();
        let chess = self.cam.chess();
        let mut ram = std::mem::take(&mut self.cam.ram);
        aux(rng, &self.cal, &mut ram, kind);
        pixels(rng, &self.cal, &mut ram, kind, chess, rc, self.emissivity, self.t_r);
        self.cam.ram = ram;
    }
}

pub fn pick_emissivity(rng: &mut Rng) -> f32 {
    match rng.idx(8) {
        0 | 1 => 1.0,
        2 => 0.95,
        3 => rng.frange(0.97, 1.0) as f32,
        _ => rng.frange(0.1, 1.0) as f32,
    }
}

/// Emissivities next to where something might be special, and unphysical ones.
pub fn odd_emissivity(rng: &mut Rng) -> f32 {
    let one = 1f32.to_bits();
    match rng.idx(6) {
        0 => f32::from_bits(one - 1 - rng.below(4) as u32),
        1 => f32::from_bits(one + 1 + rng.below(4) as u32),
        2 => rng.frange(0.98, 1.02) as f32,
        3 => rng.frange(0.999, 1.001) as f32,
        4 => rng.frange(1.0, 4.0) as f32,
        _ => rng.frange(0.01, 0.2) as f32,
    }
}

pub fn odd_reflected(rng: &mut Rng) -> f32 {
    match rng.idx(4) {
        0 => *rng.pick(&[0.0, -0.0, 25.0, -40.0, -273.15, 100.0, 300.0]),
        1 => rng.frange(-273.0, -40.0) as f32,
        2 => rng.frange(100.0, 1500.0) as f32,
        _ => rng.frange(-1.0, 1.0) as f32,
    }
}

/// Sometimes, a few words at their extremes: frame-wide ones and pixels.
pub fn odd_words(rng: &mut Rng, model: Model, ram: &mut [u16]) -> bool {
    let frame_wide = rng.bool();
    if frame_wide {
        let a = model.aux();
        for _ in 0..rng.range(1, 2) {
            let at = *rng.pick(&a);
            ram[usize::from(at - RAM_BASE)] = special(rng) as u16;
        }
    }
    for _ in 0..rng.idx(40) {
        let px = rng.idx(model.pixels());
        let at = model.pixel_addr(px, rng.idx(2));
        ram[usize::from(at - RAM_BASE)] = special(rng) as u16;
    }
    frame_wide
}

/// Random camera settings: reserved bits too.
pub fn control(rng: &mut Rng) -> u16 {
    rng.u16()
}

pub fn address(rng: &mut Rng) -> u8 {
    if rng.chance(1, 3) {
        0x33
    } else if rng.chance(1, 12) {
        // The bus decides what it takes for an address, not the library
        rng.u8()
    } else {
        rng.range(0x01, 0x7F) as u8
    }
}

pub fn setup(rng: &mut Rng, model: Model, style: Style, kind: Frame) -> Setup {
    let (ee, cal) = gen_ok(rng, model, style);
    let mut cam = Cam::new(model, address(rng), ee, vec![0; model.ram_len()]);
    cam.control = control(rng);
    cam.status = rng.u16();
    cam.i2creg = rng.u16();
    let mut s = Setup {
        cam,
        cal,
        emissivity: 1.0,
        t_r: None,
    };
    s.emissivity = pick_emissivity(rng);
    s.t_r = if rng.bool() {
        Some(rng.frange(-40.0, 90.0) as f32)
    } else {
        None
    };
    if rng.chance(1, 8) {
        s.emissivity = odd_emissivity(rng);
    }
    if rng.chance(1, 10) {
        s.t_r = Some(odd_reflected(rng));
    }
    s.refill(rng, kind);
    s
}

/// The frame kinds in a fixed mix.
pub fn kind(i: u64) -> (Style, Frame) {
    match i % 6 {
        0 | 1 => (Style::Plausible, Frame::Real),
        2 => (Style::Plausible, Frame::Noise),
        3 => (Style::Plausible, Frame::Wild),
        4 => (Style::Wild, Frame::Noise),
        _ => (Style::Wild, Frame::Wild),
    }
}

pub fn finite_common(c: &Common) -> bool {
    c.t_a.decided() && c.v_dd.decided() && c.gain.decided()
}

pub fn common_of(cal: &RefCal, ram: &Ram, rc: f64) -> Common {
    common(cal, ram, rc)
}

/// The length of a destination for an image of `n` pixels: mostly that, sometimes any other.
pub fn odd_len(rng: &mut Rng, n: usize) -> usize {
    if !rng.chance(1, 6) {
        return n;
    }
    match rng.idx(8) {
        0 => 0,
        1 => 1,
        2 => n - 1,
        3 => n + 1 + rng.idx(64),
        4 => 2 * n,
        5 => n + 1 + rng.idx(4 * n),
        _ => rng.idx(n),
    }
}
