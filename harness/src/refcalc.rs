//! Reference evaluation of the documented measurement formulas over intervals.
use mlx9064x::calculations::RamData;
use mlx9064x::common::FlaggedPixels;
use mlx9064x::{AccessPattern, CalibrationData, MelexisCamera, Resolution, Subpage};

use crate::ee::RefCal;
use crate::iv::{Iv, EPS};
use crate::sim::{Cam, Model};

pub fn sub(n: usize) -> Subpage {
    if n == 0 {
        Subpage::Zero
    } else {
        Subpage::One
    }
}

pub fn pattern(chess: bool) -> AccessPattern {
    if chess {
        AccessPattern::Chess
    } else {
        AccessPattern::Interleave
    }
}

pub fn res_raw(r: Resolution) -> u16 {
    match r {
        Resolution::Sixteen => 0,
        Resolution::Seventeen => 1,
        Resolution::Eighteen => 2,
        Resolution::Nineteen => 3,
    }
}

pub fn raw_res(r: u16) -> Resolution {
    match r & 3 {
        0 => Resolution::Sixteen,
        1 => Resolution::Seventeen,
        2 => Resolution::Eighteen,
        _ => Resolution::Nineteen,
    }
}

/// Resolution correction: 2^calibrated / 2^current (datasheet 11.2.2.1).
pub fn res_corr(calibrated: u16, current: u16) -> f64 {
    f64::from(1u32 << calibrated) / f64::from(1u32 << current)
}

#[derive(Clone, Copy, Debug)]
pub struct Ram {
    pub v_be: i16,
    pub ptat: i16,
    pub vdd: i16,
    pub gain: i16,
    pub cp: i16,
}

impl Ram {
    pub fn of(cam: &Cam, subpage: usize) -> Ram {
        let a = cam.model.aux();
        Ram {
            v_be: cam.ram_word(a[0]),
            gain: cam.ram_word(a[2]),
            ptat: cam.ram_word(a[3]),
            vdd: cam.ram_word(a[5]),
            cp: cam.ram_word(cam.model.cp(subpage)),
        }
    }
    pub fn lib(self) -> RamData {
        RamData {
            t_a_v_be: self.v_be,
            t_a_ptat: self.ptat,
            v_dd_pixel: self.vdd,
            gain: self.gain,
            compensation_pixel: self.cp,
        }
    }
}

fn i(v: i16) -> Iv {
    Iv::exact(f64::from(v))
}
fn k(v: f64) -> Iv {
    Iv::c(v)
}
const ONE: Iv = Iv::In(1.0, 1.0);

#[derive(Clone, Copy, Debug)]
pub struct Common {
    pub gain: Iv,
    pub v_dd: Iv,
    pub t_a: Iv,
    pub delta_v: Iv,
    pub art: Iv,
}

pub fn common(cal: &RefCal, ram: &Ram, rc: f64) -> Common {
    let kv = Iv::exact(cal.k_v_dd as f64);
    let v25 = Iv::exact(cal.v_dd_25 as f64);
    // Whichever way the differences are distributed: the terms may be rounded before they cancel.
    let (vdd, base) = (f64::from(ram.vdd).abs(), (cal.v_dd_25 as f64).abs());
    let by_kv = |terms: f64| EPS * terms / (cal.k_v_dd as f64).abs();
    let delta_v = i(ram.vdd).sub(v25).div(kv).grow(by_kv(vdd + base));
    let v_dd = Iv::exact(rc * f64::from(ram.vdd))
        .sub(v25)
        .div(kv)
        .grow(by_kv(rc * vdd + rc * base + base))
        .add(k(cal.v_dd_0));
    let art = i(ram.ptat)
        .div(i(ram.ptat).mul(k(cal.alpha_ptat)).add(i(ram.v_be)))
        .mul(Iv::exact(262144.0));
    let t_a = art
        .div(ONE.add(k(cal.k_v_ptat).mul(delta_v)))
        .sub(k(cal.v_ptat_25))
        .div(k(cal.k_t_ptat))
        .add(Iv::exact(25.0));
    Common {
        gain: k(cal.gain).div(i(ram.gain)),
        v_dd,
        t_a,
        delta_v,
        art,
    }
}

/// (pixel * gain + access compensation - offset * drift terms)
fn compensated(raw: i16, c: &Common, off: i64, kv: f64, kta: f64, il: f64) -> Iv {
    let drift_ta = ONE.add(k(kta).mul(c.t_a.sub(Iv::exact(25.0))));
    let drift_v = ONE.add(k(kv).mul(c.v_dd.sub(k(3.3))));
    let mut v = i(raw).mul(c.gain);
    if il != 0.0 {
        v = v.add(k(il));
    }
    v.sub(Iv::exact(off as f64).mul(drift_ta).mul(drift_v))
}

pub struct Scene<'c> {
    pub cal: &'c RefCal,
    pub c: Common,
    pub ram: Ram,
    pub subpage: usize,
    pub chess: bool,
    pub emissivity: f32,
    pub t_r: Option<f32>,
}

impl<'c> Scene<'c> {
    pub fn new(
        cal: &'c RefCal,
        ram: Ram,
        rc: f64,
        subpage: usize,
        chess: bool,
        emissivity: f32,
        t_r: Option<f32>,
    ) -> Self {
        Scene {
            cal,
            c: common(cal, &ram, rc),
            ram,
            subpage,
            chess,
            emissivity,
            t_r,
        }
    }
    fn eps(&self) -> Iv {
        Iv::exact(f64::from(self.emissivity))
    }
    pub fn cp_term(&self) -> Iv {
        let il = if self.chess { 0.0 } else { self.cal.il_cp[self.subpage] };
        compensated(
            self.ram.cp,
            &self.c,
            self.cal.off_cp[self.subpage],
            self.cal.kv_cp,
            self.cal.kta_cp,
            il,
        )
        .div(self.eps())
        .mul(k(self.cal.tgc))
    }
    pub fn ir(&self, px: usize, raw: i16) -> Iv {
        let il = if self.chess { 0.0 } else { self.cal.il_pix[px] };
        let v = compensated(
            raw,
            &self.c,
            self.cal.off[self.subpage][px],
            self.cal.kv[px],
            self.cal.kta[px],
            il,
        )
        .div(self.eps());
        if self.cal.tgc == 0.0 {
            v
        } else {
            v.sub(self.cp_term())
        }
    }
    pub fn t_r(&self) -> Iv {
        match self.t_r {
            Some(t) => Iv::exact(f64::from(t)),
            None => self.c.t_a.sub(Iv::exact(self.cal.model.self_heating())),
        }
    }
    pub fn t_ar(&self) -> Iv {
        t_ar(self.c.t_a, self.t_r(), self.emissivity)
    }
    pub fn alpha(&self, px: usize) -> Iv {
        let mut a = k(self.cal.alpha[px]);
        if self.cal.tgc != 0.0 {
            a = a.sub(k(self.cal.tgc).mul(k(self.cal.alpha_cp[self.subpage])));
        }
        let f = ONE.add(k(self.cal.k_s_ta).mul(self.c.t_a.sub(Iv::exact(25.0))));
        a.mul(f)
    }
    pub fn k_s_to(&self) -> f64 {
        self.cal.k_s_to[self.cal.model.basic_range()]
    }
    pub fn temp_of_ir(&self, px: usize, v_ir: Iv) -> Iv {
        temperature(v_ir, self.alpha(px), self.t_ar(), k(self.k_s_to()))
    }
    pub fn temp(&self, px: usize, raw: i16) -> Iv {
        self.temp_of_ir(px, self.ir(px, raw))
    }
}

pub fn t_ar(t_a: Iv, t_r: Iv, emissivity: f32) -> Iv {
    let a4 = t_a.add(k(273.15)).powi(4);
    if emissivity == 1.0 {
        return a4;
    }
    let r4 = t_r.add(k(273.15)).powi(4);
    r4.sub(r4.sub(a4).div(Iv::exact(f64::from(emissivity))))
}

pub fn temperature(v: Iv, alpha: Iv, t_ar: Iv, k_s_to: Iv) -> Iv {
    let s_x = k_s_to.mul(
        alpha
            .powi(3)
            .mul(v)
            .add(alpha.powi(4).mul(t_ar))
            .root4(),
    );
    let denom = alpha
        .mul(ONE.sub(k_s_to.mul(k(273.15))))
        .add(s_x);
    v.div(denom).add(t_ar).root4().sub(k(273.15))
}

/// Read every constant out of a library calibration, as exact values.
pub fn extract<'a, C: CalibrationData<'a>>(c: &'a C, model: Model) -> RefCal {
    let n = C::Camera::NUM_PIXELS;
    let f = |v: &f32| f64::from(*v);
    let mut failed = vec![false; n];
    let mut outlier = vec![false; n];
    for i in c.failed_pixels().iter_flagged().take(n + 1) {
        if i < n {
            failed[i] = true;
        }
    }
    for i in c.outlier_pixels().iter_flagged().take(n + 1) {
        if i < n {
            outlier[i] = true;
        }
    }
    let off = |s| {
        c.offset_reference_pixels(s)
            .take(n + 1)
            .map(|v| i64::from(*v))
            .collect::<Vec<i64>>()
    };
    let il_cp = |s| {
        f64::from(
            c.access_pattern_compensation_cp(s, AccessPattern::Interleave)
                .unwrap_or(0.0),
        )
    };
    RefCal {
        model,
        k_v_dd: i64::from(c.k_v_dd()),
        v_dd_25: i64::from(c.v_dd_25()),
        v_dd_0: f64::from(c.v_dd_0()),
        resolution: res_raw(c.resolution()),
        k_v_ptat: c.k_v_ptat().into(),
        k_t_ptat: c.k_t_ptat().into(),
        v_ptat_25: c.v_ptat_25().into(),
        alpha_ptat: c.alpha_ptat().into(),
        gain: c.gain().into(),
        k_s_ta: c.k_s_ta().into(),
        ct: c.corner_temperatures().iter().map(|v| i64::from(*v)).collect(),
        k_s_to: c.k_s_to().iter().map(f).collect(),
        alpha_corr: c
            .alpha_correction()
            .iter()
            .map(|v| Iv::exact(f64::from(*v)))
            .collect(),
        emissivity: c.emissivity().map(f64::from),
        alpha: c.alpha_pixels(Subpage::Zero).take(n + 1).map(f).collect(),
        alpha_cp: [
            c.alpha_cp(Subpage::Zero).into(),
            c.alpha_cp(Subpage::One).into(),
        ],
        off: [off(Subpage::Zero), off(Subpage::One)],
        off_cp: [
            i64::from(c.offset_reference_cp(Subpage::Zero)),
            i64::from(c.offset_reference_cp(Subpage::One)),
        ],
        kv: c.k_v_pixels(Subpage::Zero).take(n + 1).map(f).collect(),
        kv_cp: c.k_v_cp(Subpage::Zero).into(),
        kta: c.k_ta_pixels(Subpage::Zero).take(n + 1).map(f).collect(),
        kta_cp: c.k_ta_cp(Subpage::Zero).into(),
        tgc: c
            .temperature_gradient_coefficient()
            .map(f64::from)
            .unwrap_or(0.0),
        il_pix: c
            .access_pattern_compensation_pixels(AccessPattern::Interleave)
            .take(n + 1)
            .map(|o| o.map(f).unwrap_or(0.0))
            .collect(),
        il_cp: [il_cp(Subpage::Zero), il_cp(Subpage::One)],
        failed,
        outlier,
    }
}
