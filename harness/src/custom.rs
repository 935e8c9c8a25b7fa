//! Calibrations which are not one of the library's own: the calculation functions are generic over
//! `CalibrationData`, and users may supply their own. Everything here may differ per subpage.
use std::marker::PhantomData;

use bitvec::prelude::{BitSlice, Lsb0};
use mlx9064x::{AccessPattern, CalibrationData, MelexisCamera, Resolution, Subpage};

use crate::ee::{gen_ok, RefCal, Style};
use crate::iv::Iv;
use crate::refcalc::raw_res;
use crate::rng::Rng;
use crate::sim::Model;

#[derive(Clone, Debug)]
pub struct PerSub {
    pub off: Vec<i16>,
    pub alpha: Vec<f32>,
    pub kv: Vec<f32>,
    pub kta: Vec<f32>,
    pub off_cp: i16,
    pub alpha_cp: f32,
    pub kv_cp: f32,
    pub kta_cp: f32,
    pub il_cp: [Option<f32>; 2],
}

#[derive(Clone, Debug)]
pub struct Custom<Cam> {
    pub sub: [PerSub; 2],
    /// Per access pattern (chess, interleave).
    pub comp: [Vec<Option<f32>>; 2],
    pub tgc: Option<f32>,
    pub emissivity: Option<f32>,
    pub v_dd_0: f32,
    pub k_v_dd: i16,
    pub v_dd_25: i16,
    pub resolution: Resolution,
    pub k_v_ptat: f32,
    pub k_t_ptat: f32,
    pub v_ptat_25: f32,
    pub alpha_ptat: f32,
    pub gain: f32,
    pub k_s_ta: f32,
    pub ct: Vec<i16>,
    pub k_s_to: Vec<f32>,
    pub corr: Vec<f32>,
    pub flags: Vec<usize>,
    pub cam: PhantomData<Cam>,
}

fn s(p: Subpage) -> usize {
    match p {
        Subpage::Zero => 0,
        Subpage::One => 1,
    }
}

fn a(p: AccessPattern) -> usize {
    match p {
        AccessPattern::Chess => 0,
        AccessPattern::Interleave => 1,
    }
}

/// A custom calibration, and what `view` builds the reference from.
pub fn made<Cam>(rng: &mut Rng, model: Model) -> (Custom<Cam>, RefCal) {
    let (_, mut x) = gen_ok(rng, model, Style::Plausible);
    let (_, y) = gen_ok(rng, model, Style::Plausible);
    let c = Custom::mix(rng, &x, &y, true);
    x.failed.iter_mut().for_each(|b| *b = false);
    (c, x)
}

/// The same, from nothing but a seed, so that it can be made again.
pub fn seeded<Cam>(model: Model, seed: u64) -> (Custom<Cam>, RefCal) {
    made(&mut Rng::new(seed), model)
}

/// The reference's view of `seeded` in one subpage and access pattern.
pub fn seeded_view(model: Model, seed: u64, subpage: usize, chess: bool) -> RefCal {
    let (c, x) = seeded::<()>(model, seed);
    c.view(&x, subpage, chess)
}

impl<Cam> Custom<Cam> {
    /// Mix two plausible calibrations; `vary` makes everything the trait allows to vary, vary.
    pub fn mix(rng: &mut Rng, x: &RefCal, y: &RefCal, vary: bool) -> Self {
        let per = |rng: &mut Rng, r: &RefCal, n: usize| PerSub {
            off: r.off[n].iter().map(|v| *v as i16).collect(),
            alpha: r.alpha.iter().map(|v| *v as f32).collect(),
            kv: r.kv.iter().map(|v| *v as f32).collect(),
            kta: r.kta.iter().map(|v| *v as f32).collect(),
            off_cp: r.off_cp[n] as i16,
            alpha_cp: r.alpha_cp[n] as f32,
            kv_cp: r.kv_cp as f32,
            kta_cp: r.kta_cp as f32,
            il_cp: if vary {
                [
                    Some(rng.frange(-4.0, 4.0) as f32),
                    Some(rng.frange(-4.0, 4.0) as f32),
                ]
            } else {
                [None, Some(r.il_cp[n] as f32)]
            },
        };
        let n = x.alpha.len();
        let comp = if vary {
            [0, 1].map(|_| {
                (0..n)
                    .map(|_| {
                        if rng.chance(1, 4) {
                            None
                        } else {
                            Some(rng.frange(-8.0, 8.0) as f32)
                        }
                    })
                    .collect()
            })
        } else {
            [vec![None; n], x.il_pix.iter().map(|v| Some(*v as f32)).collect()]
        };
        let f = |v: &Vec<f64>| -> Vec<f32> { v.iter().map(|x| *x as f32).collect() };
        Custom {
            sub: [per(rng, x, 0), per(rng, if vary { y } else { x }, 1)],
            comp,
            tgc: match rng.idx(4) {
                0 => None,
                1 => Some(0.0),
                _ => Some(rng.frange(-1.0, 1.0) as f32),
            },
            emissivity: x.emissivity.map(|v| v as f32),
            v_dd_0: if vary { rng.frange(3.0, 3.6) as f32 } else { 3.3 },
            k_v_dd: x.k_v_dd as i16,
            v_dd_25: x.v_dd_25 as i16,
            resolution: raw_res(x.resolution),
            k_v_ptat: x.k_v_ptat as f32,
            k_t_ptat: x.k_t_ptat as f32,
            v_ptat_25: x.v_ptat_25 as f32,
            alpha_ptat: x.alpha_ptat as f32,
            gain: x.gain as f32,
            k_s_ta: x.k_s_ta as f32,
            ct: x.ct.iter().map(|v| *v as i16).collect(),
            k_s_to: f(&x.k_s_to),
            corr: x
                .alpha_corr
                .iter()
                .map(|v| if let Iv::In(..) = v { v.mid() as f32 } else { 1.0 })
                .collect(),
            flags: Vec::new(),
            cam: PhantomData,
        }
    }

    /// What the reference has to use for one subpage and access pattern.
    pub fn view(&self, base: &RefCal, subpage: usize, chess: bool) -> RefCal {
        let p = &self.sub[subpage];
        let ap = usize::from(!chess);
        let f = |v: &Vec<f32>| -> Vec<f64> { v.iter().map(|x| f64::from(*x)).collect() };
        let mut r = base.clone();
        r.off[subpage] = p.off.iter().map(|v| i64::from(*v)).collect();
        r.alpha = f(&p.alpha);
        r.kv = f(&p.kv);
        r.kta = f(&p.kta);
        r.off_cp[subpage] = p.off_cp.into();
        r.alpha_cp[subpage] = p.alpha_cp.into();
        r.kv_cp = p.kv_cp.into();
        r.kta_cp = p.kta_cp.into();
        r.il_pix = self.comp[ap].iter().map(|o| f64::from(o.unwrap_or(0.0))).collect();
        r.il_cp[subpage] = p.il_cp[ap].unwrap_or(0.0).into();
        r.tgc = self.tgc.unwrap_or(0.0).into();
        r.v_dd_0 = self.v_dd_0.into();
        r.k_v_ptat = self.k_v_ptat.into();
        r.k_t_ptat = self.k_t_ptat.into();
        r.v_ptat_25 = self.v_ptat_25.into();
        r.alpha_ptat = self.alpha_ptat.into();
        r.gain = self.gain.into();
        r.k_s_ta = self.k_s_ta.into();
        r.k_s_to = f(&self.k_s_to);
        r
    }
}

impl<'a, Cam: MelexisCamera + 'a> CalibrationData<'a> for Custom<Cam> {
    type Camera = Cam;
    fn k_v_dd(&self) -> i16 {
        self.k_v_dd
    }
    fn v_dd_25(&self) -> i16 {
        self.v_dd_25
    }
    fn resolution(&self) -> Resolution {
        self.resolution
    }
    fn v_dd_0(&self) -> f32 {
        self.v_dd_0
    }
    fn k_v_ptat(&self) -> f32 {
        self.k_v_ptat
    }
    fn k_t_ptat(&self) -> f32 {
        self.k_t_ptat
    }
    fn v_ptat_25(&self) -> f32 {
        self.v_ptat_25
    }
    fn alpha_ptat(&self) -> f32 {
        self.alpha_ptat
    }
    fn gain(&self) -> f32 {
        self.gain
    }
    fn k_s_ta(&self) -> f32 {
        self.k_s_ta
    }
    fn corner_temperatures(&self) -> &[i16] {
        &self.ct
    }
    fn k_s_to(&self) -> &[f32] {
        &self.k_s_to
    }
    fn alpha_correction(&self) -> &[f32] {
        &self.corr
    }
    fn emissivity(&self) -> Option<f32> {
        self.emissivity
    }
    type OffsetReferenceIterator = std::slice::Iter<'a, i16>;
    fn offset_reference_pixels(&'a self, subpage: Subpage) -> Self::OffsetReferenceIterator {
        self.sub[s(subpage)].off.iter()
    }
    fn offset_reference_cp(&self, subpage: Subpage) -> i16 {
        self.sub[s(subpage)].off_cp
    }
    type AlphaIterator = std::slice::Iter<'a, f32>;
    fn alpha_pixels(&'a self, subpage: Subpage) -> Self::AlphaIterator {
        self.sub[s(subpage)].alpha.iter()
    }
    fn alpha_cp(&self, subpage: Subpage) -> f32 {
        self.sub[s(subpage)].alpha_cp
    }
    type KvIterator = std::slice::Iter<'a, f32>;
    fn k_v_pixels(&'a self, subpage: Subpage) -> Self::KvIterator {
        self.sub[s(subpage)].kv.iter()
    }
    fn k_v_cp(&self, subpage: Subpage) -> f32 {
        self.sub[s(subpage)].kv_cp
    }
    type KtaIterator = std::slice::Iter<'a, f32>;
    fn k_ta_pixels(&'a self, subpage: Subpage) -> Self::KtaIterator {
        self.sub[s(subpage)].kta.iter()
    }
    fn k_ta_cp(&self, subpage: Subpage) -> f32 {
        self.sub[s(subpage)].kta_cp
    }
    fn temperature_gradient_coefficient(&self) -> Option<f32> {
        self.tgc
    }
    type AccessPatternCompensation =
        std::iter::Map<std::slice::Iter<'a, Option<f32>>, fn(&'a Option<f32>) -> Option<&'a f32>>;
    fn access_pattern_compensation_pixels(
        &'a self,
        access_pattern: AccessPattern,
    ) -> Self::AccessPatternCompensation {
        self.comp[a(access_pattern)].iter().map(Option::as_ref)
    }
    fn access_pattern_compensation_cp(
        &self,
        subpage: Subpage,
        access_pattern: AccessPattern,
    ) -> Option<f32> {
        self.sub[s(subpage)].il_cp[a(access_pattern)]
    }
    type FailedPixels = &'static BitSlice<usize, Lsb0>;
    fn failed_pixels(&'a self) -> Self::FailedPixels {
        BitSlice::empty()
    }
    type OutlierPixels = &'static BitSlice<usize, Lsb0>;
    fn outlier_pixels(&'a self) -> Self::OutlierPixels {
        BitSlice::empty()
    }
}
