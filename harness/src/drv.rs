//! One face for both camera drivers, so that every monitor runs against both, and a vocabulary of
//! API calls ("acts") with comparable outcomes for histories.
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::{
    AccessPattern, CameraDriver, Error, FrameRate, LibraryError, Mlx90640Driver, Mlx90641Driver, Resolution,
    Subpage,
};

use crate::custom::{self, Custom};
use crate::refcalc::{pattern, raw_res, sub};
use crate::rng::Rng;
use crate::sim::{Bus, Model};

#[derive(Clone, Debug, PartialEq)]
pub enum ErrV {
    Read(u64),
    Write(u64),
    Lib(LibraryError),
}

pub fn errv(e: Error<Bus>) -> ErrV {
    match e {
        Error::I2cWriteReadError(e) => ErrV::Read(e.0),
        Error::I2cWriteError(e) => ErrV::Write(e.0),
        Error::LibraryError(e) => ErrV::Lib(e),
    }
}

#[derive(Clone, Debug)]
pub enum Drv {
    A(Box<Mlx90640Driver<Bus>>),
    B(Box<Mlx90641Driver<Bus>>),
    C(Box<CameraDriver<Custom<Mlx90640>, Bus, 24, 1536>>),
    D(Box<CameraDriver<Custom<Mlx90641>, Bus, 12, 384>>),
}

/// Where a driver's calibration comes from.
#[derive(Clone, Debug)]
pub enum How {
    /// The camera's EEPROM, over the bus.
    Bus,
    /// A dump of the EEPROM.
    Dump(Vec<u8>),
    /// The user's own implementation of `CalibrationData`, from a seed.
    Custom(u64),
}

impl How {
    pub fn make(&self, model: Model, bus: &Bus, addr: u8) -> Result<Drv, ErrV> {
        match self {
            How::Bus => Drv::new(model, bus, addr),
            How::Dump(d) => Drv::from_dump(model, bus, addr, d),
            How::Custom(seed) => match model {
                Model::M40 => {
                    let (c, _) = custom::seeded::<Mlx90640>(model, *seed);
                    CameraDriver::new_with_calibration(bus.clone(), addr, c)
                        .map(|d| Drv::C(Box::new(d)))
                        .map_err(errv)
                }
                Model::M41 => {
                    let (c, _) = custom::seeded::<Mlx90641>(model, *seed);
                    CameraDriver::new_with_calibration(bus.clone(), addr, c)
                        .map(|d| Drv::D(Box::new(d)))
                        .map_err(errv)
                }
            },
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    LastSubpage,
    DataAvailable,
    ResetData,
    Overwrite,
    SetOverwrite(bool),
    Subpages,
    SetSubpages(bool),
    Hold,
    SetHold(bool),
    Repeat,
    SetRepeat(bool),
    Selected,
    SetSelected(Subpage),
    Rate,
    SetRate(FrameRate),
    Res,
    SetRes(Resolution),
    Pattern,
    SetPattern(AccessPattern),
    Emissivity,
    OverrideEmissivity(f32),
    DefaultEmissivity,
    Reflected,
    SetReflected(Option<f32>),
    Ambient,
    Height,
    Width,
    RawSub(Subpage),
    ImageSub(Subpage),
    Image,
    IfReady,
    Sync,
}

#[derive(Clone, Copy, Debug)]
pub enum Val {
    Unit,
    Bool(bool),
    Sub(Subpage),
    OptSub(Option<Subpage>),
    Rate(FrameRate),
    Res(Resolution),
    Pattern(AccessPattern),
    F(f32),
    OptF(Option<f32>),
    N(usize),
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        let b = |x: &Option<f32>| x.map(same_bits);
        match (self, o) {
            (Unit, Unit) => true,
            (Bool(a), Bool(b)) => a == b,
            (Sub(a), Sub(b)) => a == b,
            (OptSub(a), OptSub(b)) => a == b,
            (Rate(a), Rate(b)) => a == b,
            (Res(a), Res(b)) => a == b,
            (Pattern(a), Pattern(b)) => a == b,
            (F(x), F(y)) => same_bits(*x) == same_bits(*y),
            (OptF(x), OptF(y)) => b(x) == b(y),
            (N(a), N(b)) => a == b,
            _ => false,
        }
    }
}

/// Bits of a float with all NaNs made one: NaN payloads carry no meaning.
pub fn same_bits(v: f32) -> u32 {
    if v.is_nan() {
        0x7FC0_0000
    } else {
        v.to_bits()
    }
}

pub type Out = Result<Val, ErrV>;

pub const RATES: [FrameRate; 8] = [
    FrameRate::Half,
    FrameRate::One,
    FrameRate::Two,
    FrameRate::Four,
    FrameRate::Eight,
    FrameRate::Sixteen,
    FrameRate::ThirtyTwo,
    FrameRate::SixtyFour,
];

macro_rules! both {
    ($self:expr, $d:ident => $e:expr) => {
        match $self {
            Drv::A($d) => $e,
            Drv::B($d) => $e,
            Drv::C($d) => $e,
            Drv::D($d) => $e,
        }
    };
}

impl Drv {
    pub fn new(model: Model, bus: &Bus, addr: u8) -> Result<Drv, ErrV> {
        match model {
            Model::M40 => Mlx90640Driver::new(bus.clone(), addr)
                .map(|d| Drv::A(Box::new(d)))
                .map_err(errv),
            Model::M41 => Mlx90641Driver::new(bus.clone(), addr)
                .map(|d| Drv::B(Box::new(d)))
                .map_err(errv),
        }
    }
    pub fn from_dump(model: Model, bus: &Bus, addr: u8, dump: &[u8]) -> Result<Drv, ErrV> {
        match model {
            Model::M40 => {
                let c = Mlx90640Calibration::from_data(dump).map_err(ErrV::Lib)?;
                Mlx90640Driver::new_with_calibration(bus.clone(), addr, c)
                    .map(|d| Drv::A(Box::new(d)))
                    .map_err(errv)
            }
            Model::M41 => {
                let c = Mlx90641Calibration::from_data(dump).map_err(ErrV::Lib)?;
                Mlx90641Driver::new_with_calibration(bus.clone(), addr, c)
                    .map(|d| Drv::B(Box::new(d)))
                    .map_err(errv)
            }
        }
    }
    pub fn ambient(&self) -> Option<f32> {
        both!(self, d => d.ambient_temperature())
    }
    pub fn emissivity(&self) -> f32 {
        both!(self, d => d.effective_emissivity())
    }
    pub fn reflected(&self) -> Option<f32> {
        both!(self, d => d.reflected_temperature())
    }
    pub fn override_emissivity(&mut self, e: f32) {
        both!(self, d => d.override_emissivity(e))
    }
    pub fn set_reflected(&mut self, t: Option<f32>) {
        both!(self, d => d.set_reflected_temperature(t))
    }
    pub fn act(&mut self, a: Act, dest: &mut [f32]) -> Out {
        let u = |r: Result<(), Error<Bus>>| r.map(|_| Val::Unit).map_err(errv);
        let b = |r: Result<bool, Error<Bus>>| r.map(Val::Bool).map_err(errv);
        let s = |r: Result<Subpage, Error<Bus>>| r.map(Val::Sub).map_err(errv);
        both!(self, d => match a {
            Act::LastSubpage => s(d.last_measured_subpage()),
            Act::DataAvailable => d.data_available().map(Val::OptSub).map_err(errv),
            Act::ResetData => u(d.reset_data_available()),
            Act::Overwrite => b(d.overwrite_enabled()),
            Act::SetOverwrite(v) => u(d.set_overwrite_enabled(v)),
            Act::Subpages => b(d.subpages_enabled()),
            Act::SetSubpages(v) => u(d.set_use_subpages(v)),
            Act::Hold => b(d.data_hold_enabled()),
            Act::SetHold(v) => u(d.set_data_hold(v)),
            Act::Repeat => b(d.subpage_repeat()),
            Act::SetRepeat(v) => u(d.set_subpage_repeat(v)),
            Act::Selected => s(d.selected_subpage()),
            Act::SetSelected(v) => u(d.set_subpage(v)),
            Act::Rate => d.frame_rate().map(Val::Rate).map_err(errv),
            Act::SetRate(v) => u(d.set_frame_rate(v)),
            Act::Res => d.resolution().map(Val::Res).map_err(errv),
            Act::SetRes(v) => u(d.set_resolution(v)),
            Act::Pattern => d.access_pattern().map(Val::Pattern).map_err(errv),
            Act::SetPattern(v) => u(d.set_access_pattern(v)),
            Act::Emissivity => Ok(Val::F(d.effective_emissivity())),
            Act::OverrideEmissivity(e) => { d.override_emissivity(e); Ok(Val::Unit) }
            Act::DefaultEmissivity => { d.use_default_emissivity(); Ok(Val::Unit) }
            Act::Reflected => Ok(Val::OptF(d.reflected_temperature())),
            Act::SetReflected(t) => { d.set_reflected_temperature(t); Ok(Val::Unit) }
            Act::Ambient => Ok(Val::OptF(d.ambient_temperature())),
            Act::Height => Ok(Val::N(d.height())),
            Act::Width => Ok(Val::N(d.width())),
            Act::RawSub(n) => u(d.generate_raw_image_subpage_to(n, dest)),
            Act::ImageSub(n) => u(d.generate_image_subpage_to(n, dest)),
            Act::Image => u(d.generate_image_to(dest)),
            Act::IfReady => b(d.generate_image_if_ready(dest)),
            Act::Sync => u(d.synchronize()),
        })
    }
}

impl Act {
    pub fn name(self) -> String {
        let s = format!("{self:?}");
        s.split('(').next().unwrap_or("").to_string()
    }
    pub fn is_image(self) -> bool {
        matches!(self, Act::RawSub(_) | Act::ImageSub(_) | Act::Image | Act::IfReady)
    }
    pub fn is_setter(self) -> bool {
        matches!(
            self,
            Act::SetOverwrite(_)
                | Act::SetSubpages(_)
                | Act::SetHold(_)
                | Act::SetRepeat(_)
                | Act::SetSelected(_)
                | Act::SetRate(_)
                | Act::SetRes(_)
                | Act::SetPattern(_)
        )
    }
    /// Does this call read (or read and write) the control register?
    pub fn is_control(self) -> bool {
        (self.is_setter() && !matches!(self, Act::SetOverwrite(_)))
            || matches!(
                self,
                Act::Subpages | Act::Hold | Act::Repeat | Act::Selected | Act::Rate | Act::Res | Act::Pattern
            )
    }
    /// A call which reads or changes a setting in the control register.
    pub fn control(rng: &mut Rng) -> Act {
        loop {
            let a = if rng.bool() { Act::getter(rng) } else { Act::setter(rng) };
            if a.is_control() {
                return a;
            }
        }
    }
    /// May this call write to the camera at all?
    pub fn may_write(self) -> bool {
        self.is_setter() || matches!(self, Act::ResetData | Act::IfReady | Act::Sync)
    }
    /// A random camera setting change.
    pub fn setter(rng: &mut Rng) -> Act {
        let b = rng.bool();
        match rng.idx(8) {
            0 => Act::SetOverwrite(b),
            1 => Act::SetSubpages(b),
            2 => Act::SetHold(b),
            3 => Act::SetRepeat(b),
            4 => Act::SetSelected(sub(b as usize)),
            5 => Act::SetRate(*rng.pick(&RATES)),
            6 => Act::SetRes(raw_res(rng.u16())),
            _ => Act::SetPattern(pattern(b)),
        }
    }
    pub fn getter(rng: &mut Rng) -> Act {
        match rng.idx(15) {
            0 => Act::LastSubpage,
            1 => Act::DataAvailable,
            2 => Act::Overwrite,
            3 => Act::Subpages,
            4 => Act::Hold,
            5 => Act::Repeat,
            6 => Act::Selected,
            7 => Act::Rate,
            8 => Act::Res,
            9 => Act::Pattern,
            10 => Act::Emissivity,
            11 => Act::Reflected,
            12 => Act::Ambient,
            13 => Act::Height,
            _ => Act::Width,
        }
    }
    pub fn image(rng: &mut Rng) -> Act {
        let n = sub(rng.idx(2));
        match rng.idx(4) {
            0 => Act::RawSub(n),
            1 => Act::ImageSub(n),
            2 => Act::Image,
            _ => Act::IfReady,
        }
    }
    /// Any call except `synchronize` (which waits for the camera).
    pub fn any(rng: &mut Rng) -> Act {
        match rng.idx(12) {
            0..=3 => Act::image(rng),
            4..=6 => Act::setter(rng),
            7 | 8 => Act::getter(rng),
            9 => Act::ResetData,
            10 => match rng.idx(3) {
                0 => Act::OverrideEmissivity(*rng.pick(&[1.0, 0.95, 0.9501, 0.949, 0.5, 0.1, 0.987])),
                1 => Act::OverrideEmissivity(rng.frange(0.05, 1.0) as f32),
                _ => Act::DefaultEmissivity,
            },
            // Values near each other come in turn, so that a driver which takes them for the same
            // shows it.
            _ => Act::SetReflected(match rng.idx(3) {
                0 => Some(rng.frange(-60.0, 120.0) as f32),
                1 => Some(*rng.pick(&[30.0, 30.4, 30.05, 29.0, 0.0, -10.0])),
                _ => None,
            }),
        }
    }
    /// A call that is guaranteed to be one of every kind as `i` goes round.
    pub fn every(i: usize, rng: &mut Rng) -> Act {
        let b = rng.bool();
        let all = [
            Act::LastSubpage,
            Act::DataAvailable,
            Act::ResetData,
            Act::Overwrite,
            Act::SetOverwrite(b),
            Act::Subpages,
            Act::SetSubpages(b),
            Act::Hold,
            Act::SetHold(b),
            Act::Repeat,
            Act::SetRepeat(b),
            Act::Selected,
            Act::SetSelected(sub(b as usize)),
            Act::Rate,
            Act::SetRate(*rng.pick(&RATES)),
            Act::Res,
            Act::SetRes(raw_res(rng.u16())),
            Act::Pattern,
            Act::SetPattern(pattern(b)),
            Act::RawSub(sub(b as usize)),
            Act::ImageSub(sub(b as usize)),
            Act::Image,
            Act::IfReady,
            Act::Sync,
        ];
        all[i % all.len()]
    }
    pub const EVERY: usize = 24;
}

/// In some cases only a few kinds of calls are made, again and again: a history of 16 calls then
/// holds the same pair or triple of them many times over, which independent draws rarely do.
pub struct Swarm(Vec<Act>);

impl Swarm {
    pub fn new(rng: &mut Rng) -> Self {
        if !rng.chance(1, 3) {
            return Swarm(vec![]);
        }
        let mut v = vec![Act::image(rng)];
        if rng.bool() {
            // What images depend on besides the camera
            v.push(Act::OverrideEmissivity(rng.frange(0.3, 0.99) as f32));
            v.push(Act::SetReflected(Some(rng.frange(-20.0, 80.0) as f32)));
        }
        for _ in 0..rng.range(1, 3) {
            v.push(if rng.chance(1, 6) { Act::Sync } else { Act::any(rng) });
        }
        Swarm(v)
    }
    pub fn pick(&self, rng: &mut Rng, other: impl FnOnce(&mut Rng) -> Act) -> Act {
        if self.0.is_empty() || rng.chance(1, 8) {
            return other(rng);
        }
        rng.pick(&self.0).vary(rng)
    }
}

impl Act {
    /// The same call, at times with other arguments: close to the former ones or not.
    pub fn vary(self, rng: &mut Rng) -> Act {
        if rng.bool() {
            return self;
        }
        let near = |v: f32, rng: &mut Rng| {
            let d = *rng.pick(&[1e-4, 1e-2, 0.1, 0.4]) as f32;
            if rng.bool() { v + d } else { v - d }
        };
        let b = rng.bool();
        match self {
            Act::SetOverwrite(_) => Act::SetOverwrite(b),
            Act::SetSubpages(_) => Act::SetSubpages(b),
            Act::SetHold(_) => Act::SetHold(b),
            Act::SetRepeat(_) => Act::SetRepeat(b),
            Act::SetSelected(_) => Act::SetSelected(sub(b as usize)),
            Act::SetRate(_) => Act::SetRate(*rng.pick(&RATES)),
            Act::SetRes(_) => Act::SetRes(raw_res(rng.u16())),
            Act::SetPattern(_) => Act::SetPattern(pattern(b)),
            Act::OverrideEmissivity(e) => {
                Act::OverrideEmissivity(if b { near(e, rng).clamp(0.05, 1.0) } else { 1.0 })
            }
            Act::SetReflected(Some(t)) => {
                Act::SetReflected(if rng.chance(1, 4) { None } else { Some(near(t, rng)) })
            }
            Act::RawSub(_) => Act::RawSub(sub(b as usize)),
            Act::ImageSub(_) => Act::ImageSub(sub(b as usize)),
            a => a,
        }
    }
}
