//! C05 what appears on the bus, C06 what setters change.
use mlx9064x::{AccessPattern, Subpage};

use crate::ctx::{Case, Ctx};
use crate::drv::{same_bits, Act, Drv, Swarm, Val, RATES};
use crate::ee::{gen_ok, to_bytes, Style};
use crate::refcalc::{raw_res, res_raw, sub};
use crate::rng::{fnv, mix, Rng};
use crate::scene::{self, setup, Frame};
use crate::wear::Wear;
use crate::sim::{
    show_ops, Bus, Cam, Fault, Kind, Model, Op, Sim, CONTROL, EEPROM_BASE, EEPROM_WORDS, I2CREG,
    ST_NEW, ST_OVERWRITE, ST_START, STATUS,
};

/// The register field a setter is for.
pub fn field(a: Act) -> Option<(u16, u16)> {
    Some(match a {
        Act::SetOverwrite(_) => (STATUS, ST_OVERWRITE),
        Act::SetSubpages(_) => (CONTROL, 0x0001),
        Act::SetHold(_) => (CONTROL, 0x0004),
        Act::SetRepeat(_) => (CONTROL, 0x0008),
        Act::SetSelected(_) => (CONTROL, 0x0010),
        Act::SetRate(_) => (CONTROL, 0x0380),
        Act::SetRes(_) => (CONTROL, 0x0C00),
        Act::SetPattern(_) => (CONTROL, 0x1000),
        _ => return None,
    })
}

/// The value of that field for the setter's argument.
pub fn field_value(a: Act) -> u16 {
    let (_, mask) = field(a).expect("a setter");
    let v = match a {
        Act::SetOverwrite(b) | Act::SetSubpages(b) | Act::SetHold(b) | Act::SetRepeat(b) => {
            u16::from(b)
        }
        Act::SetSelected(s) => u16::from(s == Subpage::One),
        Act::SetRate(r) => RATES.iter().position(|x| *x == r).expect("a rate") as u16,
        Act::SetRes(r) => res_raw(r),
        Act::SetPattern(p) => u16::from(p == AccessPattern::Chess),
        _ => 0,
    };
    v << mask.trailing_zeros()
}

/// The bits of a register a call may change.
fn may_change(a: Act) -> Option<(u16, u16)> {
    match a {
        Act::ResetData | Act::IfReady => Some((STATUS, ST_NEW)),
        Act::Sync => Some((STATUS, ST_NEW | ST_OVERWRITE | ST_START)),
        a => field(a),
    }
}

fn is_eeprom(a: u16) -> bool {
    (EEPROM_BASE..EEPROM_BASE + EEPROM_WORDS as u16).contains(&a)
}

fn bystander(rng: &mut Rng, taken: &[u8]) -> Cam {
    let model = *rng.pick(&Model::BOTH);
    let (ee, _) = gen_ok(rng, model, Style::Plausible);
    let addr = loop {
        let a = scene::address(rng);
        if !taken.contains(&a) {
            break a;
        }
    };
    let ram = (0..model.ram_len()).map(|_| rng.u16()).collect();
    let mut c = Cam::new(model, addr, ee, ram);
    c.status = rng.u16();
    c.control = rng.u16();
    c.i2creg = rng.u16();
    c
}

fn same_cam(a: &Cam, b: &Cam) -> bool {
    a.eeprom == b.eeprom
        && a.ram == b.ram
        && a.status == b.status
        && a.control == b.control
        && a.i2creg == b.i2creg
}

/// The trace specification, over the operations of one call.
fn judge(case: &mut Case, what: &str, own: u8, act: Option<Act>, log: &[Op]) -> bool {
    let framed = log.iter().any(|o| o.kind == Kind::Frame);
    for o in log {
        if o.kind == Kind::Frame {
            continue;
        }
        case.count("transactions judged", 1);
        let ctx = || format!("{what}: {} in {}", o.show(), show_ops(log));
        if !case.check(o.i2c == own, || {
            format!("{}: transaction for another bus address (own is {own:#x})", ctx())
        }) || !case.check(o.legal, || {
            format!("{}: not a transaction the device's memory map allows", ctx())
        }) {
            return false;
        }
        match (o.kind, act) {
            (Kind::Read, None) => {
                case.count("construction reads", 1);
                if !case.check(
                    is_eeprom(o.start) || matches!(o.start, STATUS | CONTROL | I2CREG),
                    || format!("{}: construction reads measurement memory", ctx()),
                ) {
                    return false;
                }
            }
            (Kind::Read, Some(_)) => {
                if !case.check(!is_eeprom(o.start), || {
                    format!("{}: EEPROM read outside construction", ctx())
                }) {
                    return false;
                }
            }
            (Kind::Write, act) => {
                case.count("writes judged", 1);
                let Some((reg, mut bits)) = act.and_then(may_change) else {
                    case.fail(format!("{}: a call which only reads wrote to the camera", ctx()));
                    return false;
                };
                if framed && reg == STATUS {
                    bits |= 0x0001 | ST_NEW | ST_START;
                }
                if !case.check(o.start == reg, || format!("{}: wrote another register", ctx()))
                    || !case.check((o.value ^ o.before) & !bits == 0, || {
                        format!(
                            "{}: register was {:#06x}, only bits {bits:#06x} may change",
                            ctx(),
                            o.before
                        )
                    })
                {
                    return false;
                }
            }
            (Kind::Frame, _) => {}
        }
    }
    true
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "one case = constructing a driver and a history of API calls on a simulated bus with up to two further cameras, with injected faults and frames arriving mid-call; the monitor judges every transaction; distinct = distinct (call, outcome, transaction shape)";
    ctx.required = vec![
        ("transactions judged", 50_000),
        ("writes judged", 1_000),
        ("construction reads", 500),
        ("calls under fault", 500),
        ("calls with a frame arriving", 500),
        ("bystander comparisons", 1_000),
        ("destinations of another length", 1_000),
    ];
    ctx.assumptions = vec!["the device map is the datasheets': RAM 0x0400.., EEPROM 0x2400..0x273F, registers 0x8000, 0x800D, 0x800F"];
    let n = ctx.n(6_000, 40_000);
    ctx.phase("history", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let mut s = setup(&mut case.rng, model, Style::Plausible, Frame::Noise);
        s.cam.control = case.rng.u16();
        let own = s.cam.addr;
        let mut cams = vec![s.cam];
        let mut taken = vec![own];
        for _ in 0..case.rng.idx(3) {
            let c = bystander(&mut case.rng, &taken);
            taken.push(c.addr);
            cams.push(c);
        }
        let others: Vec<Cam> = cams[1..].to_vec();
        let ee = cams[0].eeprom.clone();
        let mut alt: Vec<u16> = (0..model.ram_len()).map(|_| case.rng.u16()).collect();
        let mut first = cams[0].ram.clone();
        for f in [&mut alt, &mut first] {
            if scene::odd_words(&mut case.rng, model, f) {
                case.count("frames with an odd word", 1);
            }
        }
        cams[0].ram = first.clone();
        cams[0].frames = vec![first, alt];
        let bus = Bus::new(Sim::new(cams));
        let dump = to_bytes(&ee);
        let from_dump = case.rng.chance(1, 3);
        bus.arm();
        let drv = case.lib("construction", || {
            if from_dump {
                Drv::from_dump(model, &bus, own, &dump)
            } else {
                Drv::new(model, &bus, own)
            }
        });
        let log = bus.log();
        if !judge(case, "construction", own, None, &log) {
            return;
        }
        let mut drv = match drv {
            Some(Ok(d)) => d,
            Some(Err(e)) => {
                case.fail(format!("construction failed: {e:?}"));
                return;
            }
            None => return,
        };
        if Wear::perhaps(case, 24, 300, &bus, &mut drv, model).is_none() {
            return;
        }
        let mut dest = vec![0f32; model.pixels()];
        let swarm = Swarm::new(&mut case.rng);
        for step in 0..24usize {
            let act = swarm.pick(&mut case.rng, |rng| match rng.idx(4) {
                0 => Act::every(rng.idx(Act::EVERY), rng),
                1 => Act::setter(rng),
                _ => Act::any(rng),
            });
            bus.arm();
            let faulty = case.rng.chance(1, 6);
            let framed = case.rng.chance(1, 4);
            let at = case.rng.below(4);
            let delay = case.rng.below(20) as u32;
            bus.with(|b| {
                b.cams[0].measure_delay = Some(delay);
                if faulty {
                    b.faults.push((at, Fault::Partial, 7));
                }
                if framed {
                    b.frame_at.push((0, at));
                    b.frame_at.push((0, at + 2));
                }
                b.budget = 500;
            });
            if case.rng.chance(1, 6) {
                // Somebody else set the camera up, or its memory was overwritten meanwhile.
                let (st, co) = (case.rng.u16(), case.rng.u16());
                bus.cam(|c| {
                    c.status = st;
                    if co & 3 == 0 {
                        c.control = co;
                    }
                });
            }
            if act.is_image() {
                let n = scene::odd_len(&mut case.rng, model.pixels());
                dest.resize(n, 0.0);
                if n != model.pixels() {
                    case.count("destinations of another length", 1);
                }
            }
            let before = bus.with(|b| b.cams[0].clone());
            let Some(out) = case.lib(&act.name(), || drv.act(act, &mut dest)) else { return };
            let log = bus.log();
            let what = format!("{} step {step} {act:?}", model.name());
            if !judge(case, &what, own, Some(act), &log) {
                return;
            }
            if faulty {
                case.count("calls under fault", 1);
            }
            if framed {
                case.count("calls with a frame arriving", 1);
            }
            let after = bus.with(|b| b.cams[0].clone());
            case.check(after.eeprom == ee, || format!("{what}: EEPROM changed"));
            if after.completed == before.completed {
                case.check(after.ram == before.ram, || format!("{what}: RAM changed"));
            }
            case.check(after.i2creg == before.i2creg, || format!("{what}: I2C register changed"));
            for (i, o) in others.iter().enumerate() {
                let now = bus.with(|b| b.cams[i + 1].clone());
                case.count("bystander comparisons", 1);
                case.check(same_cam(o, &now), || format!("{what}: another camera was changed"));
            }
            let shape = log.iter().fold(fnv(act.name().as_bytes()), |h, o| {
                mix(h ^ u64::from(o.start) ^ (o.len as u64) << 16 ^ (o.kind as u64) << 40)
            });
            case.seen(mix(shape ^ u64::from(out.is_ok())));
            if case.failed() {
                return;
            }
            case.sample(|| format!("{what}: {}", show_ops(&log)));
        }
    });
}

// ---------------------------------------------------------------------------------------------

fn getters() -> [Act; 10] {
    [
        Act::Overwrite,
        Act::Subpages,
        Act::Hold,
        Act::Repeat,
        Act::Selected,
        Act::Rate,
        Act::Res,
        Act::Pattern,
        Act::LastSubpage,
        Act::DataAvailable,
    ]
}

/// What every getter has to say about the registers.
fn decoded(act: Act, status: u16, control: u16) -> Val {
    match act {
        Act::Overwrite => Val::Bool(status & ST_OVERWRITE != 0),
        Act::LastSubpage => Val::Sub(sub(usize::from(status & 1))),
        Act::DataAvailable => Val::OptSub(if status & ST_NEW != 0 {
            Some(sub(usize::from(status & 1)))
        } else {
            None
        }),
        Act::Subpages => Val::Bool(control & 1 != 0),
        Act::Hold => Val::Bool(control & 4 != 0),
        Act::Repeat => Val::Bool(control & 8 != 0),
        Act::Selected => Val::Sub(sub(usize::from(control >> 4 & 1))),
        Act::Rate => Val::Rate(RATES[usize::from(control >> 7 & 7)]),
        Act::Res => Val::Res(raw_res(control >> 10)),
        Act::Pattern => Val::Pattern(crate::refcalc::pattern(control & 0x1000 != 0)),
        _ => Val::Unit,
    }
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "one case = a driver and a sequence of setting changes from arbitrary register contents; after each one the simulated registers and all getters are compared with the model; distinct = distinct (setter, register content before)";
    ctx.required = vec![
        ("setter calls", 20_000),
        ("getters compared", 100_000),
        ("setters with nothing to change", 1_000),
        ("setters with something to change", 1_000),
    ];
    let n = ctx.n(4_800, 60_000);
    ctx.phase("setters", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let s = setup(&mut case.rng, model, Style::Plausible, Frame::Noise);
        let (own, e) = (s.cam.addr, s.emissivity);
        let bus = Bus::one(s.cam);
        let Some(Ok(mut drv)) = case.lib("construction", || Drv::new(model, &bus, own)) else {
            case.fail("construction failed");
            return;
        };
        drv.override_emissivity(e);
        drv.set_reflected(Some(12.5));
        if Wear::perhaps(case, 24, 300, &bus, &mut drv, model).is_none() {
            return;
        }
        let ambient = drv.ambient();
        for step in 0..40 {
            if step % 8 == 0 {
                // Somebody else set the camera up differently, or it was power cycled.
                let (st, co, ic) = (case.rng.u16(), case.rng.u16(), case.rng.u16());
                bus.cam(|c| {
                    c.status = st;
                    c.control = co;
                    c.i2creg = ic;
                });
            }
            let act = Act::setter(&mut case.rng);
            let before = bus.with(|b| b.cams[0].clone());
            let (reg, mask) = field(act).expect("a setter");
            let (mut status, mut control) = (before.status, before.control);
            let r = if reg == STATUS { &mut status } else { &mut control };
            let unchanged = *r & mask == field_value(act);
            case.seen(mix(fnv(format!("{act:?}").as_bytes()) ^ u64::from(*r)));
            *r = *r & !mask | field_value(act);
            bus.arm();
            let out = case.lib(&act.name(), || drv.act(act, &mut []));
            let Some(out) = out else { return };
            let log = bus.log();
            let what = format!(
                "{} {act:?} with status {:#06x}, control {:#06x}",
                model.name(),
                before.status,
                before.control
            );
            case.count("setter calls", 1);
            case.check(out == Ok(Val::Unit), || format!("{what}: {out:?}"));
            let after = bus.with(|b| b.cams[0].clone());
            case.check(
                (after.status, after.control, after.i2creg) == (status, control, before.i2creg),
                || {
                    format!(
                        "{what}: registers became status {:#06x}, control {:#06x} instead of {status:#06x}, {control:#06x}",
                        after.status, after.control
                    )
                },
            );
            case.check(after.ram == before.ram && after.eeprom == before.eeprom, || {
                format!("{what}: memory changed")
            });
            let writes = log.iter().filter(|o| o.kind == Kind::Write).count();
            if unchanged {
                case.count("setters with nothing to change", 1);
                case.check(writes == 0, || {
                    format!("{what}: wrote although the field has that value: {}", show_ops(&log))
                });
            } else {
                case.count("setters with something to change", 1);
                case.check(writes == 1, || {
                    format!("{what}: {writes} writes: {}", show_ops(&log))
                });
            }
            for g in getters() {
                bus.arm();
                let Some(v) = case.lib(&g.name(), || drv.act(g, &mut [])) else { return };
                case.count("getters compared", 1);
                let want = decoded(g, status, control);
                case.check(v == Ok(want), || {
                    format!("after {what}: {g:?} returned {v:?}, the registers say {want:?}")
                });
            }
            case.check(
                drv.emissivity().to_bits() == e.to_bits()
                    && drv.reflected() == Some(12.5)
                    && drv.ambient().map(same_bits) == ambient.map(same_bits),
                || format!("{what}: emissivity, reflected or ambient temperature changed"),
            );
            if case.failed() {
                return;
            }
            case.sample(|| format!("{what}: {}", show_ops(&log)));
        }
    });
}
