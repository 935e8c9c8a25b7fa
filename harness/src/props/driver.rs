//! C13 data-ready handshake, C14 bus faults, C15 history independence, C16 synchronize, C20
//! emissivity, reflected and ambient temperature.
use mlx9064x::{Error, LibraryError};

use crate::ctx::{Case, Ctx};
use crate::custom;
use crate::drv::{same_bits, Act, Drv, ErrV, How, Out, Swarm, Val};
use crate::ee::{gen_ok, to_bytes, RefCal, Style};
use crate::refcalc::{res_corr, sub, Ram, Scene};
use crate::rng::{fnv, mix, Rng};
use crate::scene::{self, setup, Frame, Setup};
use crate::wear::Wear;
use crate::sim::{
    show_ops, Bus, Cam, Fault, Kind, Model, Op, RdErr, Sim, WrErr, CONTROL, ST_NEW,
    ST_OVERWRITE, ST_START, STATUS,
};

const SENTINEL: f32 = -7777.5;

fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| same_bits(*x)).collect()
}

/// Equal up to what a different order of float operations may do.
fn close(a: f32, b: f32) -> bool {
    (a.is_nan() && b.is_nan())
        || a == b
        || (f64::from(a) - f64::from(b)).abs() <= 0.02 + 2e-4 * f64::from(a).abs()
}

fn close_opt(a: Option<f32>, b: Option<f32>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => close(a, b),
        _ => false,
    }
}

/// A driver over one camera with sensible contents.
struct Rig {
    bus: Bus,
    drv: Drv,
    model: Model,
    addr: u8,
    /// How a driver without history gets the same calibration.
    how: How,
    cal: RefCal,
    e: f32,
    t_r: Option<f32>,
}

fn settle(case: &mut Case, s: Setup, frames: Vec<Vec<u16>>, own: Option<u64>) -> Option<Rig> {
    let Setup {
        cam,
        cal,
        emissivity,
        t_r,
    } = s;
    let (model, addr, dump) = (cam.model, cam.addr, to_bytes(&cam.eeprom));
    let bus = Bus::one(cam);
    bus.cam(|c| c.frames = frames);
    bus.arm();
    let (first, how) = match own {
        Some(seed) => (How::Custom(seed), How::Custom(seed)),
        None => (How::Bus, How::Dump(dump)),
    };
    let made = case.lib("construction", || first.make(model, &bus, addr))?;
    let mut drv = match made {
        Ok(d) => d,
        Err(e) => {
            case.fail(format!("construction failed without a fault: {e:?}"));
            return None;
        }
    };
    drv.override_emissivity(emissivity);
    drv.set_reflected(t_r);
    Wear::perhaps(case, 6, 300, &bus, &mut drv, model)?;
    Some(Rig {
        bus,
        drv,
        model,
        addr,
        how,
        cal,
        e: emissivity,
        t_r,
    })
}

fn rig(case: &mut Case, kind: Frame, n_frames: usize) -> Option<Rig> {
    rig_of(case, kind, n_frames, true)
}

fn rig_of(case: &mut Case, kind: Frame, n_frames: usize, custom_too: bool) -> Option<Rig> {
    let model = Model::BOTH[(case.idx % 2) as usize];
    let mut s = setup(&mut case.rng, model, Style::Plausible, kind);
    let own = if custom_too && case.rng.chance(1, 4) {
        let seed = case.rng.u64();
        s.cal = custom::seeded_view(model, seed, 0, s.cam.chess());
        case.count("cases with a custom calibration", 1);
        Some(seed)
    } else {
        None
    };
    let mut frames = Vec::new();
    let odd = kind != Frame::Real && case.rng.chance(1, 3);
    for _ in 0..=n_frames {
        s.refill(&mut case.rng, kind);
        if odd {
            scene::odd_words(&mut case.rng, model, &mut s.cam.ram);
        }
        frames.push(s.cam.ram.clone());
    }
    s.cam.ram = frames.pop().unwrap_or_default();
    settle(case, s, frames, own)
}

impl Rig {
    fn status(&self) -> u16 {
        self.bus.with(|b| b.cams[0].status)
    }
}

fn fresh(
    bus: &Bus,
    model: Model,
    addr: u8,
    how: &How,
    e: f32,
    t_r: Option<f32>,
) -> (Bus, Result<Drv, ErrV>) {
    let bus = bus.fork();
    let d = how.make(model, &bus, addr).map(|mut d| {
        d.override_emissivity(e);
        d.set_reflected(t_r);
        d
    });
    bus.arm();
    (bus, d)
}

/// Compare an image against what a driver without history makes of the given subpage.
fn same_image(
    case: &mut Case,
    what: &str,
    r: &Rig,
    bus: &Bus,
    subpage: usize,
    got: &[f32],
    old: &[f32],
    ambient: Option<f32>,
) {
    let Some((_, d)) = case.lib("construction", || {
        fresh(bus, r.model, r.addr, &r.how, r.e, r.t_r)
    }) else {
        return;
    };
    let Ok(mut d) = d else {
        case.fail("construction from a dump failed");
        return;
    };
    let mut want = old.to_vec();
    want.resize(r.model.pixels(), SENTINEL);
    let Some(out) = case.lib("generate_image_subpage_to", || {
        d.act(Act::ImageSub(sub(subpage)), &mut want)
    }) else {
        return;
    };
    case.check(out == Ok(Val::Unit), || format!("{what}: reference image: {out:?}"));
    let chess = bus.with(|b| b.cams[0].chess());
    for px in 0..old.len() {
        let mine = px < r.model.pixels() && r.model.in_subpage(px, subpage, chess);
        let ok = if mine {
            r.cal.failed[px] || close(got[px], want[px])
        } else {
            got[px].to_bits() == old[px].to_bits()
        };
        if !case.check(ok, || {
            format!(
                "{what}: pixel {px} is {:e}, the image of subpage {subpage} (the one measured last) has {:e} and the buffer held {:e}",
                got[px], want[px], old[px]
            )
        }) {
            return;
        }
    }
    case.count("images compared", 1);
    let want = d.ambient();
    case.check(close_opt(ambient, want), || {
        format!("{what}: ambient temperature {ambient:?}, this frame has {want:?}")
    });
}

// ---------------------------------------------------------------------------------------------

pub fn c13(ctx: &mut Ctx) {
    ctx.rule = "one case = a stream of measurements finishing at random times against random polling calls; the monitor checks each call against the flag and the memory at that moment and that every announced frame is handed over exactly once; distinct = distinct (call, status register, access pattern) observed";
    ctx.required = vec![
        ("frames delivered", 2_000),
        ("polls without data", 1_000),
        ("images compared", 2_000),
        ("flag clears judged", 2_000),
        ("frames delivered while the next one finished", 1_000),
        ("polls in a row without data", 500_000),
    ];
    let n = ctx.n(700, 20_000);
    ctx.phase("stream", n, |case| {
        let Some(mut r) = rig(case, Frame::Real, 3) else { return };
        if case.rng.bool() {
            r.bus.cam(|c| c.status &= !ST_NEW);
        }
        let mut ready = r.status() & ST_NEW != 0;
        let (mut announced, mut delivered) = (u64::from(ready), 0u64);
        let mut ambient = r.drv.ambient();
        let np = r.model.pixels();
        for step in 0..14 {
            // The camera may finish measurements between the calls; a frame nobody fetched before
            // the next one is superseded.
            for _ in 0..*case.rng.pick(&[0, 0, 1, 1, 1, 2, 3]) {
                r.bus.cam(|c| c.complete());
                if !ready {
                    announced += 1;
                }
                ready = true;
            }
            let act = match case.rng.idx(8) {
                0..=3 => Act::IfReady,
                4 => Act::DataAvailable,
                5 => Act::Image,
                6 => Act::LastSubpage,
                _ => Act::ResetData,
            };
            let before = r.bus.fork();
            let st = r.status();
            case.seen(mix(
                fnv(act.name().as_bytes())
                    ^ u64::from(st) << 8
                    ^ u64::from(r.bus.with(|b| b.cams[0].chess())),
            ));
            let last = usize::from(st & 1);
            // The buffer may be of any length.
            let len = scene::odd_len(&mut case.rng, np);
            let old: Vec<f32> = (0..len).map(|i| SENTINEL - i as f32).collect();
            let mut dest = old.clone();
            r.bus.arm();
            let Some(out) = case.lib(&act.name(), || r.drv.act(act, &mut dest)) else { return };
            let log = r.bus.log();
            let now = r.status();
            let what = format!("{} step {step} {act:?} with status {st:#06x}", r.model.name());
            let (want, writes): (Out, bool) = match act {
                Act::IfReady => (Ok(Val::Bool(ready)), ready),
                Act::DataAvailable => (
                    Ok(Val::OptSub(if ready { Some(sub(last)) } else { None })),
                    false,
                ),
                Act::LastSubpage => (Ok(Val::Sub(sub(last))), false),
                Act::ResetData => (Ok(Val::Unit), true),
                _ => (Ok(Val::Unit), false),
            };
            case.check(out == want, || format!("{what}: returned {out:?}, expected {want:?}"));
            let wrote = log.iter().any(|o| o.kind == Kind::Write);
            case.check(writes || !wrote, || {
                format!("{what}: wrote to the camera: {}", show_ops(&log))
            });
            let flag = if writes { st & !ST_NEW } else { st };
            case.check(now == flag, || {
                format!("{what}: status register became {now:#06x}, expected {flag:#06x}: {}", show_ops(&log))
            });
            let images = act == Act::Image || (act == Act::IfReady && ready);
            if images {
                let a = r.drv.ambient();
                same_image(case, &what, &r, &before, last, &dest, &old, a);
                ambient = a;
            } else {
                case.check(bits(&dest) == bits(&old), || {
                    format!("{what}: the image buffer was touched")
                });
                let a = r.drv.ambient();
                case.check(
                    a.map(same_bits) == ambient.map(same_bits),
                    || format!("{what}: the ambient temperature changed from {ambient:?} to {a:?}"),
                );
            }
            if act == Act::IfReady && ready {
                delivered += 1;
                case.count("frames delivered", 1);
                // The camera may overwrite its memory as soon as the flag is cleared.
                let clear = log.iter().position(|o| {
                    o.kind == Kind::Write && o.start == STATUS && o.value & ST_NEW == 0
                });
                let last_ram = log.iter().rposition(|o| {
                    o.kind == Kind::Read && (0x0400..=r.model.ram_end()).contains(&o.start)
                });
                case.count("flag clears judged", 1);
                case.check(
                    matches!((clear, last_ram), (Some(c), Some(m)) if c > m),
                    || {
                        format!(
                            "{what}: the flag has to be cleared after the memory is read: {}",
                            show_ops(&log)
                        )
                    },
                );
            }
            if act == Act::IfReady && !ready {
                case.count("polls without data", 1);
            }
            if images && len != np {
                case.count("destinations of another length", 1);
            }
            if act == Act::ResetData && ready {
                announced -= 1;
            }
            if writes {
                ready = false;
            }
            if case.failed() {
                return;
            }
            case.sample(|| format!("{what}: {out:?}; {}", show_ops(&log)));
        }
        case.check(announced == delivered + u64::from(ready), || {
            format!("{announced} frames announced, {delivered} delivered, pending: {ready}")
        });
    });
    let n = ctx.n(1500, 40_000);
    ctx.phase("during", n, frame_during_call);
    let n = ctx.n(60, 1_000);
    ctx.phase("long wait", n, long_wait);
}

/// A camera that takes its time: however often it is asked, nothing is handed over before there is
/// a frame, and the frame is handed over then.
fn long_wait(case: &mut Case) {
    let Some(mut r) = rig(case, Frame::Real, 2) else { return };
    let m = r.model.name();
    let np = r.model.pixels();
    let old: Vec<f32> = (0..np).map(|i| SENTINEL - i as f32).collect();
    let want = bits(&old);
    for round in 0..2 {
        r.bus.cam(|c| c.status &= !ST_NEW);
        let st = r.status();
        let n = if case.idx % 32 < 2 {
            70_000u64
        } else {
            case.rng.range(100, 4000) as u64
        };
        // What else is asked while waiting: nothing, whether there is data, which subpage was last.
        let other = case.rng.idx(4);
        let mut dest = old.clone();
        let ambient = r.drv.ambient().map(same_bits);
        r.bus.arm();
        for poll in 0..n {
            r.bus.with(|b| {
                b.log.clear();
                b.budget = 4000;
            });
            let (act, expect) = match other {
                1 if poll % 2 == 1 => (Act::DataAvailable, Ok(Val::OptSub(None))),
                2 if poll % 3 == 1 => (Act::LastSubpage, Ok(Val::Sub(sub(usize::from(st & 1))))),
                3 if poll % 50 == 49 => (Act::ResetData, Ok(Val::Unit)),
                _ => (Act::IfReady, Ok(Val::Bool(false))),
            };
            let Some(out) = case.lib("a poll", || r.drv.act(act, &mut dest)) else { return };
            let wrote = r.bus.with(|b| b.log.iter().any(|o| o.kind == Kind::Write));
            let now = r.status();
            let ok = out == expect && (!wrote || act == Act::ResetData) && now == st;
            if !case.check(ok, || {
                format!(
                    "{m} round {round} poll {poll} {act:?} with status {st:#06x} (no new frame): {out:?}, status {now:#06x}: {}",
                    show_ops(&r.bus.log())
                )
            }) {
                return;
            }
        }
        case.count("polls without data", n);
        case.count("polls in a row without data", n);
        case.seen(mix(n ^ (other as u64) << 32 ^ u64::from(st) << 40));
        case.check(bits(&dest) == want && r.drv.ambient().map(same_bits) == ambient, || {
            format!("{m} round {round}: {n} polls without a new frame touched the image or the ambient temperature")
        });
        r.bus.cam(|c| c.complete());
        let st = r.status();
        let before = r.bus.fork();
        r.bus.arm();
        let Some(out) = case.lib("generate_image_if_ready", || r.drv.act(Act::IfReady, &mut dest))
        else {
            return;
        };
        let what = format!("{m} round {round} IfReady with status {st:#06x} after {n} polls without a frame");
        case.check(out == Ok(Val::Bool(true)), || format!("{what}: returned {out:?}"));
        case.count("frames delivered", 1);
        let a = r.drv.ambient();
        same_image(case, &what, &r, &before, usize::from(st & 1), &dest, &old, a);
        if case.failed() {
            return;
        }
        case.sample(|| format!("{what}: {out:?}"));
    }
}

/// The camera goes on measuring while an announced frame is collected: the frame belongs to the
/// subpage announced when the call looked, whatever is announced later.
fn frame_during_call(case: &mut Case) {
    let Some(mut r) = rig(case, Frame::Real, 0) else { return };
    // The memory stays as it is, so that the image is decided whenever it is read.
    r.bus.cam(|c| c.frames.clear());
    let np = r.model.pixels();
    for step in 0..6 {
        if case.rng.chance(5, 6) {
            r.bus.cam(|c| c.status |= ST_NEW);
        } else {
            r.bus.cam(|c| c.status &= !ST_NEW);
        }
        let st = r.status();
        let before = r.bus.fork();
        let old: Vec<f32> = (0..np).map(|i| SENTINEL - i as f32).collect();
        let mut dest = old.clone();
        r.bus.arm();
        let plan: Vec<u64> = (0..case.rng.range(1, 2)).map(|_| case.rng.below(14)).collect();
        r.bus.with(|b| b.frame_at.extend(plan.iter().map(|at| (0, *at))));
        let Some(out) = case.lib("generate_image_if_ready", || r.drv.act(Act::IfReady, &mut dest))
        else {
            return;
        };
        let log = r.bus.log();
        let what = format!(
            "{} step {step} IfReady with status {st:#06x}, measurements finishing at operations {plan:?}",
            r.model.name()
        );
        // What the camera announced when the driver looked.
        let Some(look) = log.iter().find(|o| o.kind == Kind::Read && o.start == STATUS && o.ok) else {
            case.fail(format!("{what}: the status was not read: {}", show_ops(&log)));
            return;
        };
        let (ready, announced) = (look.value & ST_NEW != 0, usize::from(look.value & 1));
        let at = log.iter().position(|o| o.kind == Kind::Frame);
        case.seen(mix(
            u64::from(st) << 16
                ^ u64::from(look.value)
                ^ (at.map_or(99, |a| a as u64) << 32)
                ^ u64::from(before.with(|b| b.cams[0].chess())) << 48,
        ));
        case.check(out == Ok(Val::Bool(ready)), || format!("{what}: returned {out:?}: {}", show_ops(&log)));
        if ready {
            case.count("frames delivered", 1);
            if at.is_some() {
                case.count("frames delivered while the next one finished", 1);
            }
            let a = r.drv.ambient();
            same_image(case, &what, &r, &before, announced, &dest, &old, a);
        } else {
            case.count("polls without data", 1);
            case.check(bits(&dest) == bits(&old), || format!("{what}: the image buffer was touched"));
            let wrote = log.iter().any(|o| o.kind == Kind::Write);
            case.check(!wrote, || format!("{what}: wrote to the camera: {}", show_ops(&log)));
        }
        if case.failed() {
            return;
        }
        case.sample(|| format!("{what}: {out:?}; {}", show_ops(&log)));
    }
}

// ---------------------------------------------------------------------------------------------

fn expect_err(op: &Op, id: u64) -> ErrV {
    match op.kind {
        Kind::Write => ErrV::Write(id),
        _ => ErrV::Read(id),
    }
}

fn cam_eq(a: &Cam, b: &Cam) -> bool {
    a.status == b.status
        && a.control == b.control
        && a.i2creg == b.i2creg
        && a.ram == b.ram
        && a.eeprom == b.eeprom
}

fn fault_act(case: &mut Case, r: &Rig, act: Act) {
    let m = r.model.name();
    let np = r.model.pixels();
    let len = if act.is_image() { scene::odd_len(&mut case.rng, np) } else { np };
    let past = Wear::pick(&mut case.rng, 8, 64);
    // The fault-free run says which operations there are to fail.
    let run = |case: &mut Case, plan: Option<(u64, Fault, u64)>, dead: bool| {
        let bus = r.bus.fork();
        bus.cam(|c| c.measure_delay = Some(2));
        let d = case.lib("construction", || {
            r.how.make(r.model, &bus, r.addr)
        })?;
        let mut d = match d {
            Ok(d) => d,
            Err(e) => {
                case.fail(format!("construction failed without a fault: {e:?}"));
                return None;
            }
        };
        d.override_emissivity(r.e);
        d.set_reflected(r.t_r);
        if let Some(w) = past {
            case.lib("an earlier call", || w.live(&bus, &mut d, r.model))?;
            case.count("drivers with a past", 1);
        }
        // An earlier image, so that there is an ambient temperature to keep.
        let mut warm = vec![0f32; np];
        let w = case.lib("warm up", || d.act(Act::RawSub(sub(0)), &mut warm))?;
        case.check(w.is_ok(), || format!("warm up: {w:?}"));
        let amb = d.ambient();
        let mut dest = vec![SENTINEL; len];
        bus.arm();
        bus.with(|b| {
            if let Some((k, f, id)) = plan {
                if dead {
                    b.dead_from = Some((k, id));
                } else {
                    b.faults.push((k, f, id));
                }
            }
        });
        let pre = bus.with(|b| b.cams[0].clone());
        let out = case.lib(&format!("{act:?}"), || d.act(act, &mut dest))?;
        Some((bus, d, amb, dest, pre, out))
    };
    let Some((bus, d0, _, dest0, _, out0)) = run(case, None, false) else { return };
    let log0 = bus.log();
    if !case.check(out0.is_ok(), || format!("{m} {act:?} failed without a fault: {out0:?}")) {
        return;
    }
    let ops = log0.iter().filter(|o| o.kind != Kind::Frame).count() as u64;
    for k in 0..ops {
        for mode in 0..3 {
            let id = 0x1000 + case.rng.below(1 << 40);
            let (fault, dead) = match mode {
                0 => (Fault::Clean, false),
                1 => (Fault::Partial, false),
                _ => (Fault::Clean, true),
            };
            let Some((bus, mut d, amb, mut dest, pre, out)) = run(case, Some((k, fault, id)), dead)
            else {
                return;
            };
            let log: Vec<Op> = bus.log().into_iter().filter(|o| o.kind != Kind::Frame).collect();
            let what = || {
                format!(
                    "{m} {act:?} with operation {k} failing ({fault:?}, dead={dead}): {}",
                    show_ops(&log)
                )
            };
            case.count("faults injected", 1);
            case.seen(mix(fnv(act.name().as_bytes()) ^ k << 8 ^ mode << 32 ^ (r.model as u64) << 40));
            let Some(failing) = log.get(k as usize).copied() else {
                case.fail(format!("{}: the operation did not happen", what()));
                return;
            };
            let want = Err(expect_err(&failing, id));
            case.check(out == want, || {
                format!("{}: returned {out:?}, the bus error was {want:?}", what())
            });
            case.check(log.len() as u64 == k + 1, || {
                format!("{}: went on after the failed operation", what())
            });
            let wrote = log[..k as usize].iter().any(|o| o.kind == Kind::Write);
            let now = bus.with(|b| b.cams[0].clone());
            if !wrote {
                case.check(cam_eq(&pre, &now), || format!("{}: the camera was changed", what()));
            }
            if failing.kind == Kind::Read {
                case.check(dest.iter().all(|v| *v == SENTINEL), || {
                    format!("{}: wrote to the image buffer", what())
                });
                case.check(d.ambient().map(same_bits) == amb.map(same_bits), || {
                    format!("{}: changed the ambient temperature", what())
                });
            } else {
                case.count("write faults", 1);
            }
            case.check(
                d.emissivity().to_bits() == r.e.to_bits() && d.reflected() == r.t_r,
                || format!("{}: changed emissivity or reflected temperature", what()),
            );
            if case.failed() {
                return;
            }
            // Trying again has to work as if nothing had happened.
            if !wrote {
                bus.arm();
                dest.fill(SENTINEL);
                let Some(again) = case.lib("retry", || d.act(act, &mut dest)) else { return };
                case.count("retries", 1);
                let same = again == out0
                    && bits(&dest) == bits(&dest0)
                    && d.ambient().map(same_bits) == d0.ambient().map(same_bits);
                case.check(same, || {
                    format!("{}: trying again gave {again:?} or a different image", what())
                });
            }
        }
    }
    case.sample(|| format!("{m} {act:?}: {ops} operations failed one by one"));
}

/// The same operation of the same call fails again and again: it is reported every time, and once
/// the bus works again, so does the call.
fn persistent_fault(case: &mut Case) {
    let Some(mut r) = rig(case, Frame::Noise, 0) else { return };
    let m = r.model.name();
    let np = r.model.pixels();
    let act = Act::every((case.idx / 2) as usize % Act::EVERY, &mut case.rng);
    if act == Act::IfReady {
        r.bus.cam(|c| c.status |= ST_NEW);
    }
    if let Some((reg, mask)) = super::bus::field(act) {
        // Make sure there is something to set.
        r.bus.cam(|c| {
            let word = if reg == CONTROL { &mut c.control } else { &mut c.status };
            if *word & mask == super::bus::field_value(act) {
                *word ^= mask & mask.wrapping_neg();
            }
        });
    }
    r.bus.cam(|c| c.measure_delay = Some(1));
    // The driver follows what was just changed behind its back.
    r.bus.arm();
    let Some(out) = case.lib("resolution", || r.drv.act(Act::Res, &mut [])) else { return };
    case.check(out.is_ok(), || format!("{m} resolution: {out:?}"));
    // What it does, and returns, without a fault: seen by a clone of the driver, on the same bus.
    let pre = r.bus.with(|b| b.cams[0].clone());
    let restore = |r: &Rig| {
        r.bus.cam(|c| *c = pre.clone());
        r.bus.arm();
    };
    let mut twin = r.drv.clone();
    let len = if act.is_image() { scene::odd_len(&mut case.rng, np) } else { np };
    let mut dest0 = vec![SENTINEL; len];
    r.bus.arm();
    let Some(out0) = case.lib("the call", || twin.act(act, &mut dest0)) else { return };
    if !case.check(out0.is_ok(), || format!("{m} {act:?} failed without a fault: {out0:?}")) {
        return;
    }
    let ops: Vec<Op> = r.bus.log().into_iter().filter(|o| o.kind != Kind::Frame).collect();
    if ops.is_empty() {
        return;
    }
    let k = case.rng.idx(ops.len());
    let n = *case.rng.pick(&[2u64, 3, 4, 5, 6, 8, 10, 11, 16, 17, 32, 33, 64, 100, 128, 255, 256, 257, 300, 600]);
    let fault = *case.rng.pick(&[Fault::Clean, Fault::Partial]);
    let dead = case.rng.bool();
    let amb = r.drv.ambient().map(same_bits);
    let mut dest = vec![SENTINEL; len];
    for time in 0..n {
        restore(&r);
        let id = 0x3000 + case.rng.below(1 << 40);
        r.bus.with(|b| {
            if dead {
                b.dead_from = Some((k as u64, id));
            } else {
                b.faults.push((k as u64, fault, id));
            }
        });
        let Some(out) = case.lib(&format!("{act:?}"), || r.drv.act(act, &mut dest)) else { return };
        let want = Err(expect_err(&ops[k], id));
        let log: Vec<Op> = r.bus.log().into_iter().filter(|o| o.kind != Kind::Frame).collect();
        let kept = ops[k].kind != Kind::Read
            || (dest.iter().all(|v| *v == SENTINEL) && r.drv.ambient().map(same_bits) == amb);
        if !case.check(out == want && log.len() == k + 1 && kept, || {
            format!(
                "{m} {act:?} with operation {k} failing ({fault:?}, dead={dead}) for the {}. time in a row: {out:?}, the bus error was {want:?}, image and ambient kept: {kept}: {}",
                time + 1,
                show_ops(&log)
            )
        }) {
            return;
        }
    }
    case.count("faults injected", n);
    case.count("faults in a row", n);
    case.seen(mix(fnv(act.name().as_bytes()) ^ (k as u64) << 8 ^ n << 32 ^ u64::from(dead) << 50));
    restore(&r);
    dest.fill(SENTINEL);
    let Some(again) = case.lib("retry", || r.drv.act(act, &mut dest)) else { return };
    case.count("retries", 1);
    let same = again == out0
        && bits(&dest) == bits(&dest0)
        && r.drv.ambient().map(same_bits) == twin.ambient().map(same_bits);
    case.check(same, || {
        format!("{m} {act:?} after operation {k} failed {n} times in a row: {again:?} or a different image, {out0:?} without the faults")
    });
    case.sample(|| format!("{m} {act:?}: operation {k} failed {n} times in a row"));
}

pub fn c14(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "every bus operation of every API call and of construction, for both cameras, is failed in turn in three ways (clean, buffer partly overwritten, bus dead from there on) from many camera states; distinct = distinct (call, operation index, way)";
    ctx.required = vec![
        ("faults injected", 3_000),
        ("write faults", 200),
        ("construction faults", 12),
        ("retries", 2_000),
        ("error values inspected", 12),
        ("faults in a row", 50_000),
    ];
    let n = ctx.n(24, 60) * Act::EVERY as u64 * 2;
    ctx.phase("calls", n, |case| {
        let i = (case.idx / 2) as usize % Act::EVERY;
        let Some(mut r) = rig(case, Frame::Noise, 2) else { return };
        let mut act = Act::every(i, &mut case.rng);
        if act == Act::IfReady {
            r.bus.cam(|c| c.status |= ST_NEW);
        }
        if act.is_setter() {
            // Make sure there is something to set.
            for _ in 0..64 {
                let (reg, mask) = super::bus::field(act).expect("a setter");
                let have = r.bus.with(|b| {
                    if reg == CONTROL {
                        b.cams[0].control
                    } else {
                        b.cams[0].status
                    }
                });
                if have & mask != super::bus::field_value(act) {
                    break;
                }
                act = Act::every(i, &mut case.rng);
            }
        }
        if r.t_r.is_none() && case.rng.bool() {
            r.t_r = Some(30.0);
        }
        fault_act(case, &r, act);
    });
    let n = ctx.n(20, 120) * Act::EVERY as u64 * 2;
    ctx.phase("persistent", n, persistent_fault);
    let n = ctx.n(360, 1_000);
    ctx.phase("construction", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let s = setup(&mut case.rng, model, Style::Plausible, Frame::Noise);
        let (addr, dump) = (s.cam.addr, to_bytes(&s.cam.eeprom));
        let base = Bus::one(s.cam);
        for from_dump in [false, true] {
            let make = |bus: &Bus| {
                if from_dump {
                    Drv::from_dump(model, bus, addr, &dump)
                } else {
                    Drv::new(model, bus, addr)
                }
            };
            let bus = base.fork();
            let Some(d) = case.lib("construction", || make(&bus)) else { return };
            case.check(d.is_ok(), || format!("construction failed: {:?}", d.as_ref().err()));
            let ops = bus.with(|b| b.count);
            for k in 0..ops {
                for mode in 0..3u64 {
                    let id = 0x2000 + case.rng.below(1 << 40);
                    let bus = base.fork();
                    bus.with(|b| match mode {
                        0 => b.faults.push((k, Fault::Clean, id)),
                        1 => b.faults.push((k, Fault::Partial, id)),
                        _ => b.dead_from = Some((k, id)),
                    });
                    let Some(d) = case.lib("construction", || make(&bus)) else { return };
                    case.count("construction faults", 1);
                    case.seen(mix(k << 8 ^ mode << 32 ^ u64::from(from_dump) << 40 ^ (model as u64) << 41));
                    let log = bus.log();
                    let what = || {
                        format!(
                            "{} construction (dump: {from_dump}) with operation {k} failing: {}",
                            model.name(),
                            show_ops(&log)
                        )
                    };
                    let Some(failing) = log.get(k as usize).copied() else {
                        case.fail(format!("{}: the operation did not happen", what()));
                        return;
                    };
                    let want = expect_err(&failing, id);
                    case.check(d.as_ref().err() == Some(&want), || {
                        format!("{}: expected {want:?}, got {:?}", what(), d.as_ref().err())
                    });
                    case.check(log.len() as u64 == k + 1, || format!("{}: went on", what()));
                    if case.failed() {
                        return;
                    }
                }
            }
        }
        // Nobody at that address.
        let wrong = loop {
            let a = scene::address(&mut case.rng);
            if a != addr {
                break a;
            }
        };
        let bus = base.fork();
        let Some(d) = case.lib("construction", || Drv::new(model, &bus, wrong)) else { return };
        case.check(
            d.as_ref().err() == Some(&ErrV::Read(crate::sim::NACK)),
            || format!("no camera at that address: {:?}", d.as_ref().err()),
        );
        case.sample(|| format!("{}: every construction operation failed", model.name()));
    });
    // What a user sees of the error.
    ctx.phase("error values", 64, |case| {
        let id = case.rng.u64();
        let word = case.rng.u16();
        let r = case.lib("Error", || {
            let errs: [Error<Bus>; 5] = [
                Error::I2cWriteReadError(RdErr(id)),
                Error::I2cWriteError(WrErr(id)),
                Error::LibraryError(LibraryError::Checksum(word)),
                LibraryError::InvalidData("bad data").into(),
                LibraryError::Other("something").into(),
            ];
            errs.map(|e| {
                let src = source(&e);
                (format!("{e}"), format!("{e:?}"), src)
            })
        });
        let Some(r) = r else { return };
        let hex = format!("{word:#06X}");
        let want = [
            (id.to_string(), format!("read fault {id}")),
            (id.to_string(), format!("write fault {id}")),
            (word.to_string(), hex),
            ("bad data".to_string(), "bad data".to_string()),
            ("something".to_string(), "something".to_string()),
        ];
        for ((shown, debug, src), (needle, source)) in r.iter().zip(&want) {
            case.count("error values inspected", 1);
            case.seen(fnv(debug.as_bytes()));
            case.check(shown.contains(needle) && debug.contains(needle), || {
                format!("Display {shown:?} / Debug {debug:?} do not show the cause {needle}")
            });
            if let Some(s) = src {
                case.check(s.contains(source), || {
                    format!("source() of {debug:?} is {s:?}, expected {source:?}")
                });
            }
        }
    });
}

#[cfg(feature = "std-backend")]
fn source(e: &Error<Bus>) -> Option<String> {
    Some(
        std::error::Error::source(e)
            .map(|s| s.to_string())
            .unwrap_or_else(|| "nothing".into()),
    )
}

#[cfg(not(feature = "std-backend"))]
fn source(_: &Error<Bus>) -> Option<String> {
    None
}

// ---------------------------------------------------------------------------------------------

/// One call on a driver with a history, and the same call on one without, from the same bus state.
#[allow(clippy::too_many_arguments)]
fn against_fresh(
    case: &mut Case,
    what: &str,
    bus: &Bus,
    drv: &mut Drv,
    model: Model,
    addr: u8,
    how: &How,
    act: Act,
    old: &[f32],
) -> Option<(Out, Vec<f32>)> {
    let (e, t_r) = (drv.emissivity(), drv.reflected());
    let (bus2, d2) = case.lib("construction", || fresh(bus, model, addr, how, e, t_r))?;
    let mut d2 = match d2 {
        Ok(d) => d,
        Err(e) => {
            case.fail(format!("construction from a dump failed: {e:?}"));
            return None;
        }
    };
    // The fresh driver gets the calibration's own emissivity as default, like the old one.
    bus.arm();
    let delay = case.rng.below(6) as u32;
    for b in [bus, &bus2] {
        b.with(|s| s.cams.iter_mut().for_each(|c| c.measure_delay = Some(delay)));
    }
    let drops = case.rng.chance(1, 4);
    for b in [bus, &bus2] {
        b.with(|s| s.cams.iter_mut().for_each(|c| c.drops_start = drops));
    }
    let mut a = old.to_vec();
    if act.is_image() {
        a.resize(scene::odd_len(&mut case.rng, old.len()), SENTINEL);
    }
    let mut b = a.clone();
    let got = case.lib(&act.name(), || drv.act(act, &mut a))?;
    let want = case.lib(&act.name(), || d2.act(act, &mut b))?;
    case.count("calls compared", 1);
    if a.len() != old.len() {
        case.count("destinations of another length", 1);
    }
    let (x, y) = (bus.log(), bus2.log());
    case.check(x == y, || {
        format!(
            "{what}: acted on the bus with {}, a driver without that history with {}",
            show_ops(&x),
            show_ops(&y)
        )
    });
    if act == Act::Ambient {
        return Some((got, a));
    }
    case.check(got == want, || {
        format!("{what}: returned {got:?}, a driver without that history returns {want:?}")
    });
    if let Some(px) = (0..a.len()).find(|i| same_bits(a[*i]) != same_bits(b[*i])) {
        case.fail(format!(
            "{what}: pixel {px} is {:e}, a driver without that history gives {:e}",
            a[px], b[px]
        ));
    }
    // What the caller goes on with is a whole image.
    for i in a.len()..old.len() {
        a.push(old[i]);
    }
    a.truncate(old.len());
    let same = bus.with(|x| {
        bus2.with(|y| x.cams.iter().zip(&y.cams).all(|(p, q)| cam_eq(p, q)))
    });
    case.check(same, || {
        format!("{what}: left the camera in another state than a driver without that history")
    });
    if act.is_image() && got.is_ok() && got != Ok(Val::Bool(false)) {
        case.count("images compared", 1);
        let (x, y) = (drv.ambient(), d2.ambient());
        case.check(x.map(same_bits) == y.map(same_bits), || {
            format!("{what}: ambient temperature {x:?}, without that history {y:?}")
        });
    }
    Some((got, a))
}

/// What a call on a driver just built left behind.
struct Trace {
    out: Out,
    image: Vec<u32>,
    ambient: Option<u32>,
    cam: Cam,
    ops: Vec<String>,
}

/// Calls on drivers which share nothing, repeated in another order: nothing in the process may
/// carry over from one to the next.
fn replayed(case: &mut Case) {
    struct Req {
        bus: Bus,
        model: Model,
        addr: u8,
        how: How,
        e: f32,
        t_r: Option<f32>,
        acts: Vec<Act>,
        lens: Vec<usize>,
        delay: u32,
        fault: Option<u64>,
    }
    let mut reqs = Vec::new();
    for i in 0..6 {
        let model = Model::BOTH[i % 2];
        let kind = *case.rng.pick(&[Frame::Real, Frame::Real, Frame::Noise, Frame::Wild]);
        let mut s = setup(&mut case.rng, model, Style::Plausible, kind);
        // Frame-wide words for which somebody may be tempted to reuse an earlier frame's.
        if scene::odd_words(&mut case.rng, model, &mut s.cam.ram) {
            case.count("frames with an odd word", 1);
        }
        let how = match case.rng.idx(4) {
            0 => How::Dump(to_bytes(&s.cam.eeprom)),
            1 => How::Custom(case.rng.u64()),
            _ => How::Bus,
        };
        let acts: Vec<Act> = (0..case.rng.range(2, 4))
            .map(|_| {
                if case.rng.chance(2, 3) {
                    Act::image(&mut case.rng)
                } else {
                    Act::any(&mut case.rng)
                }
            })
            .collect();
        let lens = acts.iter().map(|_| scene::odd_len(&mut case.rng, model.pixels())).collect();
        let (addr, e, t_r) = (s.cam.addr, s.emissivity, s.t_r);
        reqs.push(Req {
            bus: Bus::one(s.cam),
            model,
            addr,
            how,
            e,
            t_r,
            acts,
            lens,
            delay: case.rng.below(4) as u32,
            fault: if case.rng.chance(1, 5) { Some(case.rng.below(30)) } else { None },
        });
    }
    let mut order: Vec<usize> = (0..reqs.len()).chain(0..reqs.len()).chain(0..reqs.len()).collect();
    for i in (1..order.len()).rev() {
        let j = case.rng.idx(i + 1);
        order.swap(i, j);
    }
    let mut first: Vec<Option<Vec<Trace>>> = reqs.iter().map(|_| None).collect();
    for (turn, i) in order.into_iter().enumerate() {
        let r = &reqs[i];
        let Some((bus, d)) = case.lib("construction", || {
            fresh(&r.bus, r.model, r.addr, &r.how, r.e, r.t_r)
        }) else {
            return;
        };
        let mut d = match d {
            Ok(d) => d,
            Err(e) => return case.fail(format!("construction failed without a fault: {e:?}")),
        };
        let np = r.model.pixels();
        let mut traces = Vec::new();
        for (k, act) in r.acts.iter().enumerate() {
            bus.arm();
            bus.with(|b| {
                b.cams[0].measure_delay = Some(r.delay);
                if k == 0 {
                    if let Some(at) = r.fault {
                        b.faults.push((at, Fault::Clean, 7));
                    }
                }
            });
            let len = if act.is_image() { r.lens[k] } else { np };
            let mut dest: Vec<f32> = (0..len).map(|i| SENTINEL - i as f32).collect();
            let Some(out) = case.lib(&act.name(), || d.act(*act, &mut dest)) else { return };
            traces.push(Trace {
                out,
                image: bits(&dest),
                ambient: d.ambient().map(same_bits),
                cam: bus.with(|b| b.cams[0].clone()),
                ops: bus.log().iter().map(|o| o.show()).collect(),
            });
        }
        match &first[i] {
            None => {
                case.seen(fnv(format!("{:?} {:?}", r.acts, r.bus.with(|b| b.cams[0].status)).as_bytes()));
                first[i] = Some(traces);
            }
            Some(old) => {
                case.count("calls repeated", traces.len() as u64);
                for (k, (a, b)) in old.iter().zip(&traces).enumerate() {
                    let same = a.out == b.out
                        && a.image == b.image
                        && a.ambient == b.ambient
                        && a.ops == b.ops
                        && cam_eq(&a.cam, &b.cam);
                    if !case.check(same, || {
                        let px = a.image.iter().zip(&b.image).position(|(x, y)| x != y);
                        let show = |t: &Trace| {
                            format!(
                                "{:?}, ambient {:?}, {} transactions, pixel {:?}",
                                t.out,
                                t.ambient.map(f32::from_bits),
                                t.ops.len(),
                                px.map(|p| (p, f32::from_bits(t.image[p])))
                            )
                        };
                        format!(
                            "turn {turn}: {} call {k} {:?} on a new driver: {}, where the same call on another new driver gave {}",
                            r.model.name(),
                            r.acts[k],
                            show(b),
                            show(a)
                        )
                    }) {
                        return;
                    }
                }
            }
        }
    }
    case.sample(|| "6 requests, each made three times in a random order".to_string());
}

/// More calls of one kind in a row than 16 bits can count, then every kind of call is compared.
fn marathon(case: &mut Case) {
    let Some(mut r) = rig(case, Frame::Real, 2) else { return };
    let np = r.model.pixels();
    let i = (case.idx / 2) as usize;
    let b = case.rng.bool();
    let one = match i % 16 {
        0 => Act::ImageSub(sub(usize::from(b))),
        1 => Act::RawSub(sub(usize::from(b))),
        2 => Act::Image,
        3 | 4 => Act::IfReady,
        5 => Act::DataAvailable,
        6 => Act::ResetData,
        7 => Act::Sync,
        8 => Act::setter(&mut case.rng),
        9 => Act::SetPattern(crate::refcalc::pattern(b)),
        10 => Act::SetOverwrite(b),
        11 => Act::OverrideEmissivity(0.9),
        12 => Act::SetReflected(Some(20.0)),
        _ => Act::getter(&mut case.rng),
    };
    // 3: with a frame each time, 4: never one; from 16 on with every call failing.
    let fail = i % 16 != 4 && case.rng.chance(1, 4);
    let start = r.bus.with(|s| s.clone());
    let (e, t_r) = (r.drv.emissivity(), r.drv.reflected());
    let n = 65_600;
    let mut dest = vec![0f32; np];
    let ran = case.lib(&one.name(), || {
        for k in 0..n {
            r.bus.arm();
            r.bus.with(|s| {
                s.logging = false;
                let c = &mut s.cams[0];
                c.measure_delay = Some(0);
                match i % 16 {
                    3 => c.status |= ST_NEW,
                    4 => c.status &= !ST_NEW,
                    8..=10 => {
                        // something to change each time
                        c.control = (k as u16).wrapping_mul(0x9E37);
                        c.status ^= ST_OVERWRITE;
                    }
                    _ => {}
                }
                if fail {
                    s.faults.push((0, Fault::Clean, 5));
                }
            });
            let _ = r.drv.act(one, &mut dest);
        }
    });
    if ran.is_none() {
        return;
    }
    r.bus.with(|s| {
        *s = start;
        s.arm();
    });
    case.count("calls of one kind in a row", n);
    case.seen(fnv(format!("{one:?} {fail} {:?}", r.model).as_bytes()));
    r.drv.override_emissivity(e);
    r.drv.set_reflected(t_r);
    if case.lib("resolution", || r.drv.act(Act::Res, &mut [])).is_none() {
        return;
    }
    let mut dest: Vec<f32> = (0..np).map(|i| SENTINEL - i as f32).collect();
    for k in 0..Act::EVERY {
        let act = Act::every(k, &mut case.rng);
        let what = format!("{} after {n} times {one:?} (failing: {fail}) {act:?}", r.model.name());
        let (bus, how) = (r.bus.clone(), r.how.clone());
        let Some((_, a)) =
            against_fresh(case, &what, &bus, &mut r.drv, r.model, r.addr, &how, act, &dest)
        else {
            return;
        };
        dest = a;
        if case.failed() {
            return;
        }
    }
    case.sample(|| format!("{} {n} times {one:?}, then every call", r.model.name()));
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "one case = a history of API calls, frames and bus faults; each call is repeated from the same bus state by a driver built afresh, whose answer, image bits and effect on the camera have to be identical; phases: one driver, clones of it, two cameras sharing the bus, requests repeated on new drivers in another order, 65 600 calls of one kind in a row; distinct = distinct (call, kind of the last fault, registers)";
    ctx.required = vec![
        ("calls compared", 10_000),
        ("images compared", 3_000),
        ("failed calls in histories", 1_000),
        ("failed setters in histories", 300),
        ("clone comparisons", 1_000),
        ("shared bus comparisons", 1_000),
        ("calls repeated", 2_000),
        ("drivers with a past", 100),
        ("calls of one kind in a row", 2_000_000),
    ];
    ctx.assumptions = vec![
        "settings are only changed through the driver under test (the driver documents no defence against another bus master)",
        "a register write which reports an error was not applied by the camera",
    ];
    let n = ctx.n(900, 25_000);
    ctx.phase("history", n, |case| {
        let kind = *case.rng.pick(&[Frame::Real, Frame::Noise, Frame::Wild]);
        let Some(mut r) = rig(case, kind, 3) else { return };
        let np = r.model.pixels();
        let mut last_fault = 0u64;
        let mut dest: Vec<f32> = (0..np).map(|i| SENTINEL - i as f32).collect();
        let swarm = Swarm::new(&mut case.rng);
        for step in 0..16 {
            if case.rng.chance(1, 3) {
                r.bus.cam(|c| c.complete());
            }
            let act = swarm.pick(&mut case.rng, |rng| match rng.idx(8) {
                0..=2 => Act::setter(rng),
                3 => Act::Sync,
                4 => Act::image(rng),
                _ => Act::any(rng),
            });
            if case.rng.chance(1, 3) {
                // History: a call under a fault.
                r.bus.arm();
                let at = case.rng.below(if act.is_image() { 24 } else { 3 });
                let f = if case.rng.bool() { Fault::Clean } else { Fault::Partial };
                r.bus.with(|b| {
                    b.cams[0].measure_delay = Some(1);
                    if case.rng.chance(1, 4) {
                        b.dead_from = Some((at, 3));
                    } else {
                        b.faults.push((at, f, 3));
                    }
                });
                let mut junk = vec![0f32; np];
                let Some(out) = case.lib(&act.name(), || r.drv.act(act, &mut junk)) else { return };
                r.bus.arm();
                if out.is_err() {
                    case.count("failed calls in histories", 1);
                    if act.is_setter() {
                        case.count("failed setters in histories", 1);
                    }
                    last_fault = fnv(act.name().as_bytes()) ^ at;
                }
                continue;
            }
            let c = r.bus.with(|b| (b.cams[0].status, b.cams[0].control));
            case.seen(mix(
                fnv(act.name().as_bytes())
                    ^ mix(last_fault)
                    ^ u64::from(c.0 & 0x39) << 20
                    ^ u64::from(c.1) << 40,
            ));
            let what = format!("{} step {step} {act:?}", r.model.name());
            let (bus, how) = (r.bus.clone(), r.how.clone());
            let Some((_, a)) =
                against_fresh(case, &what, &bus, &mut r.drv, r.model, r.addr, &how, act, &dest)
            else {
                return;
            };
            dest = a;
            if case.failed() {
                return;
            }
        }
        case.sample(|| format!("{} 16 steps", r.model.name()));
    });
    let n = ctx.n(300, 8_000);
    ctx.phase("clones", n, |case| {
        let kind = *case.rng.pick(&[Frame::Real, Frame::Noise]);
        let Some(mut r) = rig(case, kind, 3) else { return };
        let np = r.model.pixels();
        for _ in 0..case.rng.idx(6) {
            let a = Act::any(&mut case.rng);
            let mut junk = vec![0f32; np];
            if case.lib(&a.name(), || r.drv.act(a, &mut junk)).is_none() {
                return;
            }
            r.bus.arm();
        }
        // Both halves go through the same calls from the same camera state.
        let mut twin = r.drv.clone();
        let mut acts: Vec<Act> = (0..6).map(|_| Act::any(&mut case.rng)).collect();
        acts.push(Act::Ambient);
        acts.push(Act::Emissivity);
        acts.push(Act::Reflected);
        let start = r.bus.with(|s| s.clone());
        let mut outs = Vec::new();
        for which in 0..2 {
            r.bus.with(|s| {
                *s = start.clone();
                s.arm();
            });
            let mut v = Vec::new();
            for a in &acts {
                let mut dest = vec![SENTINEL; np];
                let d = if which == 0 { &mut r.drv } else { &mut twin };
                let Some(o) = case.lib(&a.name(), || d.act(*a, &mut dest)) else { return };
                let log = r.bus.log();
                r.bus.arm();
                v.push((o, bits(&dest), r.bus.with(|s| (s.cams[0].status, s.cams[0].control)), log));
            }
            outs.push(v);
        }
        for (i, (x, y)) in outs[0].iter().zip(&outs[1]).enumerate() {
            case.count("clone comparisons", 1);
            case.seen(fnv(format!("{:?}{:?}", acts[i].name(), x.2).as_bytes()));
            case.check(x == y, || {
                format!(
                    "{}: a clone answers {:?} with {:?} instead of {:?} (or a different image)",
                    r.model.name(),
                    acts[i],
                    y.0,
                    x.0
                )
            });
        }
        case.sample(|| format!("{} {acts:?} on a driver and its clone", r.model.name()));
    });
    let n = ctx.n(300, 8_000);
    ctx.phase("shared bus", n, |case| {
        let models = [*case.rng.pick(&Model::BOTH), *case.rng.pick(&Model::BOTH)];
        let mut cams: Vec<Cam> = Vec::new();
        for m in models {
            let mut s = setup(&mut case.rng, m, Style::Plausible, Frame::Real);
            while cams.iter().any(|c| c.addr == s.cam.addr) {
                s.cam.addr = scene::address(&mut case.rng);
            }
            cams.push(s.cam);
        }
        let shared = Bus::new(Sim::new(cams.clone()));
        let solo: Vec<Bus> = cams.iter().map(|c| Bus::one(c.clone())).collect();
        let mut ds = Vec::new();
        for (i, m) in models.iter().enumerate() {
            let a = cams[i].addr;
            let pair = case.lib("construction", || {
                (Drv::new(*m, &shared, a), Drv::new(*m, &solo[i], a))
            });
            match pair {
                Some((Ok(x), Ok(y))) => ds.push((x, y)),
                _ => {
                    case.fail("construction failed");
                    return;
                }
            }
        }
        let swarm = Swarm::new(&mut case.rng);
        for step in 0..14 {
            let i = case.rng.idx(2);
            if case.rng.chance(1, 3) {
                shared.with(|s| s.cams[i].complete());
                solo[i].cam(|c| c.complete());
            }
            let act = swarm.pick(&mut case.rng, Act::any);
            let np = models[i].pixels();
            shared.arm();
            solo[i].arm();
            let delay = case.rng.below(5) as u32;
            shared.with(|s| s.cams[i].measure_delay = Some(delay));
            solo[i].cam(|c| c.measure_delay = Some(delay));
            let (mut a, mut b) = (vec![SENTINEL; np], vec![SENTINEL; np]);
            let (x, y) = &mut ds[i];
            let Some((p, q)) = case.lib(&act.name(), || (x.act(act, &mut a), y.act(act, &mut b)))
            else {
                return;
            };
            let logs = (shared.log(), solo[i].log());
            case.count("shared bus comparisons", 1);
            case.seen(fnv(format!("{} {i} {models:?} {p:?}", act.name()).as_bytes()));
            let same = p == q
                && bits(&a) == bits(&b)
                && shared.with(|s| solo[i].with(|o| cam_eq(&s.cams[i], &o.cams[0])));
            if !case.check(same && logs.0 == logs.1, || {
                format!("step {step}: {} {act:?} on a shared bus differs from a bus of its own: {p:?} / {q:?}", models[i].name())
            }) {
                return;
            }
        }
        case.sample(|| format!("{models:?} sharing a bus, 14 calls"));
    });
    let n = ctx.n(120, 3_000);
    ctx.phase("replayed", n, replayed);
    let n = ctx.n(12, 100);
    ctx.phase("marathon", n, marathon);
}

// ---------------------------------------------------------------------------------------------

pub fn c16(ctx: &mut Ctx) {
    ctx.rule = "one case = synchronize() against a camera which finishes the commanded measurement after a chosen number of polls, from arbitrary register contents, with stale frames, frames finishing just before the command, and faults at chosen operations; distinct = distinct (status, delay, stale frame position, fault)";
    ctx.required = vec![
        ("synchronised", 2_000),
        ("stale data ignored", 500),
        ("frames just before the command", 300),
        ("faults surfaced", 500),
        ("polls waited", 3_000_000),
    ];
    ctx.assumptions = vec!["'only returning when complete' is observed on a logical clock: bus operations, not time"];
    let n = ctx.n(6_000, 200_000);
    ctx.phase("synchronize", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let (ee, _) = if case.idx % 64 < 2 {
            gen_ok(&mut case.rng, model, Style::Plausible)
        } else {
            // The EEPROM plays no part; a cheap one saves time.
            let mut r = Rng::new(7 + (case.idx % 2));
            gen_ok(&mut r, model, Style::Plausible)
        };
        let addr = scene::address(&mut case.rng);
        let ram: Vec<u16> = (0..model.ram_len()).map(|_| case.rng.u16()).collect();
        let mut cam = Cam::new(model, addr, ee.clone(), ram);
        cam.status = case.rng.u16();
        cam.control = case.rng.u16();
        cam.i2creg = case.rng.u16();
        let st = cam.status;
        let most = if case.rng.chance(1, 10) { 900 } else { 40 };
        let delay = case.rng.below(most) as u32;
        cam.measure_delay = Some(delay);
        cam.drops_start = case.rng.chance(1, 3);
        let before = cam.clone();
        let bus = Bus::one(cam);
        let dump = to_bytes(&ee);
        let Some(Ok(mut drv)) =
            case.lib("construction", || Drv::from_dump(model, &bus, addr, &dump))
        else {
            case.fail("construction failed");
            return;
        };
        if Wear::perhaps(case, 40, 300, &bus, &mut drv, model).is_none() {
            return;
        }
        let ambient = drv.ambient();
        bus.arm();
        let early = case.rng.chance(1, 4);
        let fault = case.rng.chance(1, 5);
        let at = case.rng.below(2 + u64::from(delay.min(20)) + 1);
        bus.with(|b| {
            if early {
                b.frame_at.push((0, case.rng.below(2)));
            }
            if fault {
                b.faults.push((at, if case.rng.bool() { Fault::Clean } else { Fault::Partial }, 77));
            }
        });
        let out = case.lib("synchronize", || drv.act(Act::Sync, &mut []));
        let Some(out) = out else { return };
        let log = bus.log();
        let what = || {
            format!(
                "{} synchronize with status {st:#06x}, measurement done after {delay} polls: {}",
                model.name(),
                show_ops(&log)
            )
        };
        case.seen(mix(
            u64::from(st) ^ u64::from(delay) << 16 ^ u64::from(early) << 40 ^ u64::from(fault) << 41 ^ at << 42,
        ));
        let ops: Vec<&Op> = log.iter().filter(|o| o.kind != Kind::Frame).collect();
        // Only the status register is involved.
        for o in &ops {
            case.check(o.start == STATUS && o.legal && o.i2c == addr, || {
                format!("{}: {} has no place in it", what(), o.show())
            });
        }
        let starts: Vec<usize> = log
            .iter()
            .enumerate()
            .filter(|(_, o)| o.kind == Kind::Write && o.ok)
            .map(|(i, _)| i)
            .collect();
        for i in &starts {
            let o = log[*i];
            let reserved = !(0x0001 | ST_NEW | ST_OVERWRITE | ST_START);
            case.check(
                o.value & ST_NEW == 0
                    && o.value & ST_OVERWRITE != 0
                    && o.value & ST_START != 0
                    && o.value & reserved == o.before & reserved,
                || {
                    format!(
                        "{}: wrote {:#06x} over {:#06x}; has to clear the flag, allow overwriting, start a measurement and keep the rest",
                        what(),
                        o.value,
                        o.before
                    )
                },
            );
        }
        let fired = ops.iter().position(|o| !o.ok);
        if let Some(k) = fired {
            case.count("faults surfaced", 1);
            let want = Err(expect_err(ops[k], 77));
            case.check(out == want, || format!("{}: returned {out:?} instead of {want:?}", what()));
            case.check(k + 1 == ops.len(), || format!("{}: went on after a fault", what()));
        } else {
            case.check(out == Ok(Val::Unit), || format!("{}: returned {out:?}", what()));
            if !case.check(starts.len() == 1, || {
                format!("{}: {} start commands", what(), starts.len())
            }) {
                return;
            }
            let start = starts[0];
            let done = log
                .iter()
                .enumerate()
                .position(|(i, o)| i > start && o.kind == Kind::Frame);
            let Some(done) = done else {
                case.fail(format!("{}: returned before the measurement was complete", what()));
                return;
            };
            case.count("synchronised", 1);
            if st & ST_NEW != 0 {
                case.count("stale data ignored", 1);
            }
            if early {
                case.count("frames just before the command", 1);
            }
            let after = log.len() - 1 - done;
            case.check((1..=4).contains(&after), || {
                format!("{}: {after} operations after the measurement was complete", what())
            });
            let now = bus.with(|b| b.cams[0].status);
            case.check(now & ST_NEW != 0, || {
                format!("{}: the new measurement is no longer announced", what())
            });
        }
        let now = bus.with(|b| b.cams[0].clone());
        case.check(
            now.control == before.control && now.i2creg == before.i2creg && now.ram == before.ram,
            || format!("{}: something else was changed", what()),
        );
        case.check(drv.ambient().map(same_bits) == ambient.map(same_bits) && drv.reflected().is_none(), || {
            format!("{}: ambient or reflected temperature changed", what())
        });
        case.sample(&what);
    });
    // Half a frame per second on a fast bus: a great many polls.
    let n = ctx.n(16, 48);
    let far = ctx.n(1_000_000, 60_000_000);
    ctx.phase("patience", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let (ee, _) = gen_ok(&mut case.rng, model, Style::Plausible);
        let addr = scene::address(&mut case.rng);
        let mut cam = Cam::new(model, addr, ee.clone(), vec![0; model.ram_len()]);
        cam.status = case.rng.u16();
        cam.control = case.rng.u16();
        let delay = match case.idx / 2 {
            0 => far,
            1 => 65_530 + case.rng.below(12),
            2 => case.rng.below(far),
            3 => 900 + case.rng.below(9_000),
            _ => 9_000 + case.rng.below(200_000),
        } as u32;
        cam.measure_delay = Some(delay);
        let bus = Bus::one(cam);
        let Some(Ok(mut drv)) =
            case.lib("construction", || Drv::from_dump(model, &bus, addr, &to_bytes(&ee)))
        else {
            case.fail("construction failed");
            return;
        };
        bus.arm();
        bus.with(|b| {
            b.logging = false;
            b.budget = u64::from(delay) + 100;
        });
        let Some(out) = case.lib("synchronize", || drv.act(Act::Sync, &mut [])) else { return };
        let (done, polls, st) =
            bus.with(|b| (b.cams[0].completed, b.count, b.cams[0].status));
        case.seen(u64::from(delay));
        case.count("polls waited", polls);
        case.check(out == Ok(Val::Unit) && done == 1 && st & ST_NEW != 0, || {
            format!(
                "{} synchronize with a measurement taking {delay} polls returned {out:?} after {polls} operations with {done} measurements complete, status {st:#06x}",
                model.name()
            )
        });
        case.sample(|| format!("{} waited for {delay} polls", model.name()));
    });
    // What `deep` has seen before this process was started (see check.sh).
    ctx.phase("deep", 1, |case| {
        let polls = std::env::var("MLXMON_DEEP").ok().and_then(|v| v.trim().parse().ok());
        case.count("polls waited without optimisation", polls.unwrap_or(0));
        case.seen(polls.unwrap_or(0));
    });
    // A camera that goes on measuring: synchronise, fetch, synchronise again.
    let n = ctx.n(300, 6_000);
    ctx.phase("session", n, |case| {
        let Some(mut r) = rig(case, Frame::Real, 4) else { return };
        let np = r.model.pixels();
        for round in 0..5 {
            r.bus.arm();
            let delay = case.rng.below(12) as u32;
            let done = r.bus.with(|b| {
                b.cams[0].measure_delay = Some(delay);
                b.cams[0].completed
            });
            let Some(out) = case.lib("synchronize", || r.drv.act(Act::Sync, &mut [])) else {
                return;
            };
            let now = r.bus.with(|b| b.cams[0].completed);
            let what = format!("{} round {round} (delay {delay})", r.model.name());
            case.check(out == Ok(Val::Unit) && now == done + 1, || {
                format!("{what}: {out:?} after {} measurements", now - done)
            });
            if case.rng.chance(1, 4) {
                continue;
            }
            let before = r.bus.fork();
            let last = usize::from(r.status() & 1);
            let old: Vec<f32> = (0..np).map(|i| SENTINEL - i as f32).collect();
            let mut dest = old.clone();
            let Some(out) = case.lib("image", || r.drv.act(Act::IfReady, &mut dest)) else { return };
            case.check(out == Ok(Val::Bool(true)), || {
                format!("{what}: no frame after synchronize: {out:?}")
            });
            let a = r.drv.ambient();
            same_image(case, &what, &r, &before, last, &dest, &old, a);
            if case.failed() {
                return;
            }
        }
        case.sample(|| format!("{} five rounds of synchronize and fetch", r.model.name()));
    });
}

// ---------------------------------------------------------------------------------------------

const SPECIAL: [f32; 10] = [
    f32::NAN,
    f32::INFINITY,
    f32::NEG_INFINITY,
    0.0,
    -0.0,
    f32::MAX,
    f32::MIN,
    f32::MIN_POSITIVE,
    -1.0,
    -273.15,
];

pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "one case = a history of emissivity, reflected temperature and imaging calls (some failing) checked against a model of what each getter has to say, and images compared across settings that must or must not matter; distinct = distinct (call, model state)";
    ctx.required = vec![
        ("getter comparisons", 20_000),
        ("ambient after image", 2_000),
        ("default emissivity from the camera", 200),
        ("default emissivity one", 200),
        ("reflected without effect at emissivity one", 200),
        ("reflected unset equals ambient minus self heating", 200),
        ("reflected matters below one", 200),
        ("images with a setting against the formula", 100_000),
    ];
    let n = ctx.n(1_000, 25_000);
    ctx.phase("settings", n, |case| {
        let model = Model::BOTH[(case.idx % 2) as usize];
        let style = if case.rng.chance(1, 3) { Style::Wild } else { Style::Plausible };
        let s = setup(&mut case.rng, model, style, Frame::Real);
        let default = s.cal.emissivity.map_or(1.0, |v| v as f32);
        let stored = s.cal.emissivity.is_some();
        let (addr, dump) = (s.cam.addr, to_bytes(&s.cam.eeprom));
        let bus = Bus::one(s.cam);
        let how = How::Dump(dump.clone());
        let by_dump = case.rng.bool();
        let made = case.lib("construction", || {
            if by_dump {
                Drv::from_dump(model, &bus, addr, &dump)
            } else {
                Drv::new(model, &bus, addr)
            }
        });
        let Some(Ok(mut d)) = made else {
            case.fail("construction failed");
            return;
        };
        case.count(
            if stored { "default emissivity from the camera" } else { "default emissivity one" },
            1,
        );
        if Wear::perhaps(case, 6, 300, &bus, &mut d, model).is_none() {
            return;
        }
        let mut e = default;
        let mut t_r: Option<f32> = None;
        let mut amb: Option<f32> = d.ambient();
        let np = model.pixels();
        for step in 0..24 {
            let act = match case.rng.idx(10) {
                0 if case.rng.bool() => Act::OverrideEmissivity(scene::odd_emissivity(&mut case.rng)),
                0 => Act::OverrideEmissivity(scene::pick_emissivity(&mut case.rng)),
                1 if case.rng.bool() => Act::OverrideEmissivity(*case.rng.pick(&SPECIAL)),
                1 => Act::OverrideEmissivity(f32::from_bits(case.rng.u64() as u32)),
                2 => Act::DefaultEmissivity,
                3 if case.rng.bool() => Act::SetReflected(Some(scene::odd_reflected(&mut case.rng))),
                3 => Act::SetReflected(Some(case.rng.frange(-50.0, 150.0) as f32)),
                4 if case.rng.bool() => Act::SetReflected(Some(*case.rng.pick(&SPECIAL))),
                4 => Act::SetReflected(Some(f32::from_bits(case.rng.u64() as u32))),
                5 => Act::SetReflected(None),
                6 => Act::setter(&mut case.rng),
                _ => Act::image(&mut case.rng),
            };
            bus.arm();
            let faulty = case.rng.chance(1, 5);
            if faulty {
                let at = case.rng.below(12);
                bus.with(|b| b.faults.push((at, Fault::Partial, 9)));
            }
            if case.rng.chance(1, 3) {
                bus.cam(|c| c.complete());
                // another ambient temperature
                let a = model.aux()[0];
                let v = if case.rng.chance(1, 4) {
                    case.rng.i16()
                } else {
                    case.rng.range(15_000, 22_000) as i16
                };
                bus.cam(|c| c.set_ram(a, v));
            }
            let probe = bus.fork();
            let mut dest = vec![SENTINEL; scene::odd_len(&mut case.rng, np)];
            let Some(out) = case.lib(&act.name(), || d.act(act, &mut dest)) else { return };
            let what = format!("{} step {step} {act:?} -> {out:?}", model.name());
            match act {
                Act::OverrideEmissivity(v) => e = v,
                Act::DefaultEmissivity => e = default,
                Act::SetReflected(v) => t_r = v,
                _ => {}
            }
            // The ambient temperature of this frame, as a driver without history computes it.
            if act.is_image() && out.is_ok() && out != Ok(Val::Bool(false)) {
                let Some(want) = case.lib("reference image", || {
                    let (_, d) = fresh(&probe, model, addr, &how, 0.9, None);
                    d.ok().and_then(|mut d| {
                        let mut junk = vec![0f32; np];
                        // the ambient temperature does not depend on the subpage
                        d.act(Act::RawSub(sub(0)), &mut junk).ok()?;
                        d.ambient()
                    })
                }) else {
                    return;
                };
                let a = d.ambient();
                case.count("ambient after image", 1);
                case.check(a.is_some() && close_opt(a, want), || {
                    format!("{what}: ambient temperature {a:?}, the frame has {want:?}")
                });
                amb = a;
            } else if act.is_image() && out.is_err() && d.ambient().map(same_bits) != amb.map(same_bits) {
                // Only the final clearing of the flag may fail with the image already there.
                let wrote = matches!(out, Err(ErrV::Write(_)));
                case.check(wrote, || format!("{what}: a failed image changed the ambient temperature"));
                amb = d.ambient();
            }
            let got = (d.emissivity(), d.reflected(), d.ambient());
            case.count("getter comparisons", 3);
            case.seen(mix(
                fnv(act.name().as_bytes())
                    ^ u64::from(same_bits(e)) << 16
                    ^ u64::from(t_r.map_or(0, same_bits)),
            ));
            case.check(
                same_bits(got.0) == same_bits(e)
                    && got.1.map(same_bits) == t_r.map(same_bits)
                    && got.2.map(same_bits) == amb.map(same_bits),
                || {
                    format!(
                        "{what}: emissivity, reflected, ambient are {got:?}, expected ({e:?}, {t_r:?}, {amb:?})"
                    )
                },
            );
            if case.failed() {
                return;
            }
        }
        case.sample(|| format!("{} default emissivity {default}", model.name()));
    });
    let n = ctx.n(500, 10_000);
    ctx.phase("effect", n, |case| {
        let Some(mut r) = rig_of(case, Frame::Real, 1, false) else { return };
        let np = r.model.pixels();
        let sp = sub(case.rng.idx(2));
        let image = |case: &mut Case, r: &mut Rig, e: f32, t: Option<f32>| {
            r.bus.arm();
            r.drv.override_emissivity(e);
            r.drv.set_reflected(t);
            let mut dest = vec![SENTINEL; np];
            let o = case.lib("image", || r.drv.act(Act::ImageSub(sp), &mut dest))?;
            case.check(o.is_ok(), || format!("image failed: {o:?}"));
            Some(dest)
        };
        let differ = |a: &[f32], b: &[f32]| a.iter().zip(b).position(|(x, y)| !close(*x, *y));
        let (t1, t2) = (case.rng.frange(-30.0, 40.0) as f32, case.rng.frange(60.0, 120.0) as f32);
        case.seen(u64::from(t1.to_bits()) << 32 | u64::from(t2.to_bits()));
        // With emissivity one nothing is reflected.
        let (Some(a), Some(b), Some(c)) = (
            image(case, &mut r, 1.0, Some(t1)),
            image(case, &mut r, 1.0, Some(t2)),
            image(case, &mut r, 1.0, None),
        ) else {
            return;
        };
        case.count("reflected without effect at emissivity one", 1);
        for other in [&b, &c] {
            let p = differ(&a, other);
            case.check(p.is_none(), || {
                format!(
                    "{}: with emissivity 1 the reflected temperature changes pixel {p:?}",
                    r.model.name()
                )
            });
        }
        // Any emissivity and any reflected temperature: the documented formula.
        for _ in 0..2 {
            let e = if case.rng.bool() {
                scene::odd_emissivity(&mut case.rng)
            } else {
                scene::pick_emissivity(&mut case.rng)
            };
            let t = if case.rng.bool() {
                Some(scene::odd_reflected(&mut case.rng))
            } else {
                Some(case.rng.frange(-60.0, 200.0) as f32)
            };
            let Some(a) = image(case, &mut r, e, t) else { return };
            let cam = r.bus.with(|b| b.cams[0].clone());
            let n = if sp == sub(0) { 0 } else { 1 };
            let rc = res_corr(r.cal.resolution, cam.resolution());
            let sc = Scene::new(&r.cal, Ram::of(&cam, n), rc, n, cam.chess(), e, t);
            for px in 0..np {
                if !r.model.in_subpage(px, n, cam.chess()) || r.cal.failed[px] {
                    continue;
                }
                let iv = sc.temp(px, super::calc::raw_of(&cam, px, n));
                match iv.admits(a[px]) {
                    None => case.count("values without verdict", 1),
                    Some(ok) => {
                        case.count("images with a setting against the formula", 1);
                        if !case.check(ok, || {
                            format!(
                                "{} pixel {px}: emissivity {e:e}, reflected {t:?}: {:e}, documented formula {iv:?}",
                                r.model.name(),
                                a[px]
                            )
                        }) {
                            return;
                        }
                    }
                }
            }
        }
        // Unset means ambient minus self heating.
        let e = case.rng.frange(0.3, 0.97) as f32;
        let Some(a) = image(case, &mut r, e, None) else { return };
        let Some(ta) = r.drv.ambient() else {
            case.fail("no ambient temperature after an image");
            return;
        };
        let t = ta - r.model.self_heating() as f32;
        let (Some(b), Some(c)) = (image(case, &mut r, e, Some(t)), image(case, &mut r, e, Some(t + 40.0)))
        else {
            return;
        };
        let p = (0..np).find(|i| !r.cal.failed[*i] && !close(a[*i], b[*i]));
        case.count("reflected unset equals ambient minus self heating", 1);
        case.check(p.is_none(), || {
            let p = p.unwrap_or(0);
            format!(
                "{}: pixel {p}: unset gives {}, {t} (ambient {ta} minus self heating) gives {}",
                r.model.name(),
                a[p],
                b[p]
            )
        });
        // A hotter environment reflected means the object itself is colder.
        let chess = r.bus.with(|s| s.cams[0].chess());
        let s = if sp == sub(0) { 0 } else { 1 };
        // For pixels whose own sensitivity term is near its singularity the formula is not monotone,
        // so it is the image as a whole that has to get colder.
        let (mut warmer, mut colder, mut valid) = (0, 0, 0);
        for px in 0..np {
            if !r.model.in_subpage(px, s, chess) || r.cal.failed[px] {
                continue;
            }
            let (x, y) = (b[px], c[px]);
            valid += usize::from(x.is_finite());
            warmer += usize::from(y > x + 0.05);
            colder += usize::from(y < x || (x.is_finite() && y.is_nan()));
        }
        // A scene too cold to be physical has no temperatures to compare.
        if valid == 0 {
            case.count("reflected below one not judged: no pixel has a temperature", 1);
            return;
        }
        case.count("reflected matters below one", 1);
        case.check(colder > warmer, || {
            format!(
                "{}: emissivity {e}: raising the reflected temperature by 40 made {warmer} of {valid} pixels warmer, {colder} colder",
                r.model.name()
            )
        });
        case.sample(|| format!("{} emissivity {e}, reflected {t1}/{t2}", r.model.name()));
    });
}


// ---------------------------------------------------------------------------------------------

pub fn c24(ctx: &mut Ctx) {
    ctx.rule = "one case = a driver with a history whose camera's control register then changes without it (overwritten from outside, set by a clone of the driver, or by a write which took effect and was reported as failed); after one successful control getter or setter each further call is compared bit for bit with a driver built afresh on a fork of the bus; distinct = distinct (kind of change, register before and after, call)";
    ctx.required = vec![
        ("changes from outside", 300),
        ("changes by a clone", 300),
        ("failed writes which took effect", 300),
        ("changes of pattern or resolution", 300),
        ("getters that resynchronized", 300),
        ("setters that resynchronized", 300),
        ("images compared", 2_000),
    ];
    let n = ctx.n(700, 15_000);
    ctx.phase("behind its back", n, |case| {
        let kind = *case.rng.pick(&[Frame::Real, Frame::Noise]);
        let Some(mut r) = rig(case, kind, 3) else { return };
        let np = r.model.pixels();
        let mut dest: Vec<f32> = (0..np).map(|i| SENTINEL - i as f32).collect();
        let mut twin = r.drv.clone();
        let swarm = Swarm::new(&mut case.rng);
        for round in 0..4 {
            for _ in 0..case.rng.idx(4) {
                let a = swarm.pick(&mut case.rng, Act::any);
                r.bus.cam(|c| c.measure_delay = Some(2));
                let mut junk = vec![0f32; np];
                if case.lib(&a.name(), || r.drv.act(a, &mut junk)).is_none() {
                    return;
                }
                r.bus.arm();
            }
            let before = r.bus.with(|b| b.cams[0].control);
            let how = case.rng.idx(3);
            match how {
                0 => {
                    let to = match case.rng.idx(4) {
                        // power-on reset
                        0 => Cam::new(r.model, r.addr, vec![], vec![]).control,
                        1 => before ^ 0x1000,
                        2 => before ^ 0x0400 << case.rng.idx(2),
                        _ => scene::control(&mut case.rng),
                    };
                    r.bus.cam(|c| c.control = to);
                    case.count("changes from outside", 1);
                }
                1 => {
                    for _ in 0..case.rng.range(1, 3) {
                        let a = Act::control(&mut case.rng);
                        if case.lib(&a.name(), || twin.act(a, &mut [])).is_none() {
                            return;
                        }
                    }
                    case.count("changes by a clone", 1);
                }
                _ => {
                    let a = loop {
                        let a = Act::setter(&mut case.rng);
                        if a.is_control() {
                            break a;
                        }
                    };
                    r.bus.arm();
                    r.bus.with(|b| b.faults.push((1, Fault::Applied, 5)));
                    let Some(out) = case.lib(&a.name(), || r.drv.act(a, &mut [])) else { return };
                    if out.is_err() {
                        case.count("failed writes which took effect", 1);
                    }
                }
            }
            r.bus.arm();
            let now = r.bus.with(|b| b.cams[0].control);
            if (before ^ now) & 0x1C00 != 0 {
                case.count("changes of pattern or resolution", 1);
            }
            // Calls which need not notice.
            for _ in 0..case.rng.idx(2) {
                let a = Act::image(&mut case.rng);
                let mut junk = vec![0f32; np];
                if case.lib(&a.name(), || r.drv.act(a, &mut junk)).is_none() {
                    return;
                }
                r.bus.arm();
            }
            let act = Act::control(&mut case.rng);
            let mut what = format!(
                "{} round {round}: control register {before:#06x} became {now:#06x} ({}), then {act:?}",
                r.model.name(),
                ["from outside", "by a clone", "by a write reported as failed"][how]
            );
            case.seen(mix(fnv(act.name().as_bytes()) ^ u64::from(before) << 20 ^ u64::from(now) << 36 ^ (how as u64) << 60));
            case.count(
                if act.is_setter() { "setters that resynchronized" } else { "getters that resynchronized" },
                1,
            );
            let (bus, how) = (r.bus.clone(), r.how.clone());
            let mut todo = vec![act];
            todo.extend((0..case.rng.range(1, 4)).map(|_| {
                swarm.pick(&mut case.rng, |rng| {
                    if rng.chance(2, 3) { Act::image(rng) } else { Act::any(rng) }
                })
            }));
            for (k, a) in todo.into_iter().enumerate() {
                if k > 0 {
                    what = format!("{what}, {a:?}");
                    if case.rng.chance(1, 2) {
                        r.bus.cam(|c| c.complete());
                    }
                }
                let Some((out, v)) =
                    against_fresh(case, &what, &bus, &mut r.drv, r.model, r.addr, &how, a, &dest)
                else {
                    return;
                };
                if !case.check(out.is_ok(), || format!("{what}: {out:?} without a fault")) {
                    return;
                }
                dest = v;
                if case.failed() {
                    return;
                }
            }
        }
        case.sample(|| format!("{} 4 changes behind the driver's back", r.model.name()));
    });
}
