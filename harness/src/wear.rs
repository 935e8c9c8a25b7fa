//! A life before the watched one: a driver that has made hundreds of calls, with and without bus
//! faults, has to behave like any other. What wears it is not judged here; the camera is put back
//! as it was, so that whatever is found afterwards comes from the driver's past.
use crate::ctx::Case;
use crate::drv::{Act, Drv};
use crate::rng::Rng;
use crate::sim::{Bus, Fault, Model, ST_NEW};

const COUNTS: [u32; 21] = [
    1, 2, 3, 4, 5, 8, 10, 16, 17, 32, 33, 64, 100, 128, 129, 255, 256, 257, 300, 512, 1000,
];

#[derive(Clone, Copy, Debug)]
pub struct Wear {
    seed: u64,
    most: u32,
}

impl Wear {
    /// One driver in `one_in` gets a past of at most `most` calls a burst.
    pub fn pick(rng: &mut Rng, one_in: u64, most: u32) -> Option<Wear> {
        rng.chance(1, one_in).then(|| Wear { seed: rng.u64(), most })
    }

    fn call(self, rng: &mut Rng) -> Act {
        match rng.idx(8) {
            0..=3 => Act::image(rng),
            4 => Act::Sync,
            _ => Act::every(rng.idx(Act::EVERY), rng),
        }
    }

    /// The past. The same every time for the same `Wear`.
    pub fn live(self, bus: &Bus, drv: &mut Drv, model: Model) -> u64 {
        let mut rng = Rng::new(self.seed);
        let rng = &mut rng;
        let (e, t_r) = (drv.emissivity(), drv.reflected());
        let start = bus.with(|s| s.clone());
        bus.with(|s| s.logging = false);
        let mut dest = vec![0f32; model.pixels()];
        let mut calls = 0;
        for _ in 0..rng.range(1, 2) {
            let n = loop {
                let n = *rng.pick(&COUNTS);
                if n <= self.most {
                    break n;
                }
            };
            let one = self.call(rng);
            // Which calls fail, whether a frame is there.
            let (faults, frames) = (rng.idx(5), rng.idx(4));
            let mixed = rng.chance(1, 3);
            for i in 0..n {
                let act = if mixed { self.call(rng) } else { one };
                let fail = match faults {
                    0 | 1 => false,
                    2 => true,
                    3 => i % 2 == 0,
                    _ => rng.bool(),
                };
                let at = if rng.bool() { 0 } else { rng.below(12) };
                let kind = if rng.bool() { Fault::Clean } else { Fault::Partial };
                bus.arm();
                bus.with(|b| {
                    let c = &mut b.cams[0];
                    c.measure_delay = Some(1);
                    match frames {
                        0 => c.status &= !ST_NEW,
                        1 => c.complete(),
                        2 => c.status |= ST_NEW,
                        _ if i % 3 == 0 => c.complete(),
                        _ => {}
                    }
                    if fail {
                        b.faults.push((at, kind, 1));
                    }
                });
                let _ = drv.act(act, &mut dest);
                calls += 1;
            }
        }
        bus.with(|s| {
            *s = start;
            s.log.clear();
            s.log.reserve(4096);
        });
        // The driver follows the camera's settings from the next successful getter on.
        let plan = bus.with(|s| {
            (std::mem::take(&mut s.faults), s.dead_from.take(), std::mem::take(&mut s.frame_at), s.count)
        });
        let _ = drv.act(Act::Res, &mut []);
        bus.with(|s| {
            (s.faults, s.dead_from, s.frame_at, s.count) = plan;
            s.log.clear();
        });
        drv.override_emissivity(e);
        drv.set_reflected(t_r);
        calls
    }

    /// Perhaps wear the driver out; `None` if the library panicked.
    pub fn perhaps(
        case: &mut Case,
        one_in: u64,
        most: u32,
        bus: &Bus,
        drv: &mut Drv,
        model: Model,
    ) -> Option<()> {
        let Some(w) = Wear::pick(&mut case.rng, one_in, most) else { return Some(()) };
        let n = case.lib("an earlier call", || w.live(bus, drv, model))?;
        case.count("drivers with a past", 1);
        case.count("calls in the drivers' pasts", n);
        Some(())
    }
}
