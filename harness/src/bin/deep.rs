//! `deep`: a long measurement is waited for in a build without optimisation, on a thread's usual
//! stack. A wait which needs a little more of the stack with each poll dies here; in an optimised
//! build it may have been turned into a loop. Says how many polls were waited for.
use mlxmon::drv::{Act, Drv, Val};
use mlxmon::ee::{gen_ok, to_bytes, Style};
use mlxmon::rng::Rng;
use mlxmon::sim::{Bus, Cam, Model, ST_NEW};

fn wait(model: Model, seed: u64, delay: u32) -> Result<u64, String> {
    let mut rng = Rng::new(seed);
    let (ee, _) = gen_ok(&mut rng, model, Style::Plausible);
    let mut cam = Cam::new(model, 0x33, ee.clone(), vec![0; model.ram_len()]);
    cam.status = rng.u16();
    cam.control = rng.u16();
    cam.measure_delay = Some(delay);
    let bus = Bus::one(cam);
    let mut drv = Drv::from_dump(model, &bus, 0x33, &to_bytes(&ee))
        .map_err(|e| format!("construction failed: {e:?}"))?;
    bus.arm();
    bus.with(|b| {
        b.logging = false;
        b.budget = u64::from(delay) + 100;
    });
    let out = drv.act(Act::Sync, &mut []);
    let (done, polls, st) = bus.with(|b| (b.cams[0].completed, b.count, b.cams[0].status));
    if out == Ok(Val::Unit) && done == 1 && st & ST_NEW != 0 {
        Ok(polls)
    } else {
        Err(format!(
            "{} synchronize with a measurement taking {delay} polls returned {out:?} after {polls} operations with {done} measurements complete, status {st:#06x}",
            model.name()
        ))
    }
}

fn main() {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let delay = if thorough { 20_000_000 } else { 600_000 };
    let threads: Vec<_> = Model::BOTH
        .into_iter()
        .map(|m| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || wait(m, seed, delay))
                .expect("a thread")
        })
        .collect();
    let mut polls = 0;
    for t in threads {
        match t.join() {
            Ok(Ok(n)) => polls += n,
            Ok(Err(e)) => {
                println!("{e}");
                std::process::exit(1);
            }
            Err(_) => {
                println!("synchronize panicked");
                std::process::exit(1);
            }
        }
    }
    println!("polls={polls}");
}
