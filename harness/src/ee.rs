//! EEPROM images: generators, and reference decoders written from the register maps of the two
//! datasheets (word address -> bit field -> value), independently of the library's streaming
//! parser. All arithmetic is done in i64/f64.
use crate::iv::Iv;
use crate::rng::Rng;
use crate::sim::{Model, EEPROM_BASE, EEPROM_WORDS};

#[derive(Clone, Debug)]
pub struct RefCal {
    pub model: Model,
    pub k_v_dd: i64,
    pub v_dd_25: i64,
    pub v_dd_0: f64,
    pub resolution: u16,
    pub k_v_ptat: f64,
    pub k_t_ptat: f64,
    pub v_ptat_25: f64,
    pub alpha_ptat: f64,
    pub gain: f64,
    pub k_s_ta: f64,
    pub ct: Vec<i64>,
    pub k_s_to: Vec<f64>,
    pub alpha_corr: Vec<Iv>,
    pub emissivity: Option<f64>,
    pub alpha: Vec<f64>,
    pub alpha_cp: [f64; 2],
    pub off: [Vec<i64>; 2],
    pub off_cp: [i64; 2],
    pub kv: Vec<f64>,
    pub kv_cp: f64,
    pub kta: Vec<f64>,
    pub kta_cp: f64,
    /// 0 when thermal gradient compensation is off.
    pub tgc: f64,
    /// Added to the pixel in interleaved mode.
    pub il_pix: Vec<f64>,
    /// Added to the compensation pixel of each subpage in interleaved mode.
    pub il_cp: [f64; 2],
    pub failed: Vec<bool>,
    pub outlier: Vec<bool>,
}

#[derive(Clone, Debug)]
pub enum Decoded {
    Ok(Box<RefCal>),
    /// The image cannot be represented and must be rejected.
    MustErr(&'static str),
    /// Both a rejection and a decoded result are acceptable.
    Either,
}

impl Decoded {
    pub fn cal(self) -> Option<RefCal> {
        match self {
            Decoded::Ok(c) => Some(*c),
            _ => None,
        }
    }
}

/// Two's complement value of the `bits` low bits of `v`.
pub fn sx(v: u16, bits: u32) -> i64 {
    let v = i64::from(v) & ((1 << bits) - 1);
    if v >= 1 << (bits - 1) {
        v - (1 << bits)
    } else {
        v
    }
}

fn p2(e: i64) -> f64 {
    2f64.powi(e as i32)
}

pub fn to_bytes(words: &[u16]) -> Vec<u8> {
    words.iter().flat_map(|w| w.to_be_bytes()).collect()
}

pub fn to_words(bytes: &[u8]) -> Vec<u16> {
    bytes
        .chunks_exact(2)
        .map(|c| u16::from_be_bytes([c[0], c[1]]))
        .collect()
}

fn alpha_corr(basic: usize, ct: &[i64], ks: &[f64]) -> Vec<Iv> {
    let n = ct.len();
    let mut out = vec![Iv::exact(1.0); n];
    let step = |i: usize| {
        Iv::exact(1.0).add(Iv::c(ks[i]).mul(Iv::exact((ct[i + 1] - ct[i]) as f64)))
    };
    for i in (0..basic).rev() {
        out[i] = Iv::exact(1.0).div(step(i)).mul(out[i + 1]);
    }
    for i in basic + 1..n {
        out[i] = out[i - 1].mul(step(i - 1));
    }
    out
}

pub fn decode40(w: &[u16]) -> Decoded {
    let e = |a: u16| w[usize::from(a - EEPROM_BASE)];
    let hi = |a: u16| e(a) >> 8;
    let lo = |a: u16| e(a) & 0xFF;
    let nib = |a: u16, n: u32| (e(a) >> (4 * n)) & 0xF;
    let scale_off_row = nib(0x2410, 2);
    let scale_off_col = nib(0x2410, 1);
    let scale_off_rem = nib(0x2410, 0);
    let off_avg = sx(e(0x2411), 16);
    let alpha_exp = i64::from(nib(0x2420, 3));
    let scale_a_row = nib(0x2420, 2);
    let scale_a_col = nib(0x2420, 1);
    let scale_a_rem = nib(0x2420, 0);
    let a_avg = i64::from(e(0x2421));
    let kv_scale = i64::from(nib(0x2438, 2));
    let kta_s1 = i64::from(nib(0x2438, 1)) + 8;
    let kta_s2 = nib(0x2438, 0);
    let mut failed = vec![false; 768];
    let mut outlier = vec![false; 768];
    let mut off = vec![0i64; 768];
    let mut alpha = vec![0f64; 768];
    let mut kta = vec![0f64; 768];
    let mut kv = vec![0f64; 768];
    let mut il = vec![0f64; 768];
    let il1 = sx(e(0x2435) & 0x3F, 6) as f64 / 16.0;
    let il2 = sx((e(0x2435) >> 6) & 0x1F, 5) as f64 / 2.0;
    let il3 = sx((e(0x2435) >> 11) & 0x1F, 5) as f64 / 8.0;
    let mut bad_live = false;
    let mut bad_failed = false;
    for i in 0..768usize {
        let (r, c) = (i / 32, i % 32);
        let px = e(0x2440 + i as u16);
        // The datasheet numbers rows and columns from 1: our even rows are its odd rows.
        let (odd_row, odd_col) = (r % 2 == 0, c % 2 == 0);
        let row_o = sx(nib(0x2412 + (r / 4) as u16, (r % 4) as u32), 4);
        let col_o = sx(nib(0x2418 + (c / 4) as u16, (c % 4) as u32), 4);
        let row_a = sx(nib(0x2422 + (r / 4) as u16, (r % 4) as u32), 4);
        let col_a = sx(nib(0x2428 + (c / 4) as u16, (c % 4) as u32), 4);
        let o = off_avg
            + row_o * (1 << scale_off_row)
            + col_o * (1 << scale_off_col)
            + sx(px >> 10, 6) * (1 << scale_off_rem);
        let fits = (-32768..=32767).contains(&o);
        off[i] = o;
        failed[i] = px == 0;
        outlier[i] = px & 1 == 1;
        if !fits {
            if px == 0 {
                bad_failed = true;
            } else {
                bad_live = true;
            }
        }
        let a = a_avg
            + row_a * (1 << scale_a_row)
            + col_a * (1 << scale_a_col)
            + sx((px >> 4) & 0x3F, 6) * (1 << scale_a_rem);
        alpha[i] = a as f64 / p2(30 + alpha_exp);
        let kta_rc = sx(
            match (odd_row, odd_col) {
                (true, true) => hi(0x2436),
                (false, true) => lo(0x2436),
                (true, false) => hi(0x2437),
                (false, false) => lo(0x2437),
            },
            8,
        );
        kta[i] = (kta_rc + sx((px >> 1) & 7, 3) * (1 << kta_s2)) as f64 / p2(kta_s1);
        kv[i] = sx(
            match (odd_row, odd_col) {
                (true, true) => nib(0x2434, 3),
                (false, true) => nib(0x2434, 2),
                (true, false) => nib(0x2434, 1),
                (false, false) => nib(0x2434, 0),
            },
            4,
        ) as f64
            / p2(kv_scale);
        // Datasheet 11.2.2.5.1 with its integer divisions, pixel numbers from 1.
        let n = i as i64 + 1;
        let ilp = (n - 1) / 32 - (n - 1) / 32 / 2 * 2;
        let conv =
            ((n + 1) / 4 - (n + 2) / 4 + n / 4 - (n - 1) / 4) as f64 * (1.0 - 2.0 * ilp as f64);
        il[i] = il3 * (2.0 * ilp as f64 - 1.0) - il2 * conv;
    }
    if bad_live {
        return Decoded::MustErr("pixel offset does not fit 16 bits");
    }
    if bad_failed {
        return Decoded::Either;
    }
    let off_cp0 = sx(e(0x243A) & 0x3FF, 10);
    let alpha_cp0 = f64::from(e(0x2439) & 0x3FF) / p2(27 + alpha_exp);
    let step = i64::from((e(0x243F) >> 12) & 3) * 10;
    let ct3 = i64::from(nib(0x243F, 1)) * step;
    let ct4 = ct3 + i64::from(nib(0x243F, 2)) * step;
    let ct = vec![-40, 0, ct3, ct4];
    let ks_scale = p2(i64::from(nib(0x243F, 0)) + 8);
    let k_s_to: Vec<f64> = [lo(0x243D), hi(0x243D), lo(0x243E), hi(0x243E)]
        .iter()
        .map(|v| sx(*v, 8) as f64 / ks_scale)
        .collect();
    Decoded::Ok(Box::new(RefCal {
        model: Model::M40,
        k_v_dd: sx(hi(0x2433), 8) * 32,
        v_dd_25: (i64::from(lo(0x2433)) - 256) * 32 - 8192,
        v_dd_0: 3.3,
        resolution: (e(0x2438) >> 12) & 3,
        k_v_ptat: sx(e(0x2432) >> 10, 6) as f64 / 4096.0,
        k_t_ptat: sx(e(0x2432) & 0x3FF, 10) as f64 / 8.0,
        v_ptat_25: sx(e(0x2431), 16) as f64,
        alpha_ptat: f64::from(nib(0x2410, 3)) / 4.0 + 8.0,
        gain: sx(e(0x2430), 16) as f64,
        k_s_ta: sx(hi(0x243C), 8) as f64 / 8192.0,
        alpha_corr: alpha_corr(1, &ct, &k_s_to),
        ct,
        k_s_to,
        emissivity: None,
        alpha,
        alpha_cp: [
            alpha_cp0,
            alpha_cp0 * (1.0 + sx(e(0x2439) >> 10, 6) as f64 / 128.0),
        ],
        off: [off.clone(), off],
        off_cp: [off_cp0, off_cp0 + sx(e(0x243A) >> 10, 6)],
        kv,
        kv_cp: sx(hi(0x243B), 8) as f64 / p2(kv_scale),
        kta,
        kta_cp: sx(lo(0x243B), 8) as f64 / p2(kta_s1),
        tgc: sx(lo(0x243C), 8) as f64 / 32.0,
        il_pix: il,
        il_cp: [0.0, il1],
        failed,
        outlier,
    }))
}

/// `w` holds the 11 data bits of every word (checksums already removed).
pub fn decode41(w: &[u16]) -> Decoded {
    let e = |a: u16| w[usize::from(a - EEPROM_BASE)] & 0x7FF;
    let s11 = |a: u16| sx(e(a), 11);
    let two = |a: u16| i64::from(e(a)) * 32 + i64::from(e(a + 1));
    let two_s = |a: u16| {
        let v = two(a);
        if v > 32767 {
            v - 65536
        } else {
            v
        }
    };
    // The layout only defines 5 bits in the second word of a pair.
    for a in [0x2411u16, 0x2424, 0x2428, 0x242F] {
        if e(a + 1) > 31 {
            return Decoded::Either;
        }
    }
    let off_scale = u32::from(e(0x2410) >> 5);
    let off_avg = two_s(0x2411);
    let (kta_avg, kta_s1, kta_s2) = (
        s11(0x2415) as f64,
        p2(i64::from(e(0x2416) >> 5)),
        p2(i64::from(e(0x2416) & 0x1F)),
    );
    let (kv_avg, kv_s1, kv_s2) = (
        s11(0x2417) as f64,
        p2(i64::from(e(0x2418) >> 5)),
        p2(i64::from(e(0x2418) & 0x1F)),
    );
    let mut aref = [0f64; 6];
    for (i, a) in aref.iter_mut().enumerate() {
        let s = e(0x2419 + (i / 2) as u16);
        let exp = (if i % 2 == 0 { s >> 5 } else { s & 0x1F }) + 20;
        *a = f64::from(e(0x241C + i as u16)) / p2(i64::from(exp));
    }
    let mut off = [vec![0i64; 192], vec![0i64; 192]];
    let (mut alpha, mut kta, mut kv) = (vec![0f64; 192], vec![0f64; 192], vec![0f64; 192]);
    let mut failed = vec![false; 192];
    for i in 0..192usize {
        let a = |base: u16| base + i as u16;
        let c = e(a(0x25C0));
        failed[i] = e(a(0x2440)) == 0 && e(a(0x2680)) == 0 && e(a(0x2500)) == 0 && c == 0;
        for (sp, base) in [(0, 0x2440u16), (1, 0x2680)] {
            let o = i128::from(off_avg) + i128::from(s11(a(base))) * (1i128 << off_scale);
            if !(-32768..=32767).contains(&o) {
                if !failed[i] {
                    return Decoded::MustErr("pixel offset does not fit 16 bits");
                }
            } else {
                off[sp][i] = o as i64;
            }
        }
        alpha[i] = f64::from(e(a(0x2500))) / 2047.0 * aref[i / 32];
        kta[i] = (sx(c >> 5, 6) as f64 * kta_s2 + kta_avg) / kta_s1;
        kv[i] = (sx(c & 0x1F, 5) as f64 * kv_s2 + kv_avg) / kv_s1;
    }
    let cp = |a: u16| sx(e(a) & 0x3F, 6) as f64 / p2(i64::from(e(a) >> 6));
    let ks_scale = p2(i64::from(e(0x2434)));
    let mut k_s_to: Vec<f64> = (0..5).map(|i| s11(0x2435 + i) as f64 / ks_scale).collect();
    let mut ct: Vec<i64> = vec![-40, -20, 0, 80, 120];
    for i in 0..3 {
        ct.push(i64::from(e(0x243A + 2 * i)));
        k_s_to.push(s11(0x243B + 2 * i) as f64 / ks_scale);
    }
    let alpha_cp = f64::from(e(0x242D)) / p2(i64::from(e(0x242E)));
    let off_cp = two_s(0x242F);
    Decoded::Ok(Box::new(RefCal {
        model: Model::M41,
        k_v_dd: s11(0x2427) * 32,
        v_dd_25: s11(0x2426) * 32,
        v_dd_0: 3.3,
        resolution: (e(0x2433) >> 9) & 3,
        k_v_ptat: s11(0x242B) as f64 / 4096.0,
        k_t_ptat: s11(0x242A) as f64 / 8.0,
        v_ptat_25: two(0x2428) as f64,
        alpha_ptat: f64::from(e(0x242C)) / 128.0,
        gain: two(0x2424) as f64,
        k_s_ta: s11(0x2422) as f64 / 32768.0,
        alpha_corr: alpha_corr(2, &ct, &k_s_to),
        ct,
        k_s_to,
        emissivity: Some(s11(0x2423) as f64 / 512.0),
        alpha,
        alpha_cp: [alpha_cp, alpha_cp],
        off,
        off_cp: [off_cp, off_cp],
        kv,
        kv_cp: cp(0x2432),
        kta,
        kta_cp: cp(0x2431),
        tgc: sx(e(0x2433) & 0x1FF, 9) as f64 / 64.0,
        il_pix: vec![0.0; 192],
        il_cp: [0.0; 2],
        outlier: failed.clone(),
        failed,
    }))
}

// ---------------------------------------------------------------------------------------------
// Extended Hamming (16,11): data bits d0..d10 sit at code positions 3,5,6,7,9..15.

pub fn ham_encode(data: u16) -> u16 {
    const POS: [u16; 11] = [3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15];
    let mut syndrome = 0u16;
    for (i, p) in POS.iter().enumerate() {
        if data >> i & 1 == 1 {
            syndrome ^= p;
        }
    }
    let w = (data & 0x7FF) | (syndrome << 11);
    w | ((w.count_ones() as u16 & 1) << 15)
}

/// All 16-bit words at Hamming distance <= 1 of a codeword, with its data. `None`: none.
pub fn ham_reference(word: u16) -> Option<u16> {
    for f in 0..=16u32 {
        let c = if f == 16 { word } else { word ^ (1 << f) };
        if ham_encode(c & 0x7FF) == c {
            return Some(c & 0x7FF);
        }
    }
    None
}

pub fn ham_words(data: &[u16]) -> Vec<u16> {
    data.iter().map(|d| ham_encode(*d & 0x7FF)).collect()
}

/// Identification and register words at the start of the EEPROM, which hold no calibration.
pub const HEADER: usize = 0x10;

/// Word offsets of the MLX90641 EEPROM that calibration uses.
pub fn used41() -> Vec<usize> {
    (HEADER..EEPROM_WORDS)
        .filter(|o| !matches!(o, 0x13 | 0x14))
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Generators

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    /// A plausible camera.
    Plausible,
    /// Every field random over its whole range, pixel offsets kept representable.
    Wild,
    /// Uniformly random bits.
    Random,
}

fn n4(v: [i64; 4]) -> u16 {
    // element 0 in the low nibble
    v.iter()
        .enumerate()
        .fold(0, |a, (i, x)| a | (((*x & 0xF) as u16) << (4 * i)))
}

fn b2(hi: i64, lo: i64) -> u16 {
    (((hi & 0xFF) as u16) << 8) | (lo & 0xFF) as u16
}

pub fn gen40(rng: &mut Rng, style: Style) -> Vec<u16> {
    let mut w: Vec<u16> = (0..EEPROM_WORDS).map(|_| rng.u16()).collect();
    if style == Style::Random {
        return w;
    }
    let plausible = style == Style::Plausible;
    let mut set = |a: u16, v: u16| w[usize::from(a - EEPROM_BASE)] = v;
    // ---- offsets
    let (srow, scol, srem, avg, bound) = if plausible {
        (
            rng.range(0, 3),
            rng.range(0, 3),
            rng.range(0, 2),
            rng.range(-300, 300),
            1000i64,
        )
    } else {
        (
            rng.range(0, 15),
            rng.range(0, 15),
            rng.range(0, 15),
            rng.range(-11000, 11000),
            10000i64,
        )
    };
    let ptat = if plausible { rng.range(0, 7) } else { rng.range(0, 15) };
    set(0x2410, n4([srem, scol, srow, ptat]));
    set(0x2411, avg as u16);
    let coef = |rng: &mut Rng, s: i64| loop {
        let c = rng.range(-8, 7);
        if (c << s).abs() <= bound {
            break c;
        }
    };
    let rows: Vec<i64> = (0..24).map(|_| coef(rng, srow)).collect();
    let cols: Vec<i64> = (0..32).map(|_| coef(rng, scol)).collect();
    for i in 0..6 {
        set(0x2412 + i as u16, n4([rows[4 * i], rows[4 * i + 1], rows[4 * i + 2], rows[4 * i + 3]]));
    }
    for i in 0..8 {
        set(0x2418 + i as u16, n4([cols[4 * i], cols[4 * i + 1], cols[4 * i + 2], cols[4 * i + 3]]));
    }
    // ---- sensitivity
    if plausible {
        let exp = rng.range(5, 8);
        // keep alpha around 1e-7
        let a = (rng.frange(5e-8, 2.2e-7) * p2(30 + exp)).min(60000.0) as i64;
        set(0x2420, n4([rng.range(0, 3), rng.range(0, 4), rng.range(0, 4), exp]));
        set(0x2421, a.max(1500) as u16);
    }
    // ---- globals
    if plausible {
        set(0x2430, rng.range(5000, 8000) as u16);
        set(0x2431, rng.range(11000, 13500) as u16);
        set(0x2432, (((rng.range(-8, 31) & 0x3F) as u16) << 10) | rng.range(280, 400) as u16);
        set(0x2433, b2(rng.range(-115, -80), rng.range(0x70, 0xC0)));
        set(0x2434, n4([rng.range(-2, 7), rng.range(-2, 7), rng.range(-2, 7), rng.range(-2, 7)]));
        set(0x2436, b2(rng.range(20, 110), rng.range(20, 110)));
        set(0x2437, b2(rng.range(20, 110), rng.range(20, 110)));
        set(0x2438, n4([rng.range(0, 4), rng.range(4, 7), rng.range(6, 11), rng.range(0, 3) | (rng.range(0, 3) << 2)]));
        set(0x2439, (((rng.range(-32, 31) & 0x3F) as u16) << 10) | rng.range(40, 120) as u16);
        set(0x243A, (((rng.range(-32, 31) & 0x3F) as u16) << 10) | (rng.range(-120, 60) & 0x3FF) as u16);
        set(0x243B, b2(rng.range(-10, 60), rng.range(10, 90)));
        let tgc = if rng.chance(1, 3) { 0 } else { rng.range(-32, 32) };
        set(0x243C, b2(rng.range(-60, 40), tgc));
        set(0x243D, b2(rng.range(-120, 20), rng.range(-120, 20)));
        set(0x243E, b2(rng.range(-120, 20), rng.range(-120, 20)));
        set(0x243F, n4([rng.range(8, 10), rng.range(1, 15), rng.range(1, 15), rng.range(1, 3) | (rng.range(0, 3) << 2)]));
    }
    // ---- pixels
    let flags = rng.range(0, 3);
    for i in 0..768usize {
        let base = avg + (rows[i / 32] << srow) + (cols[i % 32] << scol);
        let rem = loop {
            let r = rng.range(-32, 31);
            let o = base + (r << srem);
            if (-32768..=32767).contains(&o) && (!plausible || o.abs() < 6000) {
                break r;
            }
        };
        let mut px = (((rem & 0x3F) as u16) << 10) | (rng.u16() & 0x3FF);
        // few outliers in plausible images, many in wild ones
        if plausible && rng.chance(31, 32) {
            px &= !1;
        }
        if px == 0 {
            px = 0x10;
        }
        if (flags == 1 && rng.chance(1, 100)) || (flags == 2 && rng.chance(1, 4)) {
            px = 0;
        }
        set(0x2440 + i as u16, px);
    }
    w
}

/// Returns the 11-bit data words; use `ham_words` for the EEPROM content.
pub fn gen41(rng: &mut Rng, style: Style) -> Vec<u16> {
    let mut w: Vec<u16> = (0..EEPROM_WORDS).map(|_| rng.u16() & 0x7FF).collect();
    let plausible = style == Style::Plausible;
    let mut set = |a: u16, v: i64| w[usize::from(a - EEPROM_BASE)] = (v & 0x7FF) as u16;
    if style == Style::Random {
        return w;
    }
    let pair = |v: i64| ((v >> 5) & 0x7FF, v & 0x1F);
    for a in [0x2411u16, 0x2424, 0x2428, 0x242F] {
        let v = match (a, plausible) {
            (0x2411, true) => rng.range(-900, 900),
            (0x2424, true) => rng.range(7000, 11000),
            (0x2428, true) => rng.range(11000, 13500),
            (0x242F, true) => rng.range(-700, 300),
            (0x2411, false) => rng.range(-16000, 16000),
            _ => i64::from(rng.u16()),
        };
        let (h, l) = pair(v);
        set(a, h);
        set(a + 1, l);
        if a == 0x2411 {
            // per-pixel offsets that stay representable
            let scale = if plausible {
                rng.range(0, 2)
            } else if rng.chance(1, 2) {
                rng.range(0, 5)
            } else {
                rng.range(0, 63)
            };
            set(0x2410, (scale << 5) | rng.range(0, 31));
            for i in 0..192u16 {
                for base in [0x2440u16, 0x2680] {
                    let raw = loop {
                        let r = if scale > 15 || rng.chance(1, 16) {
                            0
                        } else if scale > 5 {
                            rng.range(-1024 >> (scale - 5).min(10), 1023 >> (scale - 5).min(10))
                        } else {
                            rng.range(-1024, 1023)
                        };
                        let o = i128::from(v) + (i128::from(r) << scale);
                        if (-32768..=32767).contains(&o) && (!plausible || o.abs() < 6000) {
                            break r;
                        }
                    };
                    set(base + i, raw);
                }
            }
        }
    }
    if plausible {
        set(0x2415, rng.range(100, 700));
        set(0x2416, (rng.range(15, 17) << 5) | rng.range(3, 6));
        set(0x2417, rng.range(200, 800));
        set(0x2418, (rng.range(10, 12) << 5) | rng.range(2, 5));
        for i in 0..3 {
            set(0x2419 + i, (rng.range(12, 13) << 5) | rng.range(12, 13));
        }
        for i in 0..6 {
            set(0x241C + i, rng.range(900, 2047));
        }
        set(0x2422, rng.range(-300, 200));
        set(0x2423, rng.range(300, 512));
        set(0x2426, rng.range(-450, -380));
        set(0x2427, rng.range(-110, -80));
        set(0x242A, rng.range(280, 400));
        set(0x242B, rng.range(-8, 40));
        set(0x242C, rng.range(1024, 1300));
        set(0x242D, rng.range(300, 2000));
        set(0x242E, rng.range(33, 35));
        set(0x2431, (rng.range(8, 13) << 6) | rng.range(0, 63));
        set(0x2432, (rng.range(3, 7) << 6) | rng.range(0, 63));
        set(0x2433, (rng.range(0, 3) << 9) | (rng.range(-64, 64) & 0x1FF));
        set(0x2434, rng.range(19, 20));
        for i in 0..5 {
            set(0x2435 + i, rng.range(-450, 100));
        }
        for i in 0..3 {
            set(0x243A + 2 * i, rng.range(150, 600));
            set(0x243B + 2 * i, rng.range(-450, 100));
        }
    }
    let flags = rng.range(0, 3);
    for i in 0..192u16 {
        if plausible {
            set(0x2500 + i, rng.range(900, 2047));
        }
        if (flags == 1 && rng.chance(1, 50)) || (flags == 2 && rng.chance(1, 4)) {
            // all but one of the four words zero is *not* a failed pixel
            let keep = if rng.bool() { 4 } else { rng.idx(4) };
            for (n, base) in [0x2440u16, 0x2680, 0x2500, 0x25C0].iter().enumerate() {
                if n != keep {
                    set(base + i, 0);
                }
            }
        }
    }
    w
}

/// An EEPROM image as stored on the device, and what the reference decoder says about it.
pub fn gen(rng: &mut Rng, model: Model, style: Style) -> (Vec<u16>, Decoded) {
    match model {
        Model::M40 => {
            let w = gen40(rng, style);
            let d = decode40(&w);
            (w, d)
        }
        Model::M41 => {
            let w = gen41(rng, style);
            let d = decode41(&w);
            let mut words = ham_words(&w);
            // The identification words are not calibration and need no check bits.
            if rng.bool() {
                words[..HEADER].iter_mut().for_each(|x| *x = rng.u16());
            }
            (words, d)
        }
    }
}

/// A plausible camera; never an image that must be rejected.
pub fn gen_ok(rng: &mut Rng, model: Model, style: Style) -> (Vec<u16>, RefCal) {
    loop {
        let (w, d) = gen(rng, model, style);
        if let Decoded::Ok(c) = d {
            return (w, *c);
        }
    }
}
