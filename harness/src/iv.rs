//! Interval arithmetic that bounds what any sensible f32 evaluation of a formula can return.
//!
//! Every operation widens its result by `EPS` relative to the operands (addition) or the result
//! (multiplication, division), which covers the rounding of the library's evaluation order and of
//! reasonable re-orderings of it. Results in the subnormal or overflow range of f32, divisions by
//! intervals containing zero and roots of intervals straddling zero are `undecided`: the monitor
//! then gives no verdict for that value instead of guessing.

/// 4x the unit roundoff of f32.
pub const EPS: f64 = 1.0 / (1u64 << 22) as f64;
/// Allowance for powf/powi/exp2 implementations.
pub const EPS_POW: f64 = 1.0 / (1u64 << 20) as f64;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Iv {
    /// The value lies in lo..=hi.
    In(f64, f64),
    /// The value must be NaN.
    Nan,
    Undecided,
}
use Iv::*;

fn mk(lo: f64, hi: f64) -> Iv {
    if !lo.is_finite() || !hi.is_finite() || lo.abs().max(hi.abs()) > 1e37 {
        return Undecided;
    }
    let m = lo.abs().max(hi.abs());
    if m != 0.0 && m < 1e-36 {
        return Undecided;
    }
    In(lo, hi)
}

impl Iv {
    pub fn exact(v: f64) -> Iv {
        In(v, v)
    }
    /// A constant which the library stores as an f32 after a few roundings.
    pub fn c(v: f64) -> Iv {
        mk(v - v.abs() * EPS, v + v.abs() * EPS)
    }
    fn two(self, o: Iv, f: impl Fn(f64, f64, f64, f64) -> Iv) -> Iv {
        match (self, o) {
            (In(a, b), In(c, d)) => f(a, b, c, d),
            (Undecided, _) | (_, Undecided) => Undecided,
            _ => Nan,
        }
    }
    pub fn add(self, o: Iv) -> Iv {
        self.two(o, |a, b, c, d| {
            let w = EPS * (a.abs().max(b.abs()) + c.abs().max(d.abs()));
            mk(a + c - w, b + d + w)
        })
    }
    pub fn neg(self) -> Iv {
        match self {
            In(a, b) => In(-b, -a),
            x => x,
        }
    }
    pub fn sub(self, o: Iv) -> Iv {
        self.add(o.neg())
    }
    pub fn mul(self, o: Iv) -> Iv {
        self.two(o, |a, b, c, d| {
            let p = [a * c, a * d, b * c, b * d];
            let lo = p.iter().cloned().fold(f64::INFINITY, f64::min);
            let hi = p.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let w = EPS * lo.abs().max(hi.abs());
            mk(lo - w, hi + w)
        })
    }
    pub fn div(self, o: Iv) -> Iv {
        self.two(o, |a, b, c, d| {
            if c <= 0.0 && d >= 0.0 {
                return Undecided;
            }
            let p = [a / c, a / d, b / c, b / d];
            let lo = p.iter().cloned().fold(f64::INFINITY, f64::min);
            let hi = p.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let w = EPS * lo.abs().max(hi.abs());
            mk(lo - w, hi + w)
        })
    }
    /// Even power by repeated multiplication, with the extra allowance of a pow function.
    pub fn powi(self, n: u32) -> Iv {
        let mut r = Iv::exact(1.0);
        for _ in 0..n {
            r = r.mul(self);
        }
        // x^2 and x^4 are never negative
        if n % 2 == 0 {
            if let In(lo, hi) = r {
                if lo < 0.0 {
                    r = In(0.0, hi);
                }
            }
        }
        r.widen(EPS_POW)
    }
    pub fn root4(self) -> Iv {
        match self {
            In(a, b) => {
                if b < 0.0 {
                    Nan
                } else if a <= 0.0 {
                    Undecided
                } else {
                    mk(a.powf(0.25), b.powf(0.25)).widen(EPS_POW)
                }
            }
            x => x,
        }
    }
    pub fn widen(self, e: f64) -> Iv {
        match self {
            In(a, b) => {
                let w = e * a.abs().max(b.abs());
                mk(a - w, b + w)
            }
            x => x,
        }
    }
    /// Widen by an absolute amount.
    pub fn grow(self, w: f64) -> Iv {
        match self {
            In(a, b) => mk(a - w, b + w),
            x => x,
        }
    }
    pub fn width(self) -> f64 {
        match self {
            In(a, b) => b - a,
            _ => f64::INFINITY,
        }
    }
    pub fn mid(self) -> f64 {
        match self {
            In(a, b) => (a + b) / 2.0,
            _ => f64::NAN,
        }
    }
    pub fn decided(self) -> bool {
        !matches!(self, Undecided)
    }
    /// Three-valued: Some(true) agrees, Some(false) refuted, None no verdict.
    pub fn admits(self, v: f32) -> Option<bool> {
        match self {
            In(a, b) => {
                let v = f64::from(v);
                Some(v >= a && v <= b)
            }
            Nan => Some(v.is_nan()),
            Undecided => None,
        }
    }
}
