//! Synthetic solar system (no kernels are available offline), reference integrators and generators.
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME, IAU_MOON_FRAME, MOON_J2000, SUN_J2000};
use anise::naif::SPK;
use anise::prelude::{Almanac, Frame, Orbit};
use anise::structure::PlanetaryDataSet;
use anise::structure::planetocentric::PlanetaryData;
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use anise::structure::planetocentric::phaseangle::PhaseAngle;
use hifitime::{Duration, Epoch, Unit};
use nalgebra::{Matrix3, Vector3, Vector6};
use nyx_space::Spacecraft;
use nyx_space::cosmic::{DragData, Mass, SRPData};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, OnceLock};

pub const MU_EARTH: f64 = 398600.435436096;
pub const MU_MOON: f64 = 4902.800066163796;
pub const MU_SUN: f64 = 132712440041.93938;
pub const MU_JUP: f64 = 126712764.09999998;
pub const R_EARTH: f64 = 6378.14;
pub const AU: f64 = 149_597_870.7;

type V3 = Vector3<f64>;

/// Unperturbed elliptic motion used to draw the synthetic ephemerides.
#[allow(clippy::too_many_arguments)]
fn ell(et: f64, a: f64, e: f64, inc: f64, raan: f64, aop: f64, m0: f64, period_s: f64) -> V3 {
    let m = (m0 + std::f64::consts::TAU * et / period_s).rem_euclid(std::f64::consts::TAU);
    let mut ea = m;
    for _ in 0..50 {
        let d = (ea - e * ea.sin() - m) / (1.0 - e * ea.cos());
        ea -= d;
        if d.abs() < 1e-15 {
            break;
        }
    }
    let x = a * (ea.cos() - e);
    let y = a * (1.0 - e * e).sqrt() * ea.sin();
    rz(raan) * rx(inc) * rz(aop) * V3::new(x, y, 0.0)
}

pub fn rz(t: f64) -> Matrix3<f64> {
    let (s, c) = t.sin_cos();
    Matrix3::new(c, -s, 0.0, s, c, 0.0, 0.0, 0.0, 1.0)
}
pub fn rx(t: f64) -> Matrix3<f64> {
    let (s, c) = t.sin_cos();
    Matrix3::new(1.0, 0.0, 0.0, 0.0, c, -s, 0.0, s, c)
}

const DAY: f64 = 86400.0;

fn moon_geo(et: f64) -> V3 {
    rx(0.409) * ell(et, 384_400.0, 0.0549, 0.0898, 2.1, 5.5, 2.3, 27.321661 * DAY)
}
fn emb_ssb(et: f64) -> V3 {
    rx(0.409) * ell(et, AU, 0.0167, 0.0, 0.0, 1.796, 6.24, 365.25636 * DAY)
}
fn jup_ssb(et: f64) -> V3 {
    rx(0.409) * ell(et, 5.2 * AU, 0.0485, 0.02276, 1.754, 4.779, 0.34, 4332.59 * DAY)
}
fn sun_ssb(et: f64) -> V3 {
    -jup_ssb(et) * (MU_JUP / MU_SUN)
}

fn body(id: i32, et: f64) -> V3 {
    let f = MU_MOON / (MU_EARTH + MU_MOON);
    match id {
        10 => sun_ssb(et),
        3 => emb_ssb(et),
        5 => jup_ssb(et),
        399 => -moon_geo(et) * f,
        301 => moon_geo(et) * (1.0 - f),
        _ => unreachable!(),
    }
}

/// Writes a type 2 (Chebyshev position) SPK in memory.
fn make_spk() -> Vec<u8> {
    let et0 = Epoch::from_gregorian_utc_at_midnight(2018, 1, 1).to_et_seconds().floor();
    // (id, center, interval in days, number of coefficients)
    let segs = [
        (10, 0, 32.0, 8usize),
        (3, 0, 16.0, 12),
        (5, 0, 32.0, 8),
        (399, 3, 4.0, 13),
        (301, 3, 4.0, 13),
    ];
    let span = 6144.0 * DAY; // nearly 17 years
    let mut words: Vec<f64> = Vec::new();
    let mut summaries: Vec<u8> = Vec::new();
    for (id, center, int_days, nc) in segs {
        let start = 385 + words.len();
        let intlen = int_days * DAY;
        let n = (span / intlen).round() as usize;
        let rsize = 2 + 3 * nc;
        for k in 0..n {
            let mid = et0 + (k as f64 + 0.5) * intlen;
            let rad = intlen / 2.0;
            words.push(mid);
            words.push(rad);
            let nodes: Vec<(f64, V3)> = (0..nc)
                .map(|j| {
                    let x = (std::f64::consts::PI * (j as f64 + 0.5) / nc as f64).cos();
                    (x, body(id, mid + rad * x))
                })
                .collect();
            for ax in 0..3 {
                for c in 0..nc {
                    let mut s = 0.0;
                    for (j, (_, p)) in nodes.iter().enumerate() {
                        s += p[ax]
                            * (std::f64::consts::PI * c as f64 * (j as f64 + 0.5) / nc as f64)
                                .cos();
                    }
                    s *= 2.0 / nc as f64;
                    if c == 0 {
                        s /= 2.0;
                    }
                    words.push(s);
                }
            }
        }
        words.push(et0);
        words.push(intlen);
        words.push(rsize as f64);
        words.push(n as f64);
        let end = 384 + words.len();
        summaries.extend_from_slice(&et0.to_le_bytes());
        summaries.extend_from_slice(&(et0 + n as f64 * intlen).to_le_bytes());
        for i in [id, center, 1, 2, start as i32, end as i32] {
            summaries.extend_from_slice(&i.to_le_bytes());
        }
    }
    let mut out = Vec::new();
    // File record
    let mut rec = vec![0u8; 1024];
    rec[..8].copy_from_slice(b"DAF/SPK ");
    rec[8..12].copy_from_slice(&2u32.to_le_bytes());
    rec[12..16].copy_from_slice(&6u32.to_le_bytes());
    for b in rec[16..76].iter_mut() {
        *b = b' ';
    }
    rec[16..25].copy_from_slice(b"synthetic");
    rec[76..80].copy_from_slice(&2u32.to_le_bytes());
    rec[80..84].copy_from_slice(&2u32.to_le_bytes());
    rec[84..88].copy_from_slice(&((385 + words.len()) as u32).to_le_bytes());
    rec[88..96].copy_from_slice(b"LTL-IEEE");
    out.extend_from_slice(&rec);
    let mut sr = vec![0u8; 1024];
    sr[16..24].copy_from_slice(&(segs.len() as f64).to_le_bytes());
    sr[24..24 + summaries.len()].copy_from_slice(&summaries);
    out.extend_from_slice(&sr);
    let mut nr = vec![b' '; 1024];
    for (i, (id, ..)) in segs.iter().enumerate() {
        let s = format!("SYN {id}");
        nr[i * 40..i * 40 + s.len()].copy_from_slice(s.as_bytes());
    }
    out.extend_from_slice(&nr);
    for w in words {
        out.extend_from_slice(&w.to_le_bytes());
    }
    let pad = (1024 - out.len() % 1024) % 1024;
    out.extend(std::iter::repeat_n(0u8, pad));
    out
}

fn pa(off: f64, rate: f64) -> Option<PhaseAngle<32>> {
    PhaseAngle::maybe_new(&[off, rate, 0.0])
}

fn planetary() -> PlanetaryDataSet {
    let mut ds = PlanetaryDataSet::default();
    let mut push = |id: i32, mu: f64, shape: Option<Ellipsoid>, rot: Option<[f64; 6]>, name: &str| {
        let mut d = PlanetaryData {
            object_id: id,
            parent_id: 1,
            mu_km3_s2: mu,
            shape,
            ..Default::default()
        };
        if let Some(r) = rot {
            d.pole_right_ascension = pa(r[0], r[1]);
            d.pole_declination = pa(r[2], r[3]);
            d.prime_meridian = pa(r[4], r[5]);
        }
        ds.push(d, Some(id), Some(name)).unwrap();
    };
    push(10, MU_SUN, Some(Ellipsoid::from_sphere(696_000.0)), Some([286.13, 0.0, 63.87, 0.0, 84.176, 14.1844]), "Sun");
    push(399, MU_EARTH, Some(Ellipsoid::from_spheroid(6378.1366, 6356.7519)), Some([0.0, -0.641, 90.0, -0.557, 190.147, 360.9856235]), "Earth");
    push(301, MU_MOON, Some(Ellipsoid::from_sphere(1737.4)), Some([269.9949, 0.0031, 66.5392, 0.013, 38.3213, 13.17635815]), "Moon");
    push(5, MU_JUP, Some(Ellipsoid::from_spheroid(71492.0, 66854.0)), None, "Jupiter Barycenter");
    push(3, MU_EARTH + MU_MOON, None, None, "Earth Barycenter");
    push(0, MU_SUN + MU_JUP, None, None, "Solar System Barycenter");
    ds.set_crc32();
    ds
}

pub fn almanac() -> Arc<Almanac> {
    static A: OnceLock<Arc<Almanac>> = OnceLock::new();
    A.get_or_init(|| {
        let spk = SPK::parse(&make_spk()[..]).expect("synthetic SPK");
        Arc::new(
            Almanac::default()
                .with_planetary_data_as(planetary(), Some("syn".into()))
                .with_spk_as(spk, Some("syn-spk".into())),
        )
    })
    .clone()
}

pub fn eme2k() -> Frame {
    almanac().frame_info(EARTH_J2000).unwrap()
}
pub fn iau_earth() -> Frame {
    almanac().frame_info(IAU_EARTH_FRAME).unwrap()
}
pub fn moon_j2k() -> Frame {
    almanac().frame_info(MOON_J2000).unwrap()
}
pub fn iau_moon() -> Frame {
    almanac().frame_info(IAU_MOON_FRAME).unwrap()
}
pub fn sun_j2k() -> Frame {
    almanac().frame_info(SUN_J2000).unwrap()
}

pub fn epoch0() -> Epoch {
    Epoch::from_gregorian_utc_at_midnight(2021, 3, 1)
}

/// Epoch `s` seconds (rounded to the nanosecond) after the reference epoch of the generated cases.
pub fn ep(s: f64) -> Epoch {
    epoch0() + Duration::from_total_nanoseconds((s * 1e9).round() as i128)
}

pub fn secs(s: f64) -> Duration {
    s * Unit::Second
}

// ---------------------------------------------------------------------------------------------
// Analytic two-body motion (universal variables)
// ---------------------------------------------------------------------------------------------

fn stumpff(z: f64) -> (f64, f64) {
    if z.abs() < 1e-2 {
        // series
        let mut c = 0.0;
        let mut s = 0.0;
        let mut tc = 0.5;
        let mut ts = 1.0 / 6.0;
        for k in 0..12 {
            c += tc;
            s += ts;
            let n = 2.0 * k as f64;
            tc *= -z / ((n + 3.0) * (n + 4.0));
            ts *= -z / ((n + 4.0) * (n + 5.0));
        }
        (c, s)
    } else if z > 0.0 {
        let q = z.sqrt();
        let h = (q / 2.0).sin();
        (2.0 * h * h / z, (q - q.sin()) / (q * z))
    } else {
        let q = (-z).sqrt();
        let h = (q / 2.0).sinh();
        (2.0 * h * h / (-z), (q.sinh() - q) / (q * -z))
    }
}

/// Propagates (r, v) by dt under a point mass mu. Independent of the code under test.
pub fn kepler(r0: V3, v0: V3, mu: f64, dt: f64) -> (V3, V3) {
    let rn = r0.norm();
    let alpha = 2.0 / rn - v0.norm_squared() / mu; // 1/a
    let sq = mu.sqrt();
    let mut dt = dt;
    if alpha > 1e-12 {
        // bring within one period for accuracy
        let per = std::f64::consts::TAU / (mu * alpha.powi(3)).sqrt();
        dt -= (dt / per).round() * per;
    }
    let vr = r0.dot(&v0) / sq;
    let f = |x: f64| {
        let z = alpha * x * x;
        let (c, s) = stumpff(z);
        let val = vr * x * x * c + (1.0 - alpha * rn) * x.powi(3) * s + rn * x - sq * dt;
        let der = vr * x * (1.0 - z * s) + (1.0 - alpha * rn) * x * x * c + rn;
        (val, der)
    };
    // bracket: f is monotonically increasing (derivative is r > 0)
    let (mut lo, mut hi) = (-1.0f64, 1.0f64);
    while f(lo).0 > 0.0 {
        lo *= 2.0;
    }
    while f(hi).0 < 0.0 {
        hi *= 2.0;
    }
    let mut x = 0.5 * (lo + hi);
    for _ in 0..200 {
        let (v, d) = f(x);
        if v > 0.0 {
            hi = x;
        } else {
            lo = x;
        }
        let mut nx = x - v / d;
        if !(nx > lo && nx < hi) {
            nx = 0.5 * (lo + hi);
        }
        let done = (nx - x).abs() <= 1e-15 * x.abs().max(1e-3);
        x = nx;
        if done {
            break;
        }
    }
    let z = alpha * x * x;
    let (c, s) = stumpff(z);
    let fl = 1.0 - x * x / rn * c;
    let g = dt - x.powi(3) / sq * s;
    let r = fl * r0 + g * v0;
    let rr = r.norm();
    let fd = sq / (rr * rn) * x * (z * s - 1.0);
    let gd = 1.0 - x * x / rr * c;
    (r, fd * r0 + gd * v0)
}

// ---------------------------------------------------------------------------------------------
// Reference numerical integrator: Gragg-Bulirsch-Stoer extrapolation with adaptive steps
// ---------------------------------------------------------------------------------------------

/// Integrates y' = f(t, y) from t0 over `dt` seconds (may be negative).
pub fn gbs<const N: usize>(
    f: &dyn Fn(f64, &[f64; N]) -> [f64; N],
    t0: f64,
    y0: [f64; N],
    dt: f64,
    h0: f64,
    tol: f64,
) -> [f64; N] {
    let seq = [2usize, 4, 6, 8, 10, 12, 14, 16];
    let mut t = 0.0;
    let mut y = y0;
    let sgn = dt.signum();
    let mut h = h0.abs().min(dt.abs());
    let mut guard = 0;
    while t < dt.abs() {
        guard += 1;
        if guard > 2_000_000 {
            panic!("reference integrator did not finish");
        }
        if t + h > dt.abs() {
            h = dt.abs() - t;
        }
        let mut tab: Vec<Vec<[f64; N]>> = Vec::new();
        let mut ok = false;
        let mut best = y;
        for (k, &n) in seq.iter().enumerate() {
            let hs = sgn * h / n as f64;
            let tt = t0 + sgn * t;
            let mut z0 = y;
            let f0 = f(tt, &z0);
            let mut z1 = [0.0; N];
            for i in 0..N {
                z1[i] = z0[i] + hs * f0[i];
            }
            for m in 1..n {
                let fm = f(tt + m as f64 * hs, &z1);
                let mut z2 = [0.0; N];
                for i in 0..N {
                    z2[i] = z0[i] + 2.0 * hs * fm[i];
                }
                z0 = z1;
                z1 = z2;
            }
            let fe = f(tt + sgn * h, &z1);
            let mut e = [0.0; N];
            for i in 0..N {
                e[i] = 0.5 * (z1[i] + z0[i] + hs * fe[i]);
            }
            let mut row = vec![e];
            for j in 1..=k {
                let fac = (seq[k] as f64 / seq[k - j] as f64).powi(2) - 1.0;
                let mut w = [0.0; N];
                for i in 0..N {
                    w[i] = row[j - 1][i] + (row[j - 1][i] - tab[k - 1][j - 1][i]) / fac;
                }
                row.push(w);
            }
            if k >= 3 {
                let a = &row[k];
                let b = &row[k - 1];
                let mut err: f64 = 0.0;
                for i in 0..N {
                    let sc = 1e-12 + a[i].abs().max(y[i].abs());
                    err = err.max((a[i] - b[i]).abs() / sc);
                }
                if err < tol {
                    best = *a;
                    ok = true;
                    tab.push(row);
                    break;
                }
            }
            tab.push(row);
        }
        if ok {
            t += h;
            y = best;
            if tab.len() <= 6 {
                h *= 1.5;
            }
            if (dt.abs() - t).abs() < 1e-9 {
                break;
            }
        } else {
            h *= 0.4;
            if h < 1e-6 {
                // accept: rounding floor reached
                t += h;
                y = tab.last().unwrap().last().copied().unwrap();
            }
        }
    }
    y
}

// ---------------------------------------------------------------------------------------------
// Generators
// ---------------------------------------------------------------------------------------------

/// A generated Earth orbit, by classical elements and epoch offset.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenOrbit {
    pub rp_km: f64,
    pub ecc: f64,
    pub inc: f64,
    pub raan: f64,
    pub aop: f64,
    pub ta: f64,
    pub t0_s: f64,
}

impl GenOrbit {
    pub fn rv(&self, mu: f64) -> (V3, V3) {
        let p = self.rp_km * (1.0 + self.ecc);
        let (st, ct) = self.ta.to_radians().sin_cos();
        let r = p / (1.0 + self.ecc * ct);
        let q = rz(self.raan.to_radians()) * rx(self.inc.to_radians()) * rz(self.aop.to_radians());
        let rv = q * V3::new(r * ct, r * st, 0.0);
        let vv = q * V3::new(-st, self.ecc + ct, 0.0) * (mu / p).sqrt();
        (rv, vv)
    }
    pub fn sma(&self) -> f64 {
        self.rp_km / (1.0 - self.ecc)
    }
    pub fn period_s(&self, mu: f64) -> f64 {
        std::f64::consts::TAU * (self.sma().powi(3) / mu).sqrt()
    }
    pub fn epoch(&self) -> Epoch {
        ep(self.t0_s)
    }
    pub fn orbit(&self, frame: Frame) -> Orbit {
        let (r, v) = self.rv(frame.mu_km3_s2().unwrap());
        Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, self.epoch(), frame)
    }
    pub fn earth(&self) -> Orbit {
        self.orbit(eme2k())
    }
}

fn ang() -> BoxedStrategy<f64> {
    prop_oneof![
        8 => 0.0..360.0f64,
        1 => prop::sample::select(vec![0.0, 90.0, 180.0, 270.0]),
    ]
    .boxed()
}

pub fn rnd3(v: f64) -> f64 {
    (v * 1000.0).round() / 1000.0
}

/// Bound orbits with periapsis in [rp0, rp1] and eccentricity below `emax`.
pub fn orbits(rp0: f64, rp1: f64, emax: f64) -> BoxedStrategy<GenOrbit> {
    (
        prop_oneof![3 => rp0..rp1, 1 => rp0..(rp0 + 0.15 * (rp1 - rp0))],
        prop_oneof![3 => 0.0..emax, 1 => 0.0..(0.1 * emax), 1 => Just(0.0)],
        prop_oneof![6 => 0.1..179.9f64, 1 => 85.0..95.0f64, 1 => Just(0.0)],
        ang(),
        ang(),
        ang(),
        prop_oneof![4 => 0.0..3.0e8f64, 1 => Just(0.0)],
    )
        .prop_map(|(rp, e, i, ra, ap, ta, t0)| GenOrbit {
            rp_km: rnd3(rp),
            ecc: e,
            inc: i,
            raan: ra,
            aop: ap,
            ta,
            t0_s: rnd3(t0),
        })
        .boxed()
}

pub fn leo_to_geo() -> BoxedStrategy<GenOrbit> {
    orbits(6700.0, 42000.0, 0.7)
}

pub fn spacecraft(o: Orbit, dry: f64, prop: f64, srp_area: f64, cr: f64, drag_area: f64, cd: f64) -> Spacecraft {
    Spacecraft::builder()
        .orbit(o)
        .mass(Mass::from_dry_and_prop_masses(dry, prop))
        .srp(SRPData {
            area_m2: srp_area,
            coeff_reflectivity: cr,
        })
        .drag(DragData {
            area_m2: drag_area,
            coeff_drag: cd,
        })
        .build()
}

pub fn v6(o: &Orbit) -> Vector6<f64> {
    Vector6::new(
        o.radius_km.x,
        o.radius_km.y,
        o.radius_km.z,
        o.velocity_km_s.x,
        o.velocity_km_s.y,
        o.velocity_km_s.z,
    )
}

/// Scratch directory of this process, removed at exit by `cleanup`.
pub fn scratch() -> std::path::PathBuf {
    static D: OnceLock<std::path::PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("nyxpbt-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    })
    .clone()
}

pub fn scratch_file(ext: &str) -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    scratch().join(format!("f{}.{ext}", N.fetch_add(1, Ordering::Relaxed)))
}

pub fn cleanup() {
    let d = std::env::temp_dir().join(format!("nyxpbt-{}", std::process::id()));
    if d.exists() {
        let _ = std::fs::remove_dir_all(d);
    }
}
