//! P27 estimates and uncertainties, P29 spacecraft parameters and vectors.
use crate::fw::*;
use crate::p_kf::fill;
use crate::req;
use crate::world::*;
use anise::analysis::prelude::OrbitalElement as E;
use nalgebra::{Matrix3, SMatrix, SVector, Vector3};
use nyx_space::cosmic::GuidanceMode;
use nyx_space::dynamics::guidance::{LocalFrame, Thruster};
use nyx_space::mc::{MvnSpacecraft, Pcg64Mcg, StateDispersion};
use nyx_space::md::StateParameter as P;
use nyx_space::od::prelude::{Estimate, KfEstimate};
use nyx_space::od::process::SpacecraftUncertainty;
use nyx_space::{Spacecraft, State};
use proptest::prelude::*;
use rand_distr::Distribution;
use serde::{Deserialize, Serialize};

pub const PROPS: &[fn() -> Prop] = &[p27, p29];

type V3 = Vector3<f64>;
type M6 = SMatrix<f64, 6, 6>;
type V6 = SVector<f64, 6>;
type M9 = SMatrix<f64, 9, 9>;
type V9 = SVector<f64, 9>;

const ELEMS: [E; 19] = [
    E::SemiMajorAxis,
    E::Eccentricity,
    E::Inclination,
    E::RAAN,
    E::AoP,
    E::TrueAnomaly,
    E::X,
    E::Y,
    E::Z,
    E::VX,
    E::VY,
    E::VZ,
    E::Rmag,
    E::Vmag,
    E::Hmag,
    E::Energy,
    E::PeriapsisRadius,
    E::ApoapsisRadius,
    E::SemiParameter,
];

/// The elements of ELEMS, angles in degrees between 0 and 360.
fn elems(x: &V6, mu: f64) -> [f64; 19] {
    let (r, v) = (V3::new(x[0], x[1], x[2]), V3::new(x[3], x[4], x[5]));
    let (rm, vm) = (r.norm(), v.norm());
    let h = r.cross(&v);
    let hm = h.norm();
    let en = vm * vm / 2.0 - mu / rm;
    let a = -mu / (2.0 * en);
    let ev = v.cross(&h) / mu - r / rm;
    let e = ev.norm();
    let n = V3::new(-h.y, h.x, 0.0).normalize();
    let m = h.normalize().cross(&n);
    let d = |y: f64, x: f64| {
        let t = y.atan2(x).to_degrees();
        if t < 0.0 { t + 360.0 } else { t }
    };
    let q = h.normalize().cross(&ev);
    [
        a,
        e,
        (h.z / hm).acos().to_degrees(),
        d(n.y, n.x),
        d(ev.dot(&m), ev.dot(&n)),
        d(q.dot(&r), ev.dot(&r)),
        x[0],
        x[1],
        x[2],
        x[3],
        x[4],
        x[5],
        rm,
        vm,
        hm,
        en,
        a * (1.0 - e),
        a * (1.0 + e),
        hm * hm / mu,
    ]
}

fn v6(s: &Spacecraft) -> V6 {
    let (r, v) = (s.orbit.radius_km, s.orbit.velocity_km_s);
    V6::new(r.x, r.y, r.z, v.x, v.y, v.z)
}

fn v9(s: &Spacecraft) -> V9 {
    let x = v6(s);
    V9::from_iterator(x.iter().copied().chain([s.srp.coeff_reflectivity, s.drag.coeff_drag, s.mass.prop_mass_kg]))
}

/// Far enough from the circular, equatorial and apsidal singularities, and from the wrap of the angles
fn regular(o: &GenOrbit) -> bool {
    let clear = |d: f64| (5.0..175.0).contains(&d.rem_euclid(180.0));
    o.ecc > 0.02 && (3.0..177.0).contains(&o.inc) && clear(o.ta) && clear(o.aop) && clear(o.raan)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Est {
    o: GenOrbit,
    seed: u64,
    sig_r: f64,
    sig_v: f64,
    k: f64,
}

fn ests() -> BoxedStrategy<Est> {
    (orbits(6700.0, 42000.0, 0.75), any::<u64>(), (-5.0..1.0f64), (-9.0..-2.0f64), 0.01..10.0f64)
        .prop_map(|(o, seed, r, v, k)| Est { o, seed, sig_r: 10f64.powf(r), sig_v: 10f64.powf(v), k })
        .boxed()
}

impl Est {
    fn sc(&self) -> Spacecraft {
        spacecraft(self.o.earth(), 300.0, 120.0, 10.0, 1.2, 8.0, 2.2)
    }
    fn covar(&self) -> M9 {
        let f = fill(self.seed, 90);
        let a = M9::from_iterator(f.iter().copied());
        let s = V9::from_iterator((0..9).map(|i| match i {
            0..3 => self.sig_r,
            3..6 => self.sig_v,
            6 => 0.1,
            7 => 0.2,
            _ => 1.0,
        }));
        let d = M9::from_diagonal(&s);
        d * (a * a.transpose() + M9::identity() * 0.1) * d
    }
}

/// Derivatives of the elements by Richardson-extrapolated differences.
fn jacobian(x: &V6, mu: f64) -> SMatrix<f64, 19, 6> {
    let mut j = SMatrix::<f64, 19, 6>::zeros();
    let wrap = |k: usize, d: f64| if (2..6).contains(&k) { (d + 180.0).rem_euclid(360.0) - 180.0 } else { d };
    for c in 0..6 {
        let h = if c < 3 { 1e-4 * x.fixed_rows::<3>(0).norm() } else { 1e-4 * x.fixed_rows::<3>(3).norm() };
        let diff = |h: f64| -> [f64; 19] {
            let (mut p, mut m) = (*x, *x);
            p[c] += h;
            m[c] -= h;
            let (p, m) = (elems(&p, mu), elems(&m, mu));
            std::array::from_fn(|k| wrap(k, p[k] - m[k]) / (2.0 * h))
        };
        let (d1, d2) = (diff(h), diff(h / 2.0));
        for k in 0..19 {
            j[(k, c)] = (4.0 * d2[k] - d1[k]) / 3.0;
        }
    }
    j
}

fn chk_sigma(c: &Est) -> R {
    if !regular(&c.o) {
        return Ok(Out::Discard);
    }
    let sc = c.sc();
    let cov = c.covar();
    let est = KfEstimate::from_covar(sc, cov);
    let mu = sc.orbit.frame.mu_km3_s2().unwrap();
    let j = jacobian(&v6(&sc), mu);
    let p6: M6 = cov.fixed_view::<6, 6>(0, 0).into_owned();
    for (k, el) in ELEMS.iter().enumerate() {
        let row = j.row(k);
        let want = (row * p6 * row.transpose())[(0, 0)].sqrt();
        let got = match est.sigma_for(*el) {
            Ok(g) => g,
            Err(e) => return fail("sigma-error", format!("no sigma for {el}: {e}")),
        };
        req!(close(got, want, 1e-5, 1e-14), "sigma", "the sigma of {el} is {got:e} instead of {want:e}");
    }
    let j6 = j.fixed_view::<6, 6>(0, 0).into_owned();
    let want = j6 * p6 * j6.transpose();
    let got = est.keplerian_covar();
    for a in 0..6 {
        for b in 0..6 {
            let scale = (want[(a, a)] * want[(b, b)]).sqrt();
            req!((got[(a, b)] - want[(a, b)]).abs() <= 3e-5 * scale, "keplerian", "the Keplerian covariance at ({a}, {b}) is {:e} instead of {:e}", got[(a, b)], want[(a, b)]);
        }
    }
    Ok(Out::Hit)
}

fn chk_estimate(c: &Est) -> R {
    let sc = c.sc();
    let cov = c.covar();
    let f = fill(c.seed ^ 0xABCD, 20);
    let mut est = KfEstimate::from_covar(sc, cov);
    req!(est.covar() == cov && est.predicted_covar() == cov && est.state_deviation() == V9::zeros() && v9(&est.nominal_state()) == v9(&sc) && est.epoch() == sc.epoch(), "from-covar", "the estimate does not hold what it was built from");
    req!(*est.stm() == M9::identity(), "from-covar", "the STM of a new estimate is not identity");
    let diag = V9::from_iterator((0..9).map(|i| cov[(i, i)]));
    let de = KfEstimate::from_diag(sc, diag);
    req!(de.covar() == M9::from_diagonal(&diag), "from-diag", "the covariance is not the diagonal");
    // Deviations of up to twice k sigmas
    let dev = V9::from_iterator((0..9).map(|i| f[i] * 1.4 * c.k * diag[i].sqrt()));
    est.set_state_deviation(dev);
    let st = est.state();
    let mut want = v9(&sc) + dev;
    want[6] = want[6].clamp(0.0, 2.0);
    let d = v9(&st) - want;
    req!((0..9).all(|i| d[i].abs() <= 1e-12 * want[i].abs().max(1.0)), "state", "the state {} is not the nominal plus the deviation {want}", v9(&st));
    req!(v9(&est.nominal_state()) == v9(&sc), "state", "the nominal state moved");
    let worst = (0..9).map(|i| dev[i].abs() / diag[i].sqrt()).fold(0.0, f64::max);
    if (worst - c.k).abs() > 1e-9 * c.k {
        req!(est.within_sigma(c.k) == (worst <= c.k), "within", "a deviation of at most {worst} sigmas is {}within {} sigmas", if est.within_sigma(c.k) { "" } else { "not " }, c.k);
    }
    if (worst - 3.0).abs() > 1e-9 {
        req!(est.within_3sigma() == (worst < 3.0), "within", "a deviation of at most {worst} sigmas: within 3 is {}", est.within_3sigma());
    }
    let m = est * c.k;
    req!(((m.covar() - cov * (c.k * c.k)).abs().max()) <= 1e-12 * cov.abs().max() * c.k * c.k, "scale", "an estimate times {} does not scale its sigmas", c.k);
    let mut e2 = est;
    e2.set_covar(cov * 2.0);
    req!(e2.covar() == cov * 2.0, "set-covar", "the covariance set is not the one read");
    Ok(if worst > c.k { Out::Hit } else { Out::Trivial })
}

fn lf(k: u8) -> LocalFrame {
    [LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::VNC, LocalFrame::RCN][k as usize % 4]
}

fn axes(k: u8, r: V3, v: V3) -> Matrix3<f64> {
    let h = r.cross(&v).normalize();
    let (rh, vh) = (r.normalize(), v.normalize());
    match k % 4 {
        0 => Matrix3::identity(),
        1 | 3 => Matrix3::from_columns(&[rh, h.cross(&rh), h]),
        _ => Matrix3::from_columns(&[vh, h, vh.cross(&h)]),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unc {
    o: GenOrbit,
    frame: Option<u8>,
    s: [f64; 9],
    neg: Option<usize>,
    seed: u64,
}

fn uncs() -> BoxedStrategy<Unc> {
    let p = || prop_oneof![1 => Just(0.0), 9 => 1e-4..10.0f64];
    let v = || prop_oneof![1 => Just(0.0), 9 => 1e-7..1e-2f64];
    (orbits(6700.0, 42000.0, 0.75), proptest::option::weighted(0.8, 0u8..4), (p(), p(), p(), v(), v(), v()), (0.0..0.3f64, 0.0..0.3f64, 0.0..20.0f64), proptest::option::weighted(0.1, 0usize..9), any::<u64>())
        .prop_map(|(o, frame, (a, b, c, d, e, f), (g, h, i), neg, seed)| Unc { o, frame, s: [a, b, c, d, e, f, g, h, i], neg, seed })
        .boxed()
}

impl Unc {
    fn build(&self, s: &[f64; 9]) -> SpacecraftUncertainty {
        let sc = spacecraft(self.o.earth(), 300.0, 120.0, 10.0, 1.2, 8.0, 2.2);
        let mut u = SpacecraftUncertainty::builder()
            .nominal(sc)
            .x_km(s[0])
            .y_km(s[1])
            .z_km(s[2])
            .vx_km_s(s[3])
            .vy_km_s(s[4])
            .vz_km_s(s[5])
            .coeff_reflectivity(s[6])
            .coeff_drag(s[7])
            .mass_kg(s[8])
            .build();
        u.frame = self.frame.map(lf);
        u
    }
}

fn chk_unc(c: &Unc) -> R {
    let mut s = c.s;
    if let Some(k) = c.neg {
        s[k] = -s[k] - 1e-9;
        let r = guarded(|| c.build(&s).to_estimate());
        return match r {
            Ok(Err(_)) => Ok(Out::Trivial),
            _ => fail("negative", format!("a negative uncertainty {s:?} is accepted")),
        };
    }
    let u = c.build(&s);
    let est = match guarded(|| u.to_estimate()) {
        Ok(Ok(e)) => e,
        x => return fail("error", format!("no estimate: {:?}", x.map(|x| x.map(|_| ())))),
    };
    req!(v9(&est.nominal_state()) == v9(&u.nominal) && est.state_deviation() == V9::zeros(), "nominal", "the nominal state is not the one provided");
    let cov = est.covar();
    for i in 6..9 {
        for j in 0..9 {
            let want = if i == j { s[i] * s[i] } else { 0.0 };
            req!(cov[(i, j)] == want && cov[(j, i)] == want, "parameters", "the covariance at ({i}, {j}) is {:e} instead of {want:e}", cov[(i, j)]);
        }
    }
    let o = &u.nominal.orbit;
    let k = c.frame.unwrap_or(0);
    let m = axes(k, o.radius_km, o.velocity_km_s);
    let pos = Matrix3::from_diagonal(&V3::new(s[0] * s[0], s[1] * s[1], s[2] * s[2]));
    let got = cov.fixed_view::<3, 3>(0, 0).into_owned();
    let want = m * pos * m.transpose();
    let tol = 1e-9 * pos.max() + 1e-5 * (s[3].max(s[4]).max(s[5])).powi(2) + 1e-18;
    let sym = (cov - cov.transpose()).abs().max();
    req!(sym <= 1e-12 * cov.abs().max(), "symmetric", "the covariance is not symmetric");
    let vel = Matrix3::from_diagonal(&V3::new(s[3] * s[3], s[4] * s[4], s[5] * s[5]));
    let mut known = None;
    if k == 0 {
        let gv = cov.fixed_view::<3, 3>(3, 3).into_owned();
        let cross = cov.fixed_view::<3, 3>(0, 3).into_owned();
        req!((got - want).abs().max() <= 1e-14 * pos.max(), "inertial", "the covariance of the position is {got} instead of {want}");
        req!((gv - vel).abs().max() <= 1e-14 * vel.max() && cross.abs().max() == 0.0, "inertial", "the covariance of the velocity is {gv} instead of {vel}");
    } else {
        // Rotated the other way around?
        let gv = cov.fixed_view::<3, 3>(3, 3).into_owned();
        let tv = 1e-9 * vel.max() + 1e-5 * pos.max() + 1e-18;
        let right = (got - want).abs().max() <= tol && (gv - m * vel * m.transpose()).abs().max() <= tv;
        let back = (got - m.transpose() * pos * m).abs().max() <= tol && (gv - m.transpose() * vel * m).abs().max() <= tv;
        let msg = format!("sigmas {:?} km, km/s in the {:?} frame: the covariance is {cov} instead of {want} in position", &s[..6], lf(k));
        req!(right || back, "local", "{msg}");
        if !right {
            known = Some(msg);
        }
    }
    // Dispersed estimates: from the same seed, the same one, and the covariance is that of the uncertainty
    if (0..9).all(|i| s[i] > 0.0) {
        let r = |x: u64| guarded(|| u.to_estimate_randomized(Some(x as u128)));
        let (a, b, d) = (r(c.seed), r(c.seed), r(c.seed ^ 4));
        let (Ok(Ok(a)), Ok(Ok(b)), Ok(Ok(d))) = (a, b, d) else {
            return fail("randomized", "no dispersed estimate".to_string());
        };
        req!(v9(&a.nominal_state()) == v9(&b.nominal_state()), "seed", "the same seed gives two estimates");
        req!(v9(&a.nominal_state()) != v9(&d.nominal_state()), "seed", "two seeds give the same estimate");
        req!(a.covar() == cov, "randomized", "the covariance of the dispersed estimate is not that of the uncertainty");
        if let Some(ch) = cov.cholesky() {
            let dx = v9(&a.nominal_state()) - v9(&u.nominal);
            let y = ch.l().solve_lower_triangular(&dx).unwrap();
            let m2 = y.norm_squared();
            let lo = k == 0 && u.nominal.srp.coeff_reflectivity + 7.0 * s[6] < 1e9;
            req!(!lo || m2 < 90.0, "far", "the dispersed state is {} sigmas away", m2.sqrt());
        }
    }
    if let Some(msg) = known {
        return fail("transposed", msg);
    }
    Ok(Out::Hit)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Disp {
    o: GenOrbit,
    seed: u64,
    d: Vec<(u8, f64, f64)>,
}

fn disps() -> BoxedStrategy<Disp> {
    (orbits(6900.0, 42000.0, 0.5), any::<u64>(), prop::collection::vec((0u8..9, 1e-4..1.0f64, prop_oneof![Just(0.0), -1.0..1.0f64]), 1..5)).prop_map(|(o, seed, d)| Disp { o, seed, d }).boxed()
}

fn chk_disp(c: &Disp) -> R {
    let sc = spacecraft(c.o.earth(), 300.0, 120.0, 10.0, 1.2, 8.0, 2.2);
    let mut used = std::collections::BTreeSet::new();
    let mut v = vec![];
    for (k, s, m) in &c.d {
        if used.insert(*k) {
            let (p, scale) = match k {
                0 => (P::Element(E::X), 1.0),
                1 => (P::Element(E::Y), 1.0),
                2 => (P::Element(E::Z), 1.0),
                3 => (P::Element(E::VX), 1e-3),
                4 => (P::Element(E::VY), 1e-3),
                5 => (P::Element(E::VZ), 1e-3),
                6 => (P::Element(E::SemiMajorAxis), 1.0),
                7 => (P::Cd(), 0.1),
                _ => (P::PropMass(), 1.0),
            };
            v.push(StateDispersion { param: p, mean: Some(m * scale), std_dev: Some(s * scale) });
        }
    }
    let seed = c.seed as u128;
    let generator = match guarded(|| MvnSpacecraft::new(sc, v.clone())) {
        Ok(Ok(g)) => g,
        _ => return Ok(Out::Discard),
    };
    let want = match guarded(|| generator.sample(&mut Pcg64Mcg::new(seed))) {
        Ok(w) => w.state,
        Err(_) => return Ok(Out::Discard),
    };
    let est = match guarded(|| KfEstimate::from_dispersions(sc, v.clone(), Some(seed)).map_err(|e| e.to_string())) {
        Ok(Ok(e)) => e,
        x => return fail("error", format!("no estimate: {:?}", x.map(|x| x.map(|_| ())))),
    };
    let got = est.state();
    let d = v9(&got) - v9(&want);
    req!(d.fixed_rows::<3>(0).norm() <= 1e-8 && d.fixed_rows::<3>(3).norm() <= 1e-11 && (6..9).all(|i| d[i].abs() < 1e-9), "state", "the estimate {got} is not the dispersed state {want}");
    req!(v9(&est.nominal_state()) == v9(&sc), "nominal", "the nominal state moved");
    let dev = v9(&want) - v9(&sc);
    let cov = est.covar();
    for i in 0..9 {
        for j in 0..9 {
            let w = if i == j { (3.0 * dev[i]).powi(2) } else { 0.0 };
            req!(close(cov[(i, j)], w, 1e-6, 1e-14), "covar", "the covariance at ({i}, {j}) is {:e}, three times the deviation is {w:e}", cov[(i, j)]);
        }
    }
    Ok(Out::Hit)
}

fn p27() -> Prop {
    Prop {
        id: "P27",
        assumptions: &[
            "the derivatives of the elements are compared away from circular, equatorial and apsidal states",
            "only the position part of a covariance in a local frame is specified",
        ],
        subs: vec![
            sub("sigma", "state away from the singularities", 400000, 6000000, ests, chk_sigma),
            sub("estimate", "deviation beyond the bound", 800000, 12000000, ests, chk_estimate),
            sub("uncertainty", "positive uncertainties", 200000, 3000000, uncs, chk_unc),
            sub("dispersions", "all", 300000, 4500000, disps, chk_disp),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// P29
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Set {
    o: GenOrbit,
    thr: Option<(f64, f64)>,
    dir: Option<[f64; 3]>,
    /// Parameters and values in 0..1
    ops: Vec<(u8, f64)>,
    seed: u64,
}

fn sets() -> BoxedStrategy<Set> {
    (
        orbits(6900.0, 42000.0, 0.6),
        proptest::option::of((0.1..100.0f64, 100.0..3000.0f64)),
        proptest::option::of([-1.0..1.0f64, -1.0..1.0, 0.1..1.0]),
        prop::collection::vec((0u8..30, prop_oneof![1 => Just(0.0), 9 => 0.0..1.0f64]), 1..8),
        any::<u64>(),
    )
        .prop_map(|(o, thr, dir, ops, seed)| Set { o, thr, dir, ops, seed })
        .boxed()
}

/// What is observable of a spacecraft.
#[derive(Clone, Debug, PartialEq)]
struct All {
    x: Vec<f64>,
    kep: Vec<f64>,
    rest: Vec<f64>,
    dir: Option<[f64; 3]>,
    mode: GuidanceMode,
}

fn all(s: &Spacecraft) -> All {
    let mu = s.orbit.frame.mu_km3_s2().unwrap();
    All {
        x: v6(s).iter().copied().collect(),
        kep: elems(&v6(s), mu)[..6].to_vec(),
        rest: vec![
            s.drag.coeff_drag,
            s.srp.coeff_reflectivity,
            s.mass.dry_mass_kg,
            s.mass.prop_mass_kg,
            s.thruster.map_or(-1.0, |t| t.isp_s),
            s.thruster.map_or(-1.0, |t| t.thrust_N),
            s.mass.extra_mass_kg,
            s.drag.area_m2,
            s.srp.area_m2,
        ],
        dir: s.thrust_direction.map(|d| [d.x, d.y, d.z]),
        mode: s.mode(),
    }
}

fn chk_set(c: &Set) -> R {
    if !regular(&c.o) {
        return Ok(Out::Discard);
    }
    let mut s = spacecraft(c.o.earth(), 300.0, 120.0, 10.0, 1.2, 8.0, 2.2);
    s.mass.extra_mass_kg = 7.0;
    s.thruster = c.thr.map(|(t, i)| Thruster { thrust_N: t, isp_s: i });
    s.mut_thrust_direction(c.dir.map(|d| V3::new(d[0], d[1], d[2])));
    s.mode = [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit][(c.seed % 3) as usize];
    let mut hit = false;
    for (k, u) in &c.ops {
        let before = all(&s);
        let mut want = before.clone();
        let x = v6(&s);
        let mu = s.orbit.frame.mu_km3_s2().unwrap();
        let kep = elems(&x, mu);
        if !(0.02..0.8).contains(&kep[1]) {
            break;
        }
        enum T {
            X(usize, f64),
            Kep(usize, f64),
            Rest(usize, f64),
            Dir(usize, f64),
            Rmag(f64),
            Vmag(f64),
            ReadOnly,
            NoThruster,
        }
        let (p, t) = match k {
            0 => (P::Cd(), T::Rest(0, 1.0 + 2.0 * u)),
            1 => (P::Cr(), T::Rest(1, 2.0 * u)),
            2 => (P::DryMass(), T::Rest(2, 1000.0 * u)),
            3 => (P::PropMass(), T::Rest(3, 1000.0 * u)),
            4 => (P::Isp(), if s.thruster.is_some() { T::Rest(4, 3000.0 * u) } else { T::NoThruster }),
            5 => (P::Thrust(), if s.thruster.is_some() { T::Rest(5, 30.0 * u) } else { T::NoThruster }),
            6 => (P::ThrustX(), T::Dir(0, 2.0 * u - 1.0)),
            7 => (P::ThrustY(), T::Dir(1, 2.0 * u - 1.0)),
            8 => (P::ThrustZ(), T::Dir(2, 2.0 * u - 1.0)),
            9 => (P::Element(E::SemiMajorAxis), T::Kep(0, kep[0] * (0.9 + 0.3 * u))),
            10 => (P::Element(E::Eccentricity), T::Kep(1, 0.03 + 0.6 * u)),
            11 => (P::Element(E::Inclination), T::Kep(2, 5.0 + 170.0 * u)),
            12 => (P::Element(E::RAAN), T::Kep(3, 1.0 + 358.0 * u)),
            13 => (P::Element(E::AoP), T::Kep(4, 1.0 + 358.0 * u)),
            14 => (P::Element(E::TrueAnomaly), T::Kep(5, 1.0 + 358.0 * u)),
            15 => (P::Element(E::X), T::X(0, x[0] + 20.0 * (u - 0.5))),
            16 => (P::Element(E::Y), T::X(1, x[1] + 20.0 * (u - 0.5))),
            17 => (P::Element(E::Z), T::X(2, x[2] + 20.0 * (u - 0.5))),
            18 => (P::Element(E::VX), T::X(3, x[3] + 0.02 * (u - 0.5))),
            19 => (P::Element(E::VY), T::X(4, x[4] + 0.02 * (u - 0.5))),
            20 => (P::Element(E::VZ), T::X(5, x[5] + 0.02 * (u - 0.5))),
            21 => (P::Element(E::Rmag), T::Rmag(kep[12] * (0.98 + 0.04 * u))),
            22 => (P::Element(E::Vmag), T::Vmag(kep[13] * (0.98 + 0.03 * u))),
            23 => (P::TotalMass(), T::ReadOnly),
            24 => (P::BdotR(), T::ReadOnly),
            25 => (P::GuidanceMode(), T::ReadOnly),
            26 => (P::Element(E::Energy), T::ReadOnly),
            27 => (P::Element(E::PeriapsisRadius), T::ReadOnly),
            28 => (P::ThrustInPlane(LocalFrame::RCN), T::ReadOnly),
            _ => (P::ThrustOutOfPlane(LocalFrame::VNC), T::ReadOnly),
        };
        let val = match t {
            T::X(_, v) | T::Kep(_, v) | T::Rest(_, v) | T::Dir(_, v) | T::Rmag(v) | T::Vmag(v) => v,
            _ => 1.0,
        };
        let r = s.set_value(p, val);
        let after = all(&s);
        if matches!(t, T::ReadOnly | T::NoThruster) {
            req!(r.is_err(), "read-only", "{p} is set");
            if matches!(t, T::NoThruster) {
                req!(s.value(p).is_err(), "no-thruster", "{p} has a value without a thruster");
            }
            req!(after == before, "read-only", "setting {p} fails but changes the state");
            continue;
        }
        if let Err(e) = r {
            return fail("error", format!("{p} cannot be set to {val}: {e}"));
        }
        hit = true;
        let got = match s.value(p) {
            Ok(g) => g,
            Err(e) => return fail("error", format!("{p} has no value after being set: {e}")),
        };
        req!(close(got, val, 1e-8, 1e-9), "value", "{p} set to {val} is {got}");
        let scale6 = [kep[12], kep[12], kep[12], kep[13], kep[13], kep[13]];
        let mut kep_only = false;
        match t {
            T::X(i, v) => want.x[i] = v,
            T::Rest(i, v) => want.rest[i] = v,
            T::Dir(i, v) => {
                let mut d = want.dir.unwrap_or([0.0; 3]);
                d[i] = v;
                want.dir = Some(d);
            }
            T::Rmag(v) => (0..3).for_each(|i| want.x[i] *= v / kep[12]),
            T::Vmag(v) => (3..6).for_each(|i| want.x[i] *= v / kep[13]),
            T::Kep(i, v) => {
                kep_only = true;
                want.kep[i] = v;
            }
            _ => {}
        }
        if kep_only {
            for i in 0..6 {
                let d = (after.kep[i] - want.kep[i]).abs();
                let d = if i >= 2 { d.min(360.0 - d) } else { d };
                let tol = [1e-8 * kep[0], 1e-10, 1e-7, 1e-7, 2e-6, 2e-6][i];
                req!(d <= tol, "others", "{p} set to {val}: the elements go from {:?} to {:?}", before.kep, after.kep);
            }
        } else {
            for i in 0..6 {
                req!((after.x[i] - want.x[i]).abs() <= 1e-13 * scale6[i], "others", "{p} set to {val}: the orbit goes from {:?} to {:?} instead of {:?}", before.x, after.x, want.x);
            }
        }
        req!(after.rest == want.rest && after.mode == want.mode, "others", "{p} set to {val}: {:?} becomes {:?}", before.rest, after.rest);
        match (after.dir, want.dir) {
            (None, None) => {}
            (Some(a), Some(b)) if (0..3).all(|i| (a[i] - b[i]).abs() < 1e-14) => {}
            (a, b) => return fail("direction", format!("{p} set to {val}: the thrust direction is {a:?} instead of {b:?}")),
        }
    }
    // What is read only
    let tot = s.value(P::TotalMass()).unwrap_or(f64::NAN);
    req!(close(tot, s.mass.dry_mass_kg + s.mass.prop_mass_kg + s.mass.extra_mass_kg, 1e-14, 1e-12), "total", "the total mass is {tot} of {:?}", s.mass);
    req!(s.mass_kg() == tot, "total", "two total masses");
    let m = s.value(P::GuidanceMode()).unwrap_or(f64::NAN);
    req!(GuidanceMode::from(m) == s.mode(), "mode", "{:?} reads as {m}", s.mode());
    let kep = elems(&v6(&s), s.orbit.frame.mu_km3_s2().unwrap());
    for (k, el) in ELEMS.iter().enumerate() {
        if kep[1] < 0.01 || kep[1] > 0.9 {
            break;
        }
        let got = s.value(P::Element(*el)).unwrap_or(f64::NAN);
        let d = (got - kep[k]).abs();
        let d = if (2..6).contains(&k) { d.min((360.0 - d).abs()) } else { d };
        req!(d <= 1e-7 * kep[k].abs().max(1.0) + if k >= 4 && k < 6 { 2e-6 } else { 0.0 }, "element", "{el} is {got} instead of {}", kep[k]);
    }
    Ok(if hit { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vecs {
    o: GenOrbit,
    seed: u64,
    stm: bool,
    t_s: f64,
    cr: f64,
}

fn chk_vec(c: &Vecs) -> R {
    let f = fill(c.seed, 120);
    // Drag coefficients of either side of the usual ones, and below zero after an addition
    let mut s = spacecraft(c.o.earth(), 300.0, 120.0, 10.0, c.cr, 8.0, 2.2 + 3.0 * f[100]);
    s.mode = [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit][(c.seed % 3) as usize];
    if c.seed % 5 != 0 {
        s.thruster = Some(Thruster { thrust_N: 0.3, isp_s: 1500.0 });
    }
    if c.stm {
        s.stm = Some(M9::from_iterator(f.iter().copied()));
    }
    let v = s.to_vector();
    let x = v9(&s);
    for i in 0..9 {
        req!(v[i] == x[i], "vector", "component {i} of the vector is {} instead of {}", v[i], x[i]);
    }
    for j in 0..9 {
        for i in 0..9 {
            let w = if c.stm { f[9 * j + i] } else { 0.0 };
            req!(v[9 + 9 * j + i] == w, "vector", "the STM at ({i}, {j}) is {} instead of {w} in the vector", v[9 + 9 * j + i]);
        }
    }
    // Another state set from that vector is that state
    let mut o = spacecraft(c.o.earth(), 10.0, 1.0, 3.0, 1.0, 2.0, 1.0);
    if c.stm {
        o.enable_stm();
    }
    let t = s.epoch() + secs(c.t_s);
    o.set(t, &v);
    req!(v9(&o) == x && o.epoch() == t, "set", "set from {x}, the state is {} at {}", v9(&o), o.epoch());
    req!(o.stm().ok() == s.stm().ok(), "set", "set with the STM {:?}, the state holds {:?}", s.stm, o.stm);
    req!(o.mass.dry_mass_kg == 10.0 && o.srp.area_m2 == 3.0 && o.drag.area_m2 == 2.0, "set", "setting the vector changes the dry mass or the areas");
    req!(o.to_vector() == v, "set", "the vector of the state is not the one it was set from");
    // Additions
    let d9 = V9::from_iterator((0..9).map(|i| f[90 + i] * [5.0, 5.0, 5.0, 0.1, 0.1, 0.1, 0.05, 0.1, 20.0][i]));
    let a = s + d9;
    let mut w = x + d9;
    w[6] = w[6].clamp(0.0, 2.0);
    req!(v9(&a) == w && a.epoch() == s.epoch() && a.mass.dry_mass_kg == 300.0 && a.stm == s.stm, "add", "{x} plus {d9} is {}", v9(&a));
    let d6 = d9.fixed_rows::<6>(0).into_owned();
    let b = s + d6;
    req!(v6(&b) == v6(&s) + d6 && v9(&b).fixed_rows::<3>(6) == x.fixed_rows::<3>(6), "add", "{x} plus {d6} is {}", v9(&b));
    match s.rss(&a) {
        Ok((p, v, m)) => {
            let (dp, dv) = (d9.fixed_rows::<3>(0).norm(), d9.fixed_rows::<3>(3).norm());
            req!(close(p, dp, 1e-9, 1e-11) && close(v, dv, 1e-9, 1e-13) && close(m, d9[8].abs(), 1e-9, 1e-12), "rss", "{dp} km, {dv} km/s and {} kg apart, the RSS is {p} {v} {m}", d9[8].abs());
        }
        Err(e) => return fail("rss", e.to_string()),
    }
    // Resets
    let mut r = s;
    r.reset_stm();
    req!(r.stm().ok() == Some(M9::identity()), "stm", "a reset STM is {:?}", r.stm);
    r.unset_stm();
    req!(r.stm().is_err(), "stm", "an unset STM is {:?}", r.stm);
    req!(s.with_stm().stm().ok() == Some(M9::identity()), "stm", "with_stm does not start from identity");
    r.set_epoch(t);
    req!(r.epoch() == t && v9(&r) == x, "epoch", "setting the epoch: {r}");
    // Copies with one property replaced
    let q = s.with_dry_mass(1.5).with_prop_mass(2.5).with_srp(3.5, 0.5).with_drag(4.5, 0.25);
    req!(q.mass.dry_mass_kg == 1.5 && q.mass.prop_mass_kg == 2.5 && q.srp.area_m2 == 3.5 && q.srp.coeff_reflectivity == 0.5 && q.drag.area_m2 == 4.5 && q.drag.coeff_drag == 0.25 && v6(&q) == v6(&s), "with", "replaced: {q:?}");
    let same = |q: &Spacecraft| q.stm == s.stm && q.mode == s.mode && q.thruster == s.thruster && q.mass.extra_mass_kg == s.mass.extra_mass_kg;
    req!(same(&q), "with-others", "replacing one property changes another: {q:?}");
    let q = s.with_srp_area(3.5).with_drag_area(4.5).with_cr(0.5).with_cd(0.25).with_dv_km_s(V3::new(d6[3], d6[4], d6[5]));
    let mut w6 = v6(&s);
    (3..6).for_each(|i| w6[i] += d6[i]);
    req!(q.srp.area_m2 == 3.5 && q.drag.area_m2 == 4.5 && q.srp.coeff_reflectivity == 0.5 && q.drag.coeff_drag == 0.25 && v6(&q) == w6 && q.mass == s.mass, "with", "replaced: {q:?}");
    req!(same(&q), "with-others", "replacing one property changes another: {q:?}");
    let q = s.with_orbit(o.orbit);
    req!(q.orbit == o.orbit && same(&q) && q.mass == s.mass && q.srp == s.srp && q.drag == s.drag, "with-orbit", "with another orbit: {q:?}");
    Ok(if c.stm { Out::Hit } else { Out::Trivial })
}

fn p29() -> Prop {
    Prop {
        id: "P29",
        assumptions: &["elements are compared away from circular, equatorial and apsidal states", "the coefficient of reflectivity is kept between 0 and 2"],
        subs: vec![
            sub("parameters", "at least one parameter is set", 800000, 12000000, sets, chk_set),
            sub("vectors", "with an STM", 600000, 9000000, || (leo_to_geo(), any::<u64>(), any::<bool>(), -1e6..1e6f64, 0.0..2.0f64).prop_map(|(o, seed, stm, t, cr)| Vecs { o, seed, stm, t_s: rnd3(t), cr }).boxed(), chk_vec),
        ],
    }
}
