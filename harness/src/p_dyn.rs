//! P04 state transition matrices and partials, P05 force models, P28 gravity field files.
use crate::fw::*;
use crate::req;
use crate::world::*;
use anise::constants::celestial_objects::{EARTH, JUPITER_BARYCENTER, MOON, SUN};
use anise::constants::frames::EARTH_J2000;
use anise::prelude::{Aberration, Frame, Orbit};
use hifitime::Duration;
use nalgebra::{Matrix3, SMatrix, Vector3};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::dynamics::{
    AccelModel, ConstantDrag, Dynamics, ForceModel, GravityField, OrbitalDynamics, PointMasses, SolarPressure, SolidTides, SpacecraftDynamics, TidalPerturber,
};
use nyx_space::io::gravity::{GravityFieldConfig, GravityFieldData};
use nyx_space::propagators::{IntegratorOptions, Propagator};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub const PROPS: &[fn() -> Prop] = &[p04, p05, p28];

type V3 = Vector3<f64>;
type M9 = SMatrix<f64, 9, 9>;

/// A generated gravity field: normalised coefficients, by degree then order.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Field {
    pub deg: usize,
    pub ord: usize,
    pub c: Vec<f64>, // (n, m) in file order starting at degree 2
    pub s: Vec<f64>,
    pub scale: f64,
}

impl Field {
    pub fn terms(&self) -> Vec<(usize, usize, f64, f64)> {
        let mut v = Vec::new();
        let mut k = 0;
        for n in 2..=self.deg {
            for m in 0..=n.min(self.ord) {
                let sc = self.scale / (n * n) as f64;
                let c = self.c[k % self.c.len()] * sc;
                let s = if m == 0 { 0.0 } else { self.s[k % self.s.len()] * sc };
                v.push((n, m, c, s));
                k += 1;
            }
        }
        v
    }
    pub fn shadr(&self) -> String {
        let mut t = String::from("header line\n");
        for (n, m, c, s) in self.terms() {
            t += &format!("{n:5} {m:5} {c:.17e} {s:.17e} 0.0 0.0\n");
        }
        t
    }
    pub fn load(&self, frame: Frame) -> Result<GravityFieldData, Fail> {
        let p = scratch_file("tab");
        std::fs::write(&p, self.shadr()).unwrap();
        let r = GravityFieldData::from_shadr(&p, self.deg, self.ord, false, frame);
        let _ = std::fs::remove_file(&p);
        r.map_err(|e| Fail { sig: "load".into(), msg: format!("cannot load a gravity file: {e}") })
    }
}

pub fn fields(maxdeg: usize) -> BoxedStrategy<Field> {
    (2..=maxdeg)
        .prop_flat_map(|deg| {
            (
                Just(deg),
                prop_oneof![3 => Just(deg), 1 => 0..=deg],
                prop::collection::vec(prop_oneof![5 => -1.0..1.0f64, 1 => Just(0.0)], 7..40),
                prop::collection::vec(prop_oneof![5 => -1.0..1.0f64, 1 => Just(0.0)], 7..40),
                prop_oneof![Just(1e-5), Just(1e-3), Just(1e-6)],
            )
        })
        .prop_map(|(deg, ord, c, s, scale)| Field { deg, ord, c, s, scale })
        .boxed()
}

fn fact(n: usize) -> f64 {
    (1..=n).map(|x| x as f64).product()
}

/// Cunningham's recursions on unnormalised coefficients (Montenbruck & Gill 3.2.5): acceleration in the body frame.
pub fn cunningham(f: &Field, mu: f64, re: f64, r: V3) -> V3 {
    let nmax = f.deg + 2;
    let r2 = r.norm_squared();
    let rho = re * re / r2;
    let (x, y, z) = (re * r.x / r2, re * r.y / r2, re * r.z / r2);
    let mut v = vec![vec![0.0; nmax + 1]; nmax + 1];
    let mut w = vec![vec![0.0; nmax + 1]; nmax + 1];
    v[0][0] = re / r2.sqrt();
    for m in 0..=nmax {
        if m > 0 {
            let k = (2 * m - 1) as f64;
            v[m][m] = k * (x * v[m - 1][m - 1] - y * w[m - 1][m - 1]);
            w[m][m] = k * (x * w[m - 1][m - 1] + y * v[m - 1][m - 1]);
        }
        for n in m + 1..=nmax {
            let a = (2 * n - 1) as f64 / (n - m) as f64;
            v[n][m] = a * z * v[n - 1][m];
            w[n][m] = a * z * w[n - 1][m];
            if n >= m + 2 {
                let b = (n + m - 1) as f64 / (n - m) as f64;
                v[n][m] -= b * rho * v[n - 2][m];
                w[n][m] -= b * rho * w[n - 2][m];
            }
        }
    }
    let mut acc = V3::zeros();
    for (n, m, cb, sb) in f.terms() {
        let d = if m == 0 { 1.0 } else { 2.0 };
        let nf = (d * (2 * n + 1) as f64 * fact(n - m) / fact(n + m)).sqrt();
        let (c, s) = (cb * nf, sb * nf);
        if m == 0 {
            acc.x += -c * v[n + 1][1];
            acc.y += -c * w[n + 1][1];
        } else {
            let q = ((n - m + 2) * (n - m + 1)) as f64;
            acc.x += 0.5 * (-c * v[n + 1][m + 1] - s * w[n + 1][m + 1] + q * (c * v[n + 1][m - 1] + s * w[n + 1][m - 1]));
            acc.y += 0.5 * (-c * w[n + 1][m + 1] + s * v[n + 1][m + 1] + q * (-c * w[n + 1][m - 1] + s * v[n + 1][m - 1]));
        }
        acc.z += (n - m + 1) as f64 * (-c * v[n + 1][m] - s * w[n + 1][m]);
    }
    acc * mu / (re * re)
}

fn bodies() -> BoxedStrategy<Vec<i32>> {
    prop::sample::subsequence(vec![MOON, SUN, JUPITER_BARYCENTER, EARTH], 1..=4).prop_shuffle().boxed()
}

pub fn err(e: impl std::fmt::Display) -> Fail {
    Fail { sig: "err".into(), msg: format!("{e}") }
}

/// Central differences of an acceleration with respect to the position.
fn fd_accel(o: &Orbit, h: f64, f: &dyn Fn(&Orbit) -> Result<V3, Fail>) -> Result<Matrix3<f64>, Fail> {
    let mut m = Matrix3::zeros();
    for j in 0..3 {
        let ev = |k: f64| {
            let mut p = *o;
            p.radius_km[j] += k * h;
            f(&p)
        };
        let c = (8.0 * (ev(1.0)? - ev(-1.0)?) - (ev(2.0)? - ev(-2.0)?)) / (12.0 * h);
        m.set_column(j, &c);
    }
    Ok(m)
}

fn near(a: &Matrix3<f64>, b: &Matrix3<f64>, rel: f64, floor: f64) -> bool {
    (a - b).norm() <= rel * b.norm() + floor
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dyn {
    bodies: Vec<i32>,
    field: Option<Field>,
    srp: bool,
}

impl Dyn {
    fn build(&self) -> Result<SpacecraftDynamics, Fail> {
        let al = almanac();
        let mut acc: Vec<Arc<dyn AccelModel + Sync>> = Vec::new();
        if !self.bodies.is_empty() {
            acc.push(Arc::new(PointMasses::new(self.bodies.clone())));
        }
        if let Some(f) = &self.field {
            acc.push(GravityField::new(f.load(iau_earth())?));
        }
        let orb = OrbitalDynamics::new(acc);
        Ok(if self.srp {
            SpacecraftDynamics::from_model(orb, SolarPressure::default_flux_raw(vec![], &al).map(Arc::new).map_err(err)?)
        } else {
            SpacecraftDynamics::new(orb)
        })
    }
}

fn dyns() -> BoxedStrategy<Dyn> {
    (
        prop_oneof![2 => bodies(), 1 => Just(vec![])],
        prop::option::weighted(0.5, fields(8)),
        prop::bool::ANY,
    )
        .prop_map(|(bodies, field, srp)| Dyn { bodies, field, srp })
        .boxed()
}

/// The tide raised by the perturbers: each deforms the body proportionally to its own potential, so the
/// extra potential is sum k_n mu_j R^(2n+1) / (r_j r)^(n+1) P_n(cos of the angle between both directions).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tide {
    k2: f64,
    k3: f64,
    who: Vec<(u8, bool)>,
    moon: bool, // tides of the Moon raised by the Earth, the Sun and Jupiter
}

fn tides() -> BoxedStrategy<Tide> {
    (0.0..1.0f64, 0.0..1.0f64, prop::sample::subsequence(vec![0u8, 1, 2], 1..=3), prop::collection::vec(prop::bool::ANY, 3), prop::bool::weighted(0.3))
        .prop_map(|(k2, k3, w, d, moon)| Tide { k2, k3, who: w.into_iter().zip(d).collect(), moon })
        .boxed()
}

impl Tide {
    fn frame(&self) -> Frame {
        if self.moon { iau_moon() } else { iau_earth() }
    }
    fn bodies(&self) -> Vec<(Frame, f64, bool)> {
        let al = almanac();
        let jup = al.frame_info(EARTH_J2000.with_ephem(JUPITER_BARYCENTER)).unwrap();
        let first = if self.moon { (eme2k(), MU_EARTH) } else { (moon_j2k(), MU_MOON) };
        let all = [first, (sun_j2k(), MU_SUN), (jup, MU_JUP)];
        self.who.iter().map(|(i, d3)| (all[*i as usize].0, all[*i as usize].1, *d3)).collect()
    }
    fn model(&self) -> SolidTides {
        SolidTides {
            frame: self.frame(),
            k2: self.k2,
            k3: self.k3,
            perturbers: self.bodies().into_iter().map(|(frame, _, d)| TidalPerturber { frame, compute_degree_3: d }).collect(),
        }
    }
    /// Acceleration at a position of the body fixed frame, and the sum of the magnitudes of its terms.
    fn accel(&self, r: V3, epoch: hifitime::Epoch) -> Result<(V3, f64), Fail> {
        let al = almanac();
        let rad: f64 = if self.moon { 1737.4 } else { 6378.1366 };
        let mut a = V3::zeros();
        let mut big = 0.0;
        for (f, mu, d3) in self.bodies() {
            let p = al.transform(f, self.frame(), epoch, None).map_err(err)?.radius_km;
            let (rj, uj) = (p.norm(), p / p.norm());
            let (rn, u) = (r.norm(), r / r.norm());
            let c = u.dot(&uj);
            for n in 2..=(if d3 { 3 } else { 2 }) {
                let (k, pn, dpn) = if n == 2 { (self.k2, 1.5 * c * c - 0.5, 3.0 * c) } else { (self.k3, 2.5 * c.powi(3) - 1.5 * c, 7.5 * c * c - 1.5) };
                let w = k * mu * rad.powi(2 * n + 1) / (rj * rn).powi(n + 1) / rn;
                a += w * (-((n + 1) as f64) * pn * u + dpn * (uj - c * u));
                big += w;
            }
        }
        Ok((a, big))
    }
}

fn tight() -> IntegratorOptions {
    IntegratorOptions { max_step: secs(600.0), tolerance: 1e-13, ..IntegratorOptions::default() }
}

fn p04() -> Prop {
    Prop {
        id: "P04",
        assumptions: &[
            "partials with respect to drag are not provided by the code (it returns an error) and guidance laws refuse them: not claimed",
            "solar pressure partials are checked in full sunlight",
        ],
        subs: vec![
            sub(
                "model-partials",
                "third body, gravity field, solid tides or solar pressure partials compared to differences",
                8000,
                160000,
                || (leo_to_geo(), 0u8..4, bodies(), fields(12), 0.1..50.0f64, prop_oneof![4 => 0.5..2.0f64, 1 => Just(0.0)], prop::bool::weighted(0.3), tides()),
                |c: &(GenOrbit, u8, Vec<i32>, Field, f64, f64, bool, Tide)| {
                    let (o, kind, bd, fl, area, cr, moonc, td) = c;
                    let al = almanac();
                    let mut orb = o.earth();
                    if *moonc && *kind != 1 {
                        orb = al.transform_to(orb, moon_j2k(), None).map_err(err)?;
                    }
                    match kind {
                        0 => {
                            let m = PointMasses::new(bd.clone());
                            let (a, g) = m.gradient(&orb, &al).map_err(err)?;
                            let a0 = m.eom(&orb, &al).map_err(err)?;
                            req!((a - a0).norm() <= 1e-12 * a0.norm() + 1e-22, "accel", "acceleration with partials {a:?} differs from {a0:?}");
                            // Direct tidal tensor of each body.
                            let mut want = Matrix3::zeros();
                            for b in bd {
                                if orb.frame.ephem_origin_id_match(*b) {
                                    continue;
                                }
                                let fr = al.frame_info(orb.frame.with_ephem(*b)).map_err(err)?;
                                let rij = al.transform(fr, orb.frame, orb.epoch, None).map_err(err)?.radius_km;
                                let rj = orb.radius_km - rij;
                                let n = rj.norm();
                                want += -fr.mu_km3_s2().unwrap() * (Matrix3::identity() / n.powi(3) - 3.0 * rj * rj.transpose() / n.powi(5));
                            }
                            req!(near(&g, &want, 1e-9, 1e-22), "tidal", "third body {bd:?} partials {g} expected {want}");
                        }
                        1 => {
                            let gf = GravityField::new(fl.load(iau_earth())?);
                            let (a, g) = gf.gradient(&orb, &al).map_err(err)?;
                            let a0 = gf.eom(&orb, &al).map_err(err)?;
                            req!((a - a0).norm() <= 1e-10 * a0.norm() + 1e-22, "accel", "acceleration with partials {a:?} differs from {a0:?}");
                            let fd = fd_accel(&orb, 2.0, &|p| gf.eom(p, &al).map_err(err))?;
                            let base = orb.frame.mu_km3_s2().unwrap() / orb.rmag_km().powi(3);
                            req!(near(&g, &fd, 2e-6, 1e-13 * base), "field", "gravity field partials {g} differences {fd}");
                            // The potential is harmonic and the field conservative.
                            req!(g.trace().abs() <= 1e-8 * g.norm() + 1e-16 * base, "laplace", "trace {:e} of {g}", g.trace());
                            req!((g - g.transpose()).norm() <= 1e-8 * g.norm() + 1e-16 * base, "curl", "asymmetric partials {g}");
                        }
                        3 => {
                            let td = Tide { moon: false, ..td.clone() };
                            let m = td.model();
                            let orb = o.earth();
                            let (a, g) = m.gradient(&orb, &al).map_err(err)?;
                            let a0 = m.eom(&orb, &al).map_err(err)?;
                            let (_, big) = td.accel(orb.radius_km, orb.epoch)?;
                            req!((a - a0).norm() <= 1e-11 * big, "accel", "acceleration with partials {a:?} differs from {a0:?}");
                            let fd = fd_accel(&orb, 2.0, &|p| m.eom(p, &al).map_err(err))?;
                            let base = big / orb.rmag_km();
                            req!(near(&g, &fd, 1e-7, 1e-8 * base), "tides", "solid tides partials {g} differences {fd}");
                            req!(g.trace().abs() <= 1e-9 * base, "laplace", "trace {:e} of {g}", g.trace());
                            req!((g - g.transpose()).norm() <= 1e-9 * base, "curl", "asymmetric partials {g}");
                        }
                        _ => {
                            let srp = SolarPressure::default_flux_raw(vec![], &al).map_err(err)?;
                            let sc = spacecraft(orb, 100.0, 0.0, *area, *cr, 1.0, 2.0);
                            let (a, g) = srp.gradient(&sc, &al).map_err(err)?;
                            let a0 = srp.eom(&sc, &al).map_err(err)?;
                            req!((a - a0).norm() <= 1e-12 * a0.norm(), "accel", "force with partials {a:?} differs from {a0:?}");
                            let fd = fd_accel(&orb, 1e5, &|p| srp.eom(&sc.with_orbit(*p), &al).map_err(err))?;
                            let gp = g.fixed_view::<3, 3>(0, 0).into_owned();
                            req!(near(&gp, &fd, 1e-5, 1e-9 * a0.norm() / AU), "srp", "solar pressure partials {gp} differences {fd}");
                            let one = srp.eom(&spacecraft(orb, 100.0, 0.0, *area, 1.0, 1.0, 2.0), &al).map_err(err)?;
                            let gcr = V3::new(g[(3, 0)], g[(3, 1)], g[(3, 2)]);
                            req!((gcr - one).norm() <= 1e-10 * one.norm(), "cr", "partial with respect to Cr is {gcr:?}, expected {one:?}");
                        }
                    }
                    Ok(Out::Hit)
                },
            ),
            sub(
                "derivative",
                "the derivative with a transition matrix agrees with the one without",
                3000,
                60000,
                || (leo_to_geo(), dyns(), prop::collection::vec(-1.0..1.0f64, 81), 0.1..50.0f64, 0.0..2.0f64, 0.0..1000.0f64),
                |c: &(GenOrbit, Dyn, Vec<f64>, f64, f64, f64)| {
                    // d(stm)/dt = A * stm where A are the partials of the derivative; nothing else changes.
                    let (o, d, phi, area, cr, dt) = c;
                    let al = almanac();
                    let dynm = d.build()?;
                    let mut sc = spacecraft(o.earth(), 100.0, 20.0, *area, *cr, 1.0, 2.0);
                    sc.mass.extra_mass_kg = 3.0 * *area;
                    let plain = dynm.eom(*dt, &sc.to_vector(), &sc, &al).map_err(err)?;
                    let mut with = sc.with_stm();
                    let st = M9::from_column_slice(phi);
                    with.stm = Some(st);
                    let full = dynm.eom(*dt, &with.to_vector(), &with, &al).map_err(err)?;
                    for i in 0..9 {
                        req!(close(plain[i], full[i], 1e-10, 1e-20), "state", "component {i} of the derivative is {:e} with a transition matrix and {:e} without", full[i], plain[i]);
                        req!(i >= 3 || close(plain[i], sc.orbit.velocity_km_s[i], 0.0, 0.0), "kin", "position derivative {i} is not the velocity");
                    }
                    let still = Dyn { srp: false, ..d.clone() }.build()?;
                    if d.srp {
                        // A coefficient which is not estimated has no partials.
                        let mut quiet = SolarPressure::default_flux_raw(vec![], &al).map_err(err)?;
                        quiet.estimate = false;
                        let (_, a) = SpacecraftDynamics::from_model(still.orbital_dyn.clone(), Arc::new(quiet)).dual_eom(0.0, &sc, &al).map_err(err)?;
                        req!(a.column(6).norm() == 0.0, "not-estimated", "partials {:e} with respect to a reflectivity which is not estimated", a.column(6).norm());
                    }
                    let osc = sc.set_with_delta_seconds(*dt, &sc.to_vector());
                    let (_, a) = dynm.dual_eom(*dt, &osc, &al).map_err(err)?;
                    let want = a * st;
                    let got = M9::from_column_slice(&full.as_slice()[9..90]);
                    req!((got - want).norm() <= 1e-10 * want.norm(), "stm-dot", "derivative of the transition matrix off by {:e}", (got - want).norm() / want.norm());
                    Ok(Out::Hit)
                },
            ),
            sub(
                "stm-differences",
                "propagated for more than ten minutes",
                500,
                8000,
                || (orbits(6800.0, 30000.0, 0.4), dyns(), prop_oneof![3 => -9000.0..9000.0f64, 1 => -300.0..300.0f64], 1.0..50.0f64, 0.5..1.8f64, 0u8..2),
                |c: &(GenOrbit, Dyn, f64, f64, f64, u8)| {
                    let (o, d, dur, area, cr, meth) = c;
                    let al = almanac();
                    let dynm = d.build()?;
                    let prop = if *meth == 0 { Propagator::rk89(dynm, tight()) } else { Propagator::dp78(dynm, tight()) };
                    let mut sc = spacecraft(o.earth(), 100.0, 0.0, *area, *cr, 1.0, 2.0);
                    sc.mass.extra_mass_kg = 2.0 * *area;
                    let dd = secs(*dur);
                    let run = |s: Spacecraft| prop.with(s, al.clone()).quiet().for_duration(dd).map_err(err);
                    let ref_ = run(sc)?;
                    let out = run(sc.with_stm())?;
                    let dr = (v6(&ref_.orbit) - v6(&out.orbit)).fixed_rows::<3>(0).norm();
                    req!(dr < 1e-6, "nominal", "computing the transition matrix moves the end state by {dr:e} km");
                    let phi = out.stm.ok_or_else(|| Fail { sig: "nostm".into(), msg: "no transition matrix".into() })?;
                    let hs = [0.05, 0.05, 0.05, 5e-5, 5e-5, 5e-5];
                    let mut fd = M9::identity();
                    for j in 0..6 {
                        let pert = |k: f64| {
                            let mut s = sc;
                            if j < 3 {
                                s.orbit.radius_km[j] += k * hs[j];
                            } else {
                                s.orbit.velocity_km_s[j - 3] += k * hs[j];
                            }
                            run(s)
                        };
                        let col = (v6(&pert(1.0)?.orbit) - v6(&pert(-1.0)?.orbit)) / (2.0 * hs[j]);
                        for i in 0..6 {
                            fd[(i, j)] = col[i];
                        }
                    }
                    // Scale velocities to positions with the mean motion.
                    let w = MU_EARTH.sqrt() / o.rp_km.powf(1.5);
                    let mut num = 0.0f64;
                    let mut den = 1.0f64;
                    for i in 0..6 {
                        for j in 0..6 {
                            let s = if i >= 3 { 1.0 / w } else { 1.0 } * if j >= 3 { w } else { 1.0 };
                            num += ((phi[(i, j)] - fd[(i, j)]) * s).powi(2);
                            den += (fd[(i, j)] * s).powi(2);
                        }
                    }
                    let rel = (num / den).sqrt();
                    if std::env::var("VERIF_DEBUG").is_ok() {
                        eprintln!("STM {rel:e}");
                    }
                    req!(rel < 2e-6, "orbit", "transition matrix differs from finite differences by {rel:e} (relative)");
                    // Column of the reflectivity coefficient.
                    let pc = |k: f64| {
                        let mut s = sc;
                        s.srp.coeff_reflectivity += k;
                        run(s)
                    };
                    let ccol = (v6(&pc(0.2)?.orbit) - v6(&pc(-0.2)?.orbit)) / 0.4;
                    let pcol = phi.fixed_view::<6, 1>(0, 6).into_owned();
                    let (mut n, mut dn) = (0.0f64, 0.0f64);
                    for i in 0..6 {
                        let s = if i >= 3 { 1.0 / w } else { 1.0 };
                        n += ((pcol[i] - ccol[i]) * s).powi(2);
                        dn += (ccol[i] * s).powi(2);
                    }
                    req!(n.sqrt() <= 1e-2 * dn.sqrt() + 3e-7, "cr", "reflectivity column {pcol:?} differs from differences {ccol:?}");
                    Ok(if dur.abs() > 600.0 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "stm-group",
                "two legs of more than a minute",
                800,
                16000,
                || (orbits(6800.0, 30000.0, 0.4), dyns(), -6000.0..6000.0f64, -6000.0..6000.0f64),
                |c: &(GenOrbit, Dyn, f64, f64)| {
                    let (o, d, d1, d2) = c;
                    let al = almanac();
                    let prop = Propagator::rk89(d.build()?, tight());
                    let sc = spacecraft(o.earth(), 100.0, 0.0, 1.0, 1.2, 1.0, 2.0).with_stm();
                    let run = |s: Spacecraft, t: Duration| prop.with(s, al.clone()).quiet().for_duration(t).map_err(err);
                    let phi = |s: &Spacecraft| s.stm.unwrap();
                    let w = MU_EARTH.sqrt() / o.rp_km.powf(1.5);
                    let sc9 = |m: M9| {
                        let mut r = SMatrix::<f64, 6, 6>::zeros();
                        for i in 0..6 {
                            for j in 0..6 {
                                r[(i, j)] = m[(i, j)] * if i >= 3 { 1.0 / w } else { 1.0 } * if j >= 3 { w } else { 1.0 };
                            }
                        }
                        r
                    };
                    let a = run(sc, secs(*d1))?;
                    // Chained without a reset: the matrix accumulates.
                    let ab = run(a, secs(*d2))?;
                    // With a reset: matrix of the second leg only.
                    let b = run(a.with_stm(), secs(*d2))?;
                    let p = sc9(phi(&b) * phi(&a));
                    let q = sc9(phi(&ab));
                    req!((p - q).norm() <= 1e-6 * p.norm(), "chain", "accumulated matrix differs from the product by {:e}", (p - q).norm() / p.norm());
                    // Going back gives the inverse.
                    let back = run(a.with_stm(), -secs(*d1))?;
                    let id = sc9(phi(&back) * phi(&a));
                    let e = (id - SMatrix::<f64, 6, 6>::identity()).norm();
                    req!(e <= 1e-6 * sc9(phi(&a)).norm().powi(2), "inverse", "forward then backward matrices do not cancel: {e:e}");
                    // Conservative forces: symplectic, so the determinant is one.
                    let det = sc9(phi(&a)).determinant();
                    req!((det - 1.0).abs() < 1e-6 * sc9(phi(&a)).norm().powi(2), "det", "determinant {det}");
                    // Parameters are constant.
                    for i in 6..9 {
                        for j in 0..9 {
                            req!(phi(&a)[(i, j)] == f64::from(u8::from(i == j)), "param", "row {i} of the parameters is not the identity");
                        }
                    }
                    Ok(if d1.abs() > 60.0 && d2.abs() > 60.0 { Out::Hit } else { Out::Trivial })
                },
            ),
        ],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shadow {
    t0_s: f64,
    /// Behind the Moon instead of the Earth
    moon: bool,
    /// Distance behind the body, in its radii
    along: f64,
    /// -1 and 1 are the edges of the penumbra
    across: f64,
    az: f64,
    bodies: u8,
    frame: u8,
    cr: f64,
    area: f64,
    estimate: bool,
}

fn shadows() -> BoxedStrategy<Shadow> {
    (0.0..3e7f64, any::<bool>(), 1.05..40.0f64, prop_oneof![5 => -1.3..1.3f64, 1 => -20.0..20.0f64], 0.0..6.28f64, 0u8..6, 0u8..3, 0.0..2.0f64, 0.1..50.0f64, any::<bool>())
        .prop_map(|(t0_s, moon, along, across, az, bodies, frame, cr, area, estimate)| Shadow { t0_s: rnd3(t0_s), moon, along, across, az, bodies, frame, cr, area, estimate })
        .boxed()
}

/// Fraction of a disc of radius a covered by a disc of radius b, d apart.
fn covered(a: f64, b: f64, d: f64) -> f64 {
    if d >= a + b {
        return 0.0;
    }
    if d <= (b - a).abs() {
        return if b >= a { 1.0 } else { (b / a).powi(2) };
    }
    // Integral of the chords along the line of the centres
    let n = 4000;
    let mut s = 0.0;
    for i in 0..n {
        let t = std::f64::consts::PI * (i as f64 + 0.5) / n as f64;
        let y = a * t.cos();
        let xa = (a * a - y * y).max(0.0).sqrt();
        let xb = b * b - y * y;
        if xb > 0.0 {
            s += ((d + xb.sqrt()).min(xa) - (d - xb.sqrt()).max(-xa)).max(0.0) * a * t.sin() * std::f64::consts::PI / n as f64;
        }
    }
    s / (std::f64::consts::PI * a * a)
}

fn chk_shadow(c: &Shadow) -> R {
    let al = almanac();
    let t = ep(c.t0_s);
    let body = if c.moon { moon_j2k() } else { eme2k() };
    let sun = al.transform(sun_j2k(), body, t, None).map_err(err)?.radius_km;
    let u = sun.normalize();
    let e1 = u.cross(&V3::new(0.3, -0.5, 0.81)).normalize();
    let e2 = u.cross(&e1);
    let rb = body.mean_equatorial_radius_km().map_err(err)?;
    let rs = al.frame_info(sun_j2k()).map_err(err)?.mean_equatorial_radius_km().map_err(err)?;
    let d = c.along * rb;
    // Cone of the penumbra and of the umbra at that distance
    let (pen, umb) = (rb + d * (rs + rb) / sun.norm(), rb - d * (rs - rb) / sun.norm());
    let perp = (pen + umb) / 2.0 + c.across * (pen - umb) / 2.0;
    let r = -u * d + (e1 * c.az.cos() + e2 * c.az.sin()) * perp.max(0.02 * rb);
    let mut orb = Orbit::new(r.x, r.y, r.z, 0.5, -0.7, 0.3, t, body);
    let frame = [eme2k(), moon_j2k(), iau_earth()][c.frame as usize];
    orb = al.transform_to(orb, frame, None).map_err(err)?;
    let set: Vec<Frame> = match c.bodies {
        0 => vec![eme2k()],
        1 => vec![moon_j2k()],
        2 => vec![eme2k(), moon_j2k()],
        3 => vec![moon_j2k(), eme2k()],
        4 => vec![],
        _ => vec![EARTH_J2000],
    };
    // Apparent discs
    let mut worst: (f64, Option<Frame>) = (0.0, None);
    for b in &set {
        let b = al.frame_info(*b).map_err(err)?;
        let rb = b.mean_equatorial_radius_km().map_err(err)?;
        let to_b = -al.transform_to(orb, b, None).map_err(err)?.radius_km;
        let to_s = -al.transform_to(orb, sun_j2k(), None).map_err(err)?.radius_km;
        if to_b.norm() < 1.001 * rb {
            return Ok(Out::Discard);
        }
        let sep = to_b.cross(&to_s).norm().atan2(to_b.dot(&to_s));
        if sep < 1e-6 {
            // On the axis of the shadow, ANISE's arc cosine may round out of its domain: not of this repository
            return Ok(Out::Discard);
        }
        let p = covered((rs / to_s.norm()).asin(), (rb / to_b.norm()).asin(), sep) * 100.0;
        if p > worst.0 {
            worst = (p, Some(b));
        }
    }
    let sh = nyx_space::cosmic::eclipse::ShadowModel { light_source: al.frame_info(sun_j2k()).map_err(err)?, shadow_bodies: set.clone() };
    let got = sh.compute(orb, &al).map_err(err)?;
    req!((got.percentage - worst.0).abs() <= 2e-3, "percentage", "{} % in the shadow of {set:?} instead of {} %", got.percentage, worst.0);
    req!(got.epoch == t, "epoch", "the eclipse is at {} instead of {t}", got.epoch);
    if let (Some(b), true) = (worst.1, worst.0 > 0.1 && set.len() < 2) {
        req!(got.front_frame.ephemeris_id == b.ephemeris_id, "body", "the eclipsing body is {} instead of {b}", got.front_frame);
    }
    if c.frame < 2 {
        // The force is that in sunlight, times the visible fraction
        let mut srp = (*SolarPressure::with_flux(1367.0, set, &al).map_err(err)?).clone();
        srp.estimate = c.estimate;
        let sc = spacecraft(orb, 100.0, 0.0, c.area, c.cr, 1.0, 2.0);
        let f = srp.eom(&sc, &al).map_err(err)?;
        let s = al.transform_to(orb, sun_j2k(), None).map_err(err)?.radius_km;
        let full = s / s.norm() * (1367.0 / 299_792_458.0 * c.area * c.cr * 1e-3 * (AU / s.norm()).powi(2));
        let want = full * (1.0 - got.percentage / 100.0);
        req!((f - want).norm() <= 1e-11 * full.norm() + 1e-25, "force", "{} % eclipsed: the force is {f:?} instead of {want:?}", got.percentage);
        let (dx, g) = srp.gradient(&sc, &al).map_err(err)?;
        req!((dx - want).norm() <= 1e-11 * full.norm() + 1e-25, "gradient-force", "{} % eclipsed: the force of the gradient is {dx:?} instead of {want:?}", got.percentage);
        let cr = want / c.cr;
        if c.cr > 1e-3 {
            req!((0..3).all(|j| (g[(3, j)] - cr[j]).abs() <= 1e-9 * full.norm() / c.cr), "gradient-cr", "the derivative with respect to Cr is {g} instead of {cr:?}");
        }
    }
    Ok(if worst.0 > 0.01 && worst.0 < 99.99 { Out::Hit } else { Out::Trivial })
}

fn p05() -> Prop {
    Prop {
        id: "P05",
        assumptions: &[
            "body positions and frame rotations are taken from the ephemeris library (an external dependency), on synthetic kernels",
            "drag is checked at constant density in a non-rotating drag frame only: the code itself warns that its rotating atmosphere model is a placeholder",
        ],
        subs: vec![
            sub(
                "third-bodies",
                "at least one body is not the centre of the frame",
                10000,
                200000,
                || (leo_to_geo(), bodies(), 0u8..3, prop::bool::weighted(0.25)),
                |c: &(GenOrbit, Vec<i32>, u8, bool)| {
                    let (o, bd, fr, lt) = c;
                    // With a light time correction, the bodies pull from where they are seen.
                    let ab = if *lt { Aberration::LT } else { None };
                    let al = almanac();
                    let frame = [eme2k(), moon_j2k(), sun_j2k()][*fr as usize];
                    let orb = al.transform_to(o.earth(), frame, None).map_err(err)?;
                    let pm = if *lt { PointMasses::with_correction(bd.clone(), ab) } else { PointMasses::new(bd.clone()) };
                    let got = pm.eom(&orb, &al).map_err(err)?;
                    let (dual, _) = pm.gradient(&orb, &al).map_err(err)?;
                    req!((got - dual).norm() <= 1e-12 * got.norm() + 1e-22, "dual", "third bodies {bd:?}: {dual:?} with partials and {got:?} without");
                    // Inertial acceleration of the spacecraft minus that of the centre, body by body.
                    let mut want = V3::zeros();
                    let mut n = 0;
                    let mut big = 0.0f64;
                    for b in bd {
                        if frame.ephem_origin_id_match(*b) {
                            continue;
                        }
                        n += 1;
                        let mu = match *b {
                            MOON => MU_MOON,
                            SUN => MU_SUN,
                            EARTH => MU_EARTH,
                            _ => MU_JUP,
                        };
                        let p = al.transform(al.frame_info(frame.with_ephem(*b)).map_err(err)?, frame, orb.epoch, ab).map_err(err)?.radius_km;
                        let s = p - orb.radius_km;
                        let t = mu * s / s.norm().powi(3);
                        let u = mu * p / p.norm().powi(3);
                        big = big.max(t.norm()).max(u.norm());
                        want += t - u;
                    }
                    req!((got - want).norm() <= 1e-13 * big + 1e-12 * want.norm(), "accel", "third bodies {bd:?}: {got:?} expected {want:?}");
                    Ok(if n > 0 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "gravity-field",
                "a non-zero field of degree two or more",
                6000,
                120000,
                || (orbits(6700.0, 20000.0, 0.4), fields(20), prop::bool::weighted(0.3)),
                |c: &(GenOrbit, Field, bool)| {
                    let (o, f, two) = c;
                    let al = almanac();
                    let fr = iau_earth();
                    let gf = GravityField::new(f.load(fr)?);
                    let orb = if *two { al.transform_to(o.earth(), moon_j2k(), None).map_err(err)? } else { o.earth() };
                    let got = gf.eom(&orb, &al).map_err(err)?;
                    let bf = al.transform_to(orb, fr, None).map_err(err)?;
                    let w = cunningham(f, fr.mu_km3_s2().unwrap(), fr.mean_equatorial_radius_km().unwrap(), bf.radius_km);
                    let dcm = al.rotate(fr, orb.frame, orb.epoch).map_err(err)?.rot_mat;
                    let want = dcm * w;
                    let r = bf.radius_km.norm();
                    let floor = 1e-13 * MU_EARTH / r / r * f.scale;
                    let tol = if *two { 1e-8 } else { 1e-10 };
                    req!((got - want).norm() <= tol * want.norm() + floor, "accel", "degree {} order {}: {got:?} expected {want:?}", f.deg, f.ord);
                    Ok(if want.norm() > 0.0 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "solid-tides",
                "a Love number is not zero",
                8000,
                160000,
                || (orbits(6600.0, 30000.0, 0.5), tides(), prop::bool::weighted(0.3), prop::bool::weighted(0.1)),
                |c: &(GenOrbit, Tide, bool, bool)| {
                    let (o, td, other, std) = c;
                    let al = almanac();
                    let (td, m) = if *std {
                        // The usual set up: the Moon to degree three, the Sun to degree two.
                        let m = SolidTides::earth_moon_system(iau_earth(), moon_j2k(), &al).map_err(err)?;
                        (Tide { k2: 0.3019, k3: 0.093, who: vec![(0, true), (1, false)], moon: false }, m)
                    } else {
                        (td.clone(), td.model())
                    };
                    // The integration frame need not be centred on the deformed body.
                    let near = if td.moon { o.orbit(moon_j2k()) } else { o.earth() };
                    let far = if td.moon { eme2k() } else { moon_j2k() };
                    let orb = if *other { al.transform_to(near, far, None).map_err(err)? } else { near };
                    let got = m.eom(&orb, &al).map_err(err)?;
                    let bf = al.transform_to(near, td.frame(), None).map_err(err)?;
                    let (w, big) = td.accel(bf.radius_km, orb.epoch)?;
                    let want = al.rotate(td.frame(), orb.frame, orb.epoch).map_err(err)?.rot_mat * w;
                    let tol = if *other { 1e-9 } else { 1e-11 };
                    req!((got - want).norm() <= tol * big + 1e-25, "accel", "solid tides {td:?}: {got:?} expected {want:?}");
                    Ok(if big > 0.0 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "solar-pressure",
                "spacecraft in sunlight",
                6000,
                120000,
                || (leo_to_geo(), 0.01..200.0f64, 0.0..2.0f64, 100.0..2000.0f64, 0u8..2, 1.0..2.0f64, prop::bool::ANY),
                |c: &(GenOrbit, f64, f64, f64, u8, f64, bool)| {
                    let (o, area, cr, flux, fr, k, shadow) = c;
                    let al = almanac();
                    let frame = [eme2k(), moon_j2k()][*fr as usize];
                    let orb = al.transform_to(o.earth(), frame, None).map_err(err)?;
                    let sh = if *shadow { vec![EARTH_J2000] } else { vec![] };
                    let srp = SolarPressure::with_flux(*flux, sh, &al).map_err(err)?;
                    let sc = spacecraft(orb, 100.0, 0.0, *area, *cr, 1.0, 2.0);
                    let f = srp.eom(&sc, &al).map_err(err)?;
                    let s = al.transform_to(orb, sun_j2k(), None).map_err(err)?.radius_km;
                    let r_e = al.transform_to(orb, eme2k(), None).map_err(err)?.radius_km;
                    let full = s / s.norm() * (*flux / 299_792_458.0 * area * cr * 1e-3 * (AU / s.norm()).powi(2));
                    // Where is the spacecraft with respect to the Earth's umbra and penumbra? (independent cones)
                    let sun_dir = -s / s.norm();
                    let along = -r_e.dot(&sun_dir); // distance behind the Earth
                    let perp = (r_e + along * sun_dir).norm();
                    let ds = s.norm();
                    let (rs, re) = (696_000.0, 6378.1366);
                    let pen = re + along * (rs + re) / ds;
                    let umb = 6356.7519 - along * (rs - 6356.7519) / ds;
                    if !*shadow || along <= 0.0 || perp > pen + 60.0 {
                        // lit (60 km of margin for the cone geometry at this distance)
                        if *shadow && along > -7000.0 && perp < pen + 60.0 {
                            return Ok(Out::Trivial);
                        }
                        req!((f - full).norm() <= 1e-11 * full.norm(), "lit", "in sunlight: {f:?} expected {full:?}");
                        // Linear in area and Cr.
                        let f2 = srp.eom(&spacecraft(orb, 100.0, 0.0, area * k, *cr, 1.0, 2.0), &al).map_err(err)?;
                        req!((f2 - f * *k).norm() <= 1e-11 * f2.norm(), "linear", "not linear in the area");
                        Ok(if full.norm() > 0.0 { Out::Hit } else { Out::Trivial })
                    } else if perp < umb - 60.0 {
                        req!(f.norm() == 0.0, "umbra", "in the umbra (along {along} perp {perp}) the force is {f:?}");
                        Ok(Out::Hit)
                    } else {
                        let ratio = if full.norm() > 0.0 { f.norm() / full.norm() } else { 0.0 };
                        req!((-1e-12..=1.0 + 1e-12).contains(&ratio), "ratio", "in the penumbra the force is {ratio} times the full force");
                        Ok(Out::Trivial)
                    }
                },
            ),
            sub(
                "shadow",
                "in the penumbra of a body",
                80_000,
                2_000_000,
                shadows,
                chk_shadow,
            ),
            sub(
                "drag-constant",
                "density, coefficient and area not zero",
                3000,
                60000,
                || (orbits(6600.0, 9000.0, 0.2), 1e-14..1e-9f64, 0.1..5.0f64, 0.1..50.0f64, prop::bool::ANY),
                |c: &(GenOrbit, f64, f64, f64, bool)| {
                    let (o, rho, cd, area, via) = c;
                    let al = almanac();
                    let sc = spacecraft(o.earth(), 100.0, 0.0, 1.0, 1.2, *area, *cd);
                    let f = if *via {
                        ConstantDrag { rho: *rho, frame: eme2k(), estimate: false }.eom(&sc, &al)
                    } else {
                        nyx_space::dynamics::Drag { density: nyx_space::dynamics::AtmDensity::Constant(*rho), frame: eme2k(), estimate: false }.eom(&sc, &al)
                    }
                    .map_err(err)?;
                    let v = sc.orbit.velocity_km_s * 1e3;
                    let want = -0.5 * rho * cd * area * v.norm() * v * 1e-3; // N to kN
                    req!((f - want).norm() <= 1e-12 * want.norm(), "drag", "drag {f:?} expected {want:?}");
                    Ok(Out::Hit)
                },
            ),
            sub(
                "assembly",
                "two or more models together",
                3000,
                60000,
                || (leo_to_geo(), bodies(), fields(6), 1.0..50.0f64, 0.1..2.0f64, 20.0..1000.0f64, 0.0..500.0f64, 0.0..100.0f64, 0.0..1000.0f64),
                |c: &(GenOrbit, Vec<i32>, Field, f64, f64, f64, f64, f64, f64)| {
                    // The total acceleration is the two-body one plus that of each model, forces divided by the total mass.
                    let (o, bd, fl, area, cr, dry, fuel, extra, dt) = c;
                    let al = almanac();
                    let mut sc = spacecraft(o.earth(), *dry, *fuel, *area, *cr, 2.0, 2.2);
                    sc.mass.extra_mass_kg = *extra;
                    let pm: Arc<dyn AccelModel + Sync> = Arc::new(PointMasses::new(bd.clone()));
                    let gf: Arc<dyn AccelModel + Sync> = GravityField::new(fl.load(iau_earth())?);
                    let srp = SolarPressure::new(vec![EARTH_J2000], &al).map_err(err)?;
                    let drag: Arc<dyn ForceModel> = Arc::new(ConstantDrag { rho: 1e-12, frame: eme2k(), estimate: false });
                    let orbd = OrbitalDynamics::new(vec![pm.clone(), gf.clone()]);
                    let d = SpacecraftDynamics::from_models(orbd, vec![srp.clone(), drag.clone()]);
                    // The context is the state at the start of a step: only its epoch and constant data may matter.
                    let mut ctx = sc;
                    ctx.mass.prop_mass_kg += 0.5 * *dry;
                    ctx.srp.coeff_reflectivity *= 0.9;
                    ctx.drag.coeff_drag *= 1.1;
                    ctx.orbit.radius_km *= 1.01;
                    let got = d.eom(*dt, &sc.to_vector(), &ctx, &al).map_err(err)?;
                    let mut osc = sc;
                    osc.orbit.epoch += secs(*dt);
                    let r = sc.orbit.radius_km;
                    let m = dry + fuel + extra;
                    let acc = -MU_EARTH * r / r.norm().powi(3)
                        + pm.eom(&osc.orbit, &al).map_err(err)?
                        + gf.eom(&osc.orbit, &al).map_err(err)?
                        + srp.eom(&osc, &al).map_err(err)? / m
                        + drag.eom(&osc, &al).map_err(err)? / m;
                    for i in 0..3 {
                        req!(got[i] == sc.orbit.velocity_km_s[i], "kin", "position rate {i}");
                        req!(close(got[3 + i], acc[i], 1e-12, 1e-13 * acc.norm()), "sum", "acceleration {i} is {:e}, expected {:e}", got[3 + i], acc[i]);
                    }
                    for i in 6..9 {
                        req!(got[i] == 0.0, "const", "parameter {i} changes at {:e} per second without thrust", got[i]);
                    }
                    Ok(Out::Hit)
                },
            ),
            sub(
                "trajectory-reference",
                "propagated for more than ten minutes under two models or more",
                250,
                4000,
                || (orbits(6800.0, 42000.0, 0.5), bodies(), prop::option::weighted(0.6, fields(6)), -20000.0..20000.0f64),
                |c: &(GenOrbit, Vec<i32>, Option<Field>, f64)| {
                    // Independent integrator, independent accelerations.
                    let (o, bd, fl, dur) = c;
                    let al = almanac();
                    let d = Dyn { bodies: bd.clone(), field: fl.clone(), srp: false };
                    let prop = Propagator::rk89(d.build()?, tight());
                    let sc = spacecraft(o.earth(), 100.0, 0.0, 1.0, 1.2, 1.0, 2.0);
                    let out = prop.with(sc, al.clone()).quiet().for_duration(secs(*dur)).map_err(err)?;
                    let e0 = sc.epoch();
                    let fr = iau_earth();
                    let re = fr.mean_equatorial_radius_km().unwrap();
                    let f = |t: f64, y: &[f64; 6]| -> [f64; 6] {
                        let ep = e0 + secs(t);
                        let r = V3::new(y[0], y[1], y[2]);
                        let mut a = -MU_EARTH * r / r.norm().powi(3);
                        for b in bd {
                            if *b == EARTH {
                                continue;
                            }
                            let mu = match *b {
                                MOON => MU_MOON,
                                SUN => MU_SUN,
                                _ => MU_JUP,
                            };
                            let p = al.translate(al.frame_info(eme2k().with_ephem(*b)).unwrap(), eme2k(), ep, None).unwrap().radius_km;
                            let s = p - r;
                            a += mu * (s / s.norm().powi(3) - p / p.norm().powi(3));
                        }
                        if let Some(fl) = fl {
                            let dcm = al.rotate(eme2k(), fr, ep).unwrap().rot_mat;
                            a += dcm.transpose() * cunningham(fl, MU_EARTH, re, dcm * r);
                        }
                        [y[3], y[4], y[5], a.x, a.y, a.z]
                    };
                    let v = v6(&sc.orbit);
                    let y = gbs(&f, 0.0, [v[0], v[1], v[2], v[3], v[4], v[5]], secs(*dur).to_seconds(), 200.0, 1e-13);
                    let dr = (out.orbit.radius_km - V3::new(y[0], y[1], y[2])).norm();
                    let dv = (out.orbit.velocity_km_s - V3::new(y[3], y[4], y[5])).norm();
                    if std::env::var("VERIF_DEBUG").is_ok() {
                        eprintln!("REF {dr:e} {dv:e}");
                    }
                    req!(dr < 3e-5 && dv < 3e-8, "state", "off the reference integration by {dr:e} km, {dv:e} km/s");
                    Ok(if dur.abs() > 600.0 { Out::Hit } else { Out::Trivial })
                },
            ),
        ],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    f: Field,
    req_deg: usize,
    req_ord: usize,
    fmt: u8, // 0 SHADR spaces, 1 SHADR commas, 2 SHADR with D exponents, 3 COF
    gz: bool,
    via_cfg: bool,
}

fn cof_num(x: f64) -> String {
    // Fortran-like E21.14: 15 significant digits, two-digit exponent
    if x == 0.0 {
        return " 0.00000000000000E+00".into();
    }
    let s = format!("{x:.14e}");
    let (m, e) = s.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let t = format!("{m}E{}{:02}", if e < 0 { '-' } else { '+' }, e.abs());
    if x < 0.0 { t } else { format!(" {t}") }
}

/// A stored-blocks gzip stream.
fn gzip(data: &[u8]) -> Vec<u8> {
    let mut crc = 0xFFFF_FFFFu32;
    for b in data {
        crc ^= *b as u32;
        for _ in 0..8 {
            crc = if crc & 1 == 1 { (crc >> 1) ^ 0xEDB8_8320 } else { crc >> 1 };
        }
    }
    crc = !crc;
    let mut o = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    let chunks: Vec<&[u8]> = data.chunks(60000).collect();
    for (i, ch) in chunks.iter().enumerate() {
        o.push(u8::from(i + 1 == chunks.len()));
        let l = ch.len() as u16;
        o.extend_from_slice(&l.to_le_bytes());
        o.extend_from_slice(&(!l).to_le_bytes());
        o.extend_from_slice(ch);
    }
    o.extend_from_slice(&crc.to_le_bytes());
    o.extend_from_slice(&(data.len() as u32).to_le_bytes());
    o
}

fn p28() -> Prop {
    Prop {
        id: "P28",
        assumptions: &["coefficient files sorted by degree, as the loader documents"],
        subs: vec![
            sub(
                "files",
                "the file holds degrees or orders beyond the request, or a compressed or COF file",
                4000,
                60000,
                || {
                    (fields(14), 1usize..18, 0usize..18, 0u8..4, prop::bool::ANY, prop::bool::ANY).prop_map(|(mut f, d, o, fmt, gz, via_cfg)| {
                        f.ord = f.ord.max(1);
                        FileCase { f, req_deg: d, req_ord: o.min(d), fmt, gz, via_cfg }
                    })
                },
                |c: &FileCase| {
                    let terms = c.f.terms();
                    let mut t = String::new();
                    let ext = if c.fmt == 3 { "cof" } else { "tab" };
                    match c.fmt {
                        3 => {
                            t += "COMMENT   a generated field\nPOTFIELD 20 20  1 3.98600441500000E+14 6.37813630000000E+06 1.00000000000000E+00\n";
                            for (n, m, cc, s) in &terms {
                                if *m == 0 {
                                    t += &format!("RECOEF  {n:3}{m:5}   {}\n", cof_num(*cc));
                                } else {
                                    t += &format!("RECOEF  {n:3}{m:5}   {}{}\n", cof_num(*cc), cof_num(*s));
                                }
                            }
                            t += "END\n";
                        }
                        k => {
                            t += " 0.3986004415E+15, 0.63781363E+07\n";
                            for (n, m, cc, s) in &terms {
                                let (a, b) = (format!("{cc:.16E}"), format!("{s:.16E}"));
                                match k {
                                    0 => t += &format!("{n:5} {m:5} {a} {b} 1.0E-12 1.0E-12\n"),
                                    1 => t += &format!("{n:5},{m:5},{a},{b},1.0E-12,1.0E-12\n"),
                                    _ => t += &format!("{n:5} {m:5} {} {}\n", a.replace('E', "D"), b.replace('E', "D")),
                                }
                            }
                        }
                    }
                    let name = if c.gz { format!("{ext}.gz") } else { ext.to_string() };
                    let p = scratch_file(&name);
                    std::fs::write(&p, if c.gz { gzip(t.as_bytes()) } else { t.clone().into_bytes() }).unwrap();
                    let al = almanac();
                    let fr = iau_earth();
                    let r = if c.via_cfg {
                        GravityFieldData::from_config(
                            GravityFieldConfig { degree: c.req_deg, order: c.req_ord, filepath: p.clone(), gunzipped: c.gz, frame: anise::frames::FrameUid::from(fr) },
                            &al,
                        )
                    } else if c.fmt == 3 {
                        GravityFieldData::from_cof(&p, c.req_deg, c.req_ord, c.gz, fr)
                    } else {
                        GravityFieldData::from_shadr(&p, c.req_deg, c.req_ord, c.gz, fr)
                    };
                    let _ = std::fs::remove_file(&p);
                    let g = match r {
                        Ok(g) => g,
                        Err(e) => return fail("load", format!("format {} gz {} config {}: {e}", c.fmt, c.gz, c.via_cfg)),
                    };
                    // A degree below the file's first degree leaves an empty field.
                    let want_deg = if c.req_deg < 2 { 0 } else { c.req_deg.min(c.f.deg) };
                    req!(g.max_degree_n() == want_deg, "degree", "degree {} for {} requested and {} in the file", g.max_degree_n(), c.req_deg, c.f.deg);
                    req!(g.frame == fr, "frame", "frame {}", g.frame);
                    let digits = if c.fmt == 3 { 1e-14 } else { 1e-15 };
                    for n in 0..=want_deg {
                        for m in 0..=n {
                            let (cc, s) = g.cs_nm(n, m);
                            let want = terms.iter().find(|t| t.0 == n && t.1 == m).filter(|t| t.1 <= c.req_ord).map(|t| (t.2, t.3)).unwrap_or((0.0, 0.0));
                            req!(close(cc, want.0, digits, 0.0) && close(s, want.1, digits, 0.0), "coef", "C,S({n},{m}) = {cc:e},{s:e} expected {:e},{:e}", want.0, want.1);
                        }
                    }
                    Ok(if c.req_deg != c.f.deg || c.req_ord < c.f.ord || c.gz || c.fmt == 3 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "j2",
                "a field made of J2 only",
                2000,
                20000,
                || (orbits(6700.0, 20000.0, 0.3), -2e-3..2e-3f64),
                |c: &(GenOrbit, f64)| {
                    let al = almanac();
                    let fr = iau_earth();
                    let gf = GravityField::new(GravityFieldData::from_j2(c.1, fr));
                    let orb = c.0.earth();
                    let got = gf.eom(&orb, &al).map_err(err)?;
                    let f = Field { deg: 2, ord: 0, c: vec![c.1], s: vec![0.0], scale: 4.0 };
                    let bf = al.transform_to(orb, fr, None).map_err(err)?;
                    let w = cunningham(&f, fr.mu_km3_s2().unwrap(), fr.mean_equatorial_radius_km().unwrap(), bf.radius_km);
                    let want = al.rotate(fr, orb.frame, orb.epoch).map_err(err)?.rot_mat * w;
                    req!((got - want).norm() <= 1e-11 * want.norm(), "j2", "{got:?} expected {want:?}");
                    Ok(Out::Hit)
                },
            ),
        ],
    }
}
