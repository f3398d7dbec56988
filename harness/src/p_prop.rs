//! P01 propagation contract, P02 two-body truth, P03 error control and order.
use crate::fw::*;
use crate::req;
use crate::world::*;
use hifitime::Duration;
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::dynamics::{OrbitalDynamics, PointMasses, SpacecraftDynamics};
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions, Propagator};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const PROPS: &[fn() -> Prop] = &[p01, p02, p03];

pub const METHODS: [IntegratorMethod; 6] = [
    IntegratorMethod::RungeKutta89,
    IntegratorMethod::DormandPrince78,
    IntegratorMethod::DormandPrince45,
    IntegratorMethod::RungeKutta4,
    IntegratorMethod::CashKarp45,
    IntegratorMethod::Verner56,
];
pub const CTRLS: [ErrorControl; 7] = [
    ErrorControl::RSSCartesianState,
    ErrorControl::RSSCartesianStep,
    ErrorControl::RSSState,
    ErrorControl::RSSStep,
    ErrorControl::LargestError,
    ErrorControl::LargestState,
    ErrorControl::LargestStep,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opts {
    pub method: usize,
    pub fixed: bool,
    pub step_s: f64, // fixed step or initial step
    pub min_s: f64,
    pub max_s: f64,
    pub tol_exp: f64,
    pub ctrl: usize,
}

impl Opts {
    pub fn m(&self) -> IntegratorMethod {
        METHODS[self.method]
    }
    pub fn build(&self) -> IntegratorOptions {
        if self.fixed {
            IntegratorOptions::with_fixed_step_s(self.step_s)
        } else {
            IntegratorOptions {
                init_step: secs(self.step_s),
                min_step: secs(self.min_s),
                max_step: secs(self.max_s),
                tolerance: 10f64.powf(self.tol_exp),
                attempts: 50,
                fixed_step: false,
                error_ctrl: CTRLS[self.ctrl],
                integration_frame: None,
            }
        }
    }
}

fn opts_any() -> BoxedStrategy<Opts> {
    let adaptive = (
        prop::sample::select(vec![0usize, 1, 2, 4, 5]),
        prop_oneof![1.0..300.0f64, Just(60.0)],
        prop_oneof![Just(1e-3), 1e-3..1.0f64],
        prop_oneof![Just(2700.0), 300.0..3000.0f64],
        -13.0..-9.0f64,
        0usize..7,
    )
        .prop_map(|(method, step_s, min_s, max_s, tol_exp, ctrl)| Opts {
            method,
            fixed: false,
            step_s: rnd3(step_s),
            min_s: rnd3(min_s),
            max_s: rnd3(max_s),
            tol_exp,
            ctrl,
        });
    let fixed = (0usize..6, prop_oneof![5.0..120.0f64, prop::sample::select(vec![10.0, 30.0, 60.0])])
        .prop_map(|(method, s)| Opts {
            method,
            fixed: true,
            step_s: rnd3(s),
            min_s: 0.0,
            max_s: 0.0,
            tol_exp: 0.0,
            ctrl: 0,
        });
    prop_oneof![3 => adaptive, 2 => fixed].boxed()
}

/// Durations: fractions, exact multiples of round steps, single nanoseconds, both signs.
fn dur_ns(max_s: f64) -> BoxedStrategy<i64> {
    let m = (max_s * 1e9) as i64;
    prop_oneof![
        4 => -m..m,
        2 => (-(max_s / 60.0) as i64..(max_s / 60.0) as i64).prop_map(|k| k * 60_000_000_000),
        1 => -2_000_000_000i64..2_000_000_000,
        1 => -100i64..100,
        1 => Just(0i64),
    ]
    .boxed()
}

pub fn ns(n: i64) -> Duration {
    Duration::from_total_nanoseconds(n as i128)
}

/// Force models used by the contract checks: two-body, and with perturbing bodies.
pub fn dynamics(kind: u8) -> SpacecraftDynamics {
    use anise::constants::celestial_objects::{MOON, SUN};
    match kind {
        0 => SpacecraftDynamics::new(OrbitalDynamics::two_body()),
        1 => SpacecraftDynamics::new(OrbitalDynamics::point_masses(vec![MOON])),
        _ => SpacecraftDynamics::new(OrbitalDynamics::from_model(std::sync::Arc::new(PointMasses::new(vec![MOON, SUN])))),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leg {
    o: GenOrbit,
    opts: Opts,
    dur: Vec<i64>,
    dynk: u8,
    mass: f64,
}

fn legs(n: usize, max_s: f64) -> BoxedStrategy<Leg> {
    (
        leo_to_geo(),
        opts_any(),
        prop::collection::vec(dur_ns(max_s), 1..=n),
        0u8..3,
        10.0..2000.0f64,
    )
        .prop_map(|(o, opts, dur, dynk, mass)| Leg { o, opts, dur, dynk, mass })
        .boxed()
}

fn same_state(a: &Spacecraft, b: &Spacecraft) -> bool {
    a.orbit == b.orbit
        && a.orbit.epoch == b.orbit.epoch
        && a.orbit.frame == b.orbit.frame
        && a.mass == b.mass
        && a.srp == b.srp
        && a.drag == b.drag
}

fn p01() -> Prop {
    Prop {
        id: "P01",
        assumptions: &[
            "ephemerides are synthetic (no planetary kernel is available offline)",
            "durations up to six hours in the quick tier, spacecraft around the Earth",
        ],
        subs: vec![
            sub(
                "exact-end",
                "the propagation lasts more than one integration step",
                3000,
                60000,
                || legs(4, 21600.0),
                |c: &Leg| {
                    let al = almanac();
                    let prop = Propagator::new(dynamics(c.dynk), c.opts.m(), c.opts.build());
                    let s0 = spacecraft(c.o.earth(), c.mass, 0.0, 1.0, 1.2, 1.0, 2.0);
                    let mut inst = prop.with(s0, al.clone()).quiet();
                    let mut nsteps = 0;
                    let mut cur = s0;
                    for d in &c.dur {
                        let want = cur.epoch() + ns(*d);
                        // Fresh instance with a trajectory: must agree on the exact end epoch too.
                        let out = match inst.for_duration(ns(*d)) {
                            Ok(s) => s,
                            Err(e) => return fail("err", format!("for_duration failed: {e}")),
                        };
                        req!(out.epoch() == want, "epoch", "asked for {want}, ended at {} (off by {})", out.epoch(), out.epoch() - want);
                        req!(same_state(&out, &inst.state), "inst", "returned state differs from the instance's state");
                        req!(out.orbit.frame == s0.orbit.frame, "frame", "frame changed to {}", out.orbit.frame);
                        req!(v6(&out.orbit).iter().all(|x| x.is_finite()), "finite", "non finite state {out}");
                        req!(out.mass == s0.mass && out.srp == s0.srp && out.drag == s0.drag, "params", "mass, SRP or drag data changed: {out} vs {s0}");
                        if *d == 0 {
                            req!(same_state(&out, &cur), "zero", "zero duration changed the state");
                        }
                        if ns(*d).abs() > secs(c.opts.step_s) {
                            nsteps += 1;
                        }
                        cur = out;
                    }
                    Ok(if nsteps > 0 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "trajectory",
                "the trajectory holds at least four states",
                2000,
                40000,
                || legs(1, 21600.0),
                |c: &Leg| {
                    let al = almanac();
                    let prop = Propagator::new(dynamics(c.dynk), c.opts.m(), c.opts.build());
                    let s0 = spacecraft(c.o.earth(), c.mass, 0.0, 1.0, 1.2, 1.0, 2.0);
                    let d = ns(c.dur[0]);
                    let plain = prop.with(s0, al.clone()).quiet().for_duration(d);
                    let want = s0.epoch() + d;
                    let viaep = prop.with(s0, al.clone()).quiet().until_epoch(want);
                    let r = prop.with(s0, al.clone()).quiet().for_duration_with_traj(d);
                    let (plain, viaep, (end, traj)) = match (plain, viaep, r) {
                        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
                        (a, b, c) => return fail("err", format!("{:?} {:?} {:?}", a.err(), b.err(), c.err())),
                    };
                    req!(same_state(&plain, &viaep), "until", "until_epoch differs from for_duration: {viaep} vs {plain}");
                    req!(same_state(&plain, &end), "traj-end", "recording a trajectory changes the end state: {end} vs {plain}");
                    let n = traj.states.len();
                    let (first, last) = (traj.first().epoch(), traj.last().epoch());
                    let (lo, hi) = if d.is_negative() { (want, s0.epoch()) } else { (s0.epoch(), want) };
                    req!(first == lo && last == hi, "span", "trajectory spans {first} to {last}, expected {lo} to {hi}");
                    for w in traj.states.windows(2) {
                        req!(w[0].epoch() < w[1].epoch(), "order", "states out of order or duplicated: {} then {}", w[0].epoch(), w[1].epoch());
                    }
                    if c.opts.fixed {
                        // Number of fixed steps is known exactly.
                        let k = (c.dur[0].unsigned_abs() as f64 / 1e9 / c.opts.step_s).ceil() as usize + 1;
                        req!(n.abs_diff(k) <= 1, "nsteps", "{n} states for {} fixed steps", k - 1);
                    } else {
                        // No step can be longer than the maximum.
                        let mx = secs(c.opts.max_s.max(c.opts.step_s)) + ns(2);
                        for w in traj.states.windows(2) {
                            req!(w[1].epoch() - w[0].epoch() <= mx, "gap", "gap of {} with max step {}", w[1].epoch() - w[0].epoch(), mx);
                        }
                    }
                    let (a, b) = (traj.at(first), traj.at(last));
                    req!(a.is_ok() && b.is_ok(), "at-ends", "cannot evaluate the trajectory at its own ends");
                    let (ea, eb) = if d.is_negative() { (end, s0) } else { (s0, end) };
                    req!(a.unwrap().orbit == ea.orbit && b.unwrap().orbit == eb.orbit, "ends", "trajectory ends are not the start and end states");
                    Ok(if n >= 4 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "compose",
                "two or more non-zero legs, forward and backward mixed",
                2500,
                50000,
                || {
                    (leo_to_geo(), prop::collection::vec(dur_ns(10800.0), 2..6), 0u8..3, 0usize..2, prop_oneof![Just(60.0), 1.0..400.0f64])
                        .prop_map(|(o, dur, dynk, method, step)| Leg {
                            o,
                            opts: Opts { method, fixed: false, step_s: rnd3(step), min_s: 1e-3, max_s: 2700.0, tol_exp: -12.0, ctrl: 1 },
                            dur,
                            dynk,
                            mass: 100.0,
                        })
                },
                |c: &Leg| {
                    // Legs taken one after another on one instance must land where the direct
                    // propagation over the sum of the durations lands.
                    let al = almanac();
                    let prop = Propagator::new(dynamics(c.dynk), c.opts.m(), c.opts.build());
                    let s0 = spacecraft(c.o.earth(), c.mass, 0.0, 1.0, 1.2, 1.0, 2.0);
                    let mut inst = prop.with(s0, al.clone()).quiet();
                    let mut tot = 0i64;
                    let mut abs = 0i64;
                    for d in &c.dur {
                        if let Err(e) = inst.for_duration(ns(*d)) {
                            return fail("err", format!("{e}"));
                        }
                        tot += d;
                        abs += d.abs();
                    }
                    let direct = match prop.with(s0, al).quiet().for_duration(ns(tot)) {
                        Ok(s) => s,
                        Err(e) => return fail("err", format!("{e}")),
                    };
                    req!(direct.epoch() == inst.state.epoch(), "epoch", "epochs differ: {} vs {}", direct.epoch(), inst.state.epoch());
                    let dr = (direct.orbit.radius_km - inst.state.orbit.radius_km).norm();
                    let dv = (direct.orbit.velocity_km_s - inst.state.orbit.velocity_km_s).norm();
                    // A tolerance of 1e-12 per step over at most nine hours.
                    let tol = 1e-5;
                    req!(dr < tol && dv < tol * 1.5e-3, "drift", "legs {:?} ns: off by {dr:e} km, {dv:e} km/s", c.dur);
                    Ok(if abs > 0 && c.dur.iter().filter(|d| d.abs() > 1_000_000_000).count() > 1 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "integration-frame",
                "propagation integrated in another frame than the state's",
                600,
                6000,
                || (leo_to_geo(), dur_ns(10800.0), 0u8..4),
                |c: &(GenOrbit, i64, u8)| {
                    let al = almanac();
                    let (o, d, k) = c;
                    // The state is expressed in a rotating frame (or about the Moon), integrated in EME2000, and must come back
                    // in its own frame; compare with the propagation of the transformed state.
                    let s_in = spacecraft(o.earth(), 100.0, 0.0, 1.0, 1.2, 1.0, 2.0);
                    let other = if *k < 2 { iau_earth() } else { moon_j2k() };
                    let orb = match al.transform_to(s_in.orbit, other, None) {
                        Ok(x) => x,
                        Err(e) => return fail("world", format!("{e}")),
                    };
                    let s_rot = s_in.with_orbit(orb);
                    let mut opts = IntegratorOptions::default();
                    opts.integration_frame = Some(eme2k());
                    let prop = Propagator::rk89(dynamics(*k % 2), opts);
                    let plain = Propagator::rk89(dynamics(*k % 2), IntegratorOptions::default());
                    let (got, want) = match (
                        prop.with(s_rot, al.clone()).quiet().for_duration(ns(*d)),
                        plain.with(s_in, al.clone()).quiet().for_duration(ns(*d)),
                    ) {
                        (Ok(a), Ok(b)) => (a, b),
                        (a, b) => return fail("err", format!("{:?} {:?}", a.err(), b.err())),
                    };
                    req!(got.orbit.frame.orient_origin_match(other) && got.orbit.frame.ephem_origin_match(other), "frame", "came back in {}", got.orbit.frame);
                    req!(got.epoch() == s_in.epoch() + ns(*d), "epoch", "ended at {}", got.epoch());
                    let w = al.transform_to(want.orbit, other, None).unwrap();
                    let dr = (w.radius_km - got.orbit.radius_km).norm();
                    let dv = (w.velocity_km_s - got.orbit.velocity_km_s).norm();
                    let scale = if *k < 2 { 1e-5 } else { 5e-5 };
                    req!(dr < scale && dv < scale, "state", "integration frame changes the result by {dr:e} km, {dv:e} km/s");
                    // The recorded trajectory is in the frame of the initial state throughout.
                    let (end, traj) = match prop.with(s_rot, al.clone()).quiet().for_duration_with_traj(ns(*d)) {
                        Ok(x) => x,
                        Err(e) => return fail("traj-err", format!("{e}")),
                    };
                    req!(end.orbit == got.orbit, "traj-end", "recording changes the end state");
                    let n = traj.states.len();
                    for (i, x) in traj.states.iter().enumerate() {
                        req!(x.orbit.frame.orient_origin_match(other) && x.orbit.frame.ephem_origin_match(other), "traj-frame", "recorded in {}", x.orbit.frame);
                        if i < 2 || i + 2 >= n || i % (n / 4 + 1) == 0 {
                            let y = plain.with(s_in, al.clone()).quiet().until_epoch(x.epoch()).unwrap();
                            let w = al.transform_to(y.orbit, other, None).unwrap();
                            let dr = (w.radius_km - x.orbit.radius_km).norm();
                            req!(dr < 1e-4, "traj-state", "recorded state {i} off by {dr:e} km");
                        }
                    }
                    Ok(if *d != 0 { Out::Hit } else { Out::Trivial })
                },
            ),
        ],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Kep {
    o: GenOrbit,
    moon: bool,
    method: usize,
    ctrl: usize,
    tol_exp: f64,
    init_s: f64,
    max_s: f64,
    dur_s: f64,
    stm: bool,
    /// Integrate in the same frame with another gravitational parameter
    mu_k: Option<f64>,
}

fn kep(max_rev: f64) -> BoxedStrategy<Kep> {
    (
        orbits(6700.0, 42000.0, 0.8),
        prop::bool::weighted(0.2),
        prop::sample::select(vec![0usize, 0, 0, 1, 2, 4, 5]),
        prop::sample::select(vec![0usize, 1, 1, 1, 2, 3, 4, 5, 6]),
        -12.5..-10.0f64,
        prop_oneof![Just(60.0), 0.01..3000.0f64],
        prop_oneof![Just(2700.0), 60.0..3000.0f64],
        -max_rev..max_rev,
        (prop::bool::weighted(0.3), prop_oneof![3 => Just(None), 1 => (0.9..1.3f64).prop_map(Some)]),
    )
        .prop_map(|(mut o, moon, method, ctrl, tol_exp, init_s, max_s, f, (stm, mu_k))| {
            if moon {
                o.rp_km = rnd3(1800.0 + (o.rp_km - 6700.0) * 0.2);
            }
            let mu = if moon { MU_MOON } else { MU_EARTH };
            let dur_s = rnd3(f * o.period_s(mu));
            Kep { o, moon, method, ctrl, tol_exp, init_s: rnd3(init_s).min(rnd3(max_s)), max_s: rnd3(max_s), dur_s, stm, mu_k }
        })
        .boxed()
}

/// Error allowance in km for an adaptive two-body propagation at a per-step tolerance: the tolerance is relative to
/// the step (or the state), so the position error per step is below tol * a few times the orbit size, and it grows
/// at most quadratically with the number of revolutions through the along-track drift.
fn allowance(c: &Kep, mu: f64, nrev: f64) -> f64 {
    let tol = 10f64.powf(c.tol_exp);
    let ra = c.o.sma() * (1.0 + c.o.ecc);
    let low = METHODS[c.method].order() < 8;
    let rounding = 3e-10 * ra * (1.0 + nrev) * (1.0 + nrev) / (1.0 - c.o.ecc).powi(2);
    let k = if low { 1e4 } else { 300.0 };
    let _ = mu;
    rounding + k * tol * ra * (1.0 + nrev) * (1.0 + nrev) / (1.0 - c.o.ecc).powi(3)
}

fn p02() -> Prop {
    Prop {
        id: "P02",
        assumptions: &[
            "oracle: closed-form universal-variable solution, accurate to about 1e-12 relative",
            "eccentricity up to 0.8 and at most three revolutions",
        ],
        subs: vec![
            sub(
                "analytic",
                "propagated for more than 5 % of a revolution",
                20_000,
                400_000,
                || kep(3.0),
                |c: &Kep| {
                    let al = almanac();
                    let frame = if c.moon { moon_j2k() } else { eme2k() };
                    let mut mu = if c.moon { MU_MOON } else { MU_EARTH };
                    let orb = c.o.orbit(frame);
                    let integration_frame = c.mu_k.map(|k| {
                        mu *= k;
                        anise::prelude::Frame { mu_km3_s2: Some(mu), ..frame }
                    });
                    let mut s0 = spacecraft(orb, 100.0, 0.0, 1.0, 1.2, 1.0, 2.0);
                    if c.stm {
                        s0 = s0.with_stm();
                    }
                    let opts = IntegratorOptions {
                        init_step: secs(c.init_s),
                        min_step: secs(1e-3),
                        max_step: secs(c.max_s),
                        tolerance: 10f64.powf(c.tol_exp),
                        attempts: 50,
                        fixed_step: false,
                        error_ctrl: CTRLS[c.ctrl],
                        integration_frame,
                    };
                    let prop = Propagator::new(dynamics(0), METHODS[c.method], opts);
                    let out = match prop.with(s0, al).quiet().for_duration(secs(c.dur_s)) {
                        Ok(o) => o,
                        Err(e) => return fail("err", format!("{e}")),
                    };
                    let (r, v) = kepler(orb.radius_km, orb.velocity_km_s, mu, c.dur_s);
                    let dr = (out.orbit.radius_km - r).norm();
                    let dv = (out.orbit.velocity_km_s - v).norm();
                    let nrev = c.dur_s.abs() / c.o.period_s(mu);
                    let al_km = allowance(c, mu, nrev);
                    let vp = (mu * (1.0 + c.o.ecc) / c.o.rp_km).sqrt();
                    let al_v = al_km * vp / c.o.rp_km;
                    if std::env::var("VERIF_DEBUG").is_ok() {
                        eprintln!("RATIO {:.3e} m{} c{} tol{:.1} e{:.2} nrev{:.1} dr {:.2e}", dr / al_km, c.method, c.ctrl, c.tol_exp, c.o.ecc, c.dur_s/c.o.period_s(mu), dr);
                    }
                    req!(dr < al_km && dv < al_v, "truth", "off the analytic orbit by {dr:e} km (allowed {al_km:e}), {dv:e} km/s (allowed {al_v:e})");
                    Ok(if nrev > 0.05 { Out::Hit } else { Out::Trivial })
                },
            ),
        ],
    }
}


#[derive(Clone, Debug, Serialize, Deserialize)]
struct StepCase {
    o: GenOrbit,
    opts: Opts,
    back: bool,
    n: usize,
    dynk: u8,
    attempts: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EstCase {
    ctrl: usize,
    err: Vec<f64>,
    cur: Vec<f64>,
    delta: Vec<f64>,
    k: f64,
    flip: Vec<bool>,
}

fn est(c: usize, e: &[f64], cand: &[f64], cur: &[f64]) -> f64 {
    use nalgebra::{OVector, U9};
    let v = |x: &[f64]| OVector::<f64, U9>::from_row_slice(x);
    CTRLS[c].estimate::<U9>(&v(e), &v(cand), &v(cur))
}

fn nrm(x: &[f64]) -> f64 {
    x.iter().map(|v| v * v).sum::<f64>().sqrt()
}

/// What the documentation (and GMAT, which it refers to) says of each error control.
fn est_model(c: usize, e: &[f64], cand: &[f64], cur: &[f64]) -> f64 {
    let step: Vec<f64> = cand.iter().zip(cur).map(|(a, b)| a - b).collect();
    let mean: Vec<f64> = cand.iter().zip(cur).map(|(a, b)| 0.5 * (a + b)).collect();
    let rel = |err: f64, mag: f64, th: f64| if mag > th { err / mag } else { err };
    let st = 0.1f64.sqrt();
    let l1 = |x: &[f64]| x.iter().map(|v| v.abs()).sum::<f64>();
    match CTRLS[c] {
        ErrorControl::RSSCartesianState => rel(nrm(&e[..3]), nrm(&mean[..3]), 0.1).max(rel(nrm(&e[3..6]), nrm(&mean[3..6]), 0.1)),
        ErrorControl::RSSCartesianStep => rel(nrm(&e[..3]), nrm(&step[..3]), st).max(rel(nrm(&e[3..6]), nrm(&step[3..6]), st)),
        ErrorControl::RSSState => rel(nrm(e), nrm(&mean), 0.1),
        ErrorControl::RSSStep => rel(nrm(e), nrm(&step), st),
        ErrorControl::LargestError => e.iter().zip(&step).map(|(a, b)| rel(a.abs(), b.abs(), 0.1)).fold(0.0, f64::max),
        ErrorControl::LargestState => rel(l1(e), l1(&mean), 0.1),
        ErrorControl::LargestStep => rel(l1(e), l1(&step), 0.1),
    }
}

fn p03() -> Prop {
    Prop {
        id: "P03",
        assumptions: &["order of convergence measured on two-body orbits, in the range where truncation dominates rounding"],
        subs: vec![
            sub(
                "steps",
                "the error control changed the step at least once",
                20_000,
                400_000,
                || {
                    (
                        orbits(6700.0, 42000.0, 0.8),
                        prop::sample::select(vec![0usize, 1, 2, 4, 5]),
                        prop_oneof![Just(60.0), 0.01..2000.0f64],
                        prop_oneof![Just(1e-3), 1e-3..200.0f64],
                        prop_oneof![Just(2700.0), 0.0..1500.0f64],
                        -14.0..-6.0f64,
                        0usize..7,
                        prop::bool::ANY,
                        2usize..60,
                        (0u8..3, prop_oneof![Just(50u8), 1..6u8]),
                    )
                        .prop_map(|(o, method, step, min, dmax, tol_exp, ctrl, back, n, (dynk, attempts))| {
                            let min_s = rnd3(min);
                            let max_s = rnd3(min + dmax);
                            StepCase {
                                o,
                                opts: Opts { method, fixed: false, step_s: rnd3(step.clamp(min_s, max_s)), min_s, max_s, tol_exp, ctrl },
                                back,
                                n,
                                dynk,
                                attempts,
                            }
                        })
                },
                |c: &StepCase| {
                    let al = almanac();
                    let mut opts = c.opts.build();
                    opts.attempts = c.attempts;
                    let prop = Propagator::new(dynamics(c.dynk), c.opts.m(), opts);
                    let s0 = spacecraft(c.o.earth(), 100.0, 0.0, 1.0, 1.2, 1.0, 2.0);
                    let mut inst = prop.with(s0, al).quiet();
                    if c.back {
                        inst.set_step(-secs(c.opts.step_s), false);
                    }
                    let tol = opts.tolerance;
                    let slack = ns(1);
                    let mut changed = false;
                    for i in 0..c.n {
                        let e0 = inst.state.epoch();
                        if let Err(e) = inst.single_step() {
                            return fail("err", format!("{e}"));
                        }
                        let d = inst.latest_details();
                        let took = inst.state.epoch() - e0;
                        req!(took == d.step, "report", "step {i}: took {took} but reports {}", d.step);
                        req!(took.is_negative() == c.back && took != Duration::ZERO, "sign", "step {i} of {took} in the wrong direction");
                        let a = took.abs();
                        req!(a <= opts.max_step + slack, "max", "step {i} of {a} beyond the maximum {}", opts.max_step);
                        req!(a + slack >= opts.min_step, "min", "step {i} of {a} below the minimum {}", opts.min_step);
                        req!(
                            d.error <= tol || a <= opts.min_step + slack || d.attempts >= opts.attempts,
                            "tol",
                            "step {i} of {a} accepted with error {:e} above the tolerance {tol:e} after {} attempts",
                            d.error,
                            d.attempts
                        );
                        req!(d.attempts >= 1 && d.attempts <= opts.attempts, "attempts", "{} attempts of at most {}", d.attempts, opts.attempts);
                        changed |= (a - secs(c.opts.step_s)).abs() > ns(10);
                    }
                    Ok(if changed { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "order",
                "both errors lie between rounding and divergence",
                10_000,
                200_000,
                || (orbits(6700.0, 30000.0, 0.15), 0usize..6, prop::bool::ANY, 0.5..1.6f64),
                |c: &(GenOrbit, usize, bool, f64)| {
                    let (o, method, back, f) = c;
                    let m = METHODS[*method];
                    let al = almanac();
                    let per = o.period_s(MU_EARTH);
                    let s0 = spacecraft(o.earth(), 100.0, 0.0, 1.0, 1.2, 1.0, 2.0);
                    // Number of steps for half a revolution in the asymptotic range of each order.
                    let n0 = match m.order() {
                        4 => 60.0,
                        5 | 6 => 30.0,
                        _ => 9.0,
                    } * (1.0 + 2.0 * o.ecc);
                    let n = (n0 * f).round().max(6.0) as i64;
                    let h = ns((per / 2.0 / n as f64 * 1e9).round() as i64);
                    let run = |k: i64| {
                        let hh = ns(h.total_nanoseconds() as i64 / k);
                        let d = hh * (n * k);
                        let d = if *back { -d } else { d };
                        let prop = Propagator::new(dynamics(0), m, IntegratorOptions::with_fixed_step(hh));
                        let out = prop.with(s0, al.clone()).quiet().for_duration(d).map_err(|e| Fail { sig: "err".into(), msg: format!("{e}") })?;
                        let (r, v) = kepler(s0.orbit.radius_km, s0.orbit.velocity_km_s, MU_EARTH, d.to_seconds());
                        let w = MU_EARTH.sqrt() / o.rp_km.powf(1.5);
                        Ok::<f64, Fail>((out.orbit.radius_km - r).norm() + (out.orbit.velocity_km_s - v).norm() / w)
                    };
                    let e1 = run(1)?;
                    let e2 = run(2)?;
                    let floor = 4e-12 * o.rp_km * 100.0;
                    if e2 < floor || e1 > 0.02 * o.rp_km {
                        return Ok(Out::Trivial);
                    }
                    let got = (e1 / e2).log2();
                    if std::env::var("VERIF_DEBUG").is_ok() {
                        eprintln!("ORD {:?} {got:.2} {e1:e} {e2:e}", m);
                    }
                    let need = m.order() as f64 - if m.order() >= 8 { 1.5 } else { 0.8 };
                    req!(got > need, "order", "{m:?}: halving the step only divides the error by 2^{got:.2} ({e1:e} to {e2:e} km)");
                    Ok(Out::Hit)
                },
            ),
            sub(
                "error-estimate",
                "error estimate well above rounding",
                20_000,
                300_000,
                || (orbits(6700.0, 30000.0, 0.2), prop::sample::select(vec![0usize, 1, 2, 4, 5]), prop::bool::ANY, 0.5..1.1f64),
                |c: &(GenOrbit, usize, bool, f64)| {
                    // One step accepted at first attempt (huge tolerance): the reported error must not underestimate the
                    // true local error by much, and must fall with the step like the embedded pair's order.
                    let (o, method, back, f) = c;
                    let m = METHODS[*method];
                    let al = almanac();
                    let per = o.period_s(MU_EARTH);
                    let s0 = spacecraft(o.earth(), 100.0, 0.0, 1.0, 1.2, 1.0, 2.0);
                    let h0 = per * f * (1.0 - o.ecc).powi(2) / match m.order() {
                        5 | 6 => 40.0,
                        _ => 16.0,
                    };
                    let run = |h: f64| {
                        let hd = ns((h * 1e9) as i64);
                        let opts = IntegratorOptions {
                            init_step: hd, min_step: ns(1), max_step: hd * 10, tolerance: 1e12, attempts: 50, fixed_step: false,
                            error_ctrl: ErrorControl::RSSCartesianState, integration_frame: None,
                        };
                        let prop = Propagator::new(dynamics(0), m, opts);
                        let mut inst = prop.with(s0, al.clone()).quiet();
                        if *back {
                            inst.set_step(-hd, false);
                        }
                        inst.single_step().map_err(|e| Fail { sig: "err".into(), msg: format!("{e}") })?;
                        let dt = (inst.state.epoch() - s0.epoch()).to_seconds();
                        let (r, v) = kepler(s0.orbit.radius_km, s0.orbit.velocity_km_s, MU_EARTH, dt);
                        let mag = 0.5 * (inst.state.orbit.radius_km + s0.orbit.radius_km).norm();
                        let magv = 0.5 * (inst.state.orbit.velocity_km_s + s0.orbit.velocity_km_s).norm();
                        let tru = ((inst.state.orbit.radius_km - r).norm() / mag).max((inst.state.orbit.velocity_km_s - v).norm() / magv);
                        Ok::<_, Fail>((inst.latest_details().error, tru))
                    };
                    let (e1, t1) = run(h0)?;
                    let (e2, _) = run(h0 / 2.0)?;
                    if e2 < 5e-14 {
                        return Ok(Out::Trivial);
                    }
                    if std::env::var("VERIF_DEBUG").is_ok() {
                        eprintln!("EST {:?} {:.2} ratio {:.3e} {e1:e}", m, (e1 / e2).log2(), t1 / e1);
                    }
                    let got = (e1 / e2).log2();
                    let need = m.order() as f64 - if m.order() == 8 { 2.0 } else { 1.0 };
                    req!(got > need && got < m.order() as f64 + 3.0, "slope", "{m:?}: halving the step divides the estimated error by 2^{got:.2} ({e1:e} to {e2:e})");
                    req!(t1 < 20.0 * e1, "under", "{m:?}: true local error {t1:e}, estimated {e1:e}");
                    Ok(Out::Hit)
                },
            ),
            sub(
                "estimate-model",
                "relative branch taken (the state or step is not small)",
                20000,
                400000,
                || {
                    let x = |s: f64| prop::collection::vec(prop_oneof![4 => -s..s, 1 => Just(0.0), 1 => -0.2 * s..0.2 * s], 9);
                    (0usize..7, x(1e-6), x(8000.0), prop_oneof![x(500.0), x(1.0), x(0.2)], 1e-3..1e3f64, prop::collection::vec(prop::bool::ANY, 9))
                        .prop_map(|(ctrl, err, cur, delta, k, flip)| EstCase { ctrl, err, cur, delta, k, flip })
                },
                |c: &EstCase| {
                    let cand: Vec<f64> = c.cur.iter().zip(&c.delta).map(|(a, b)| a + b).collect();
                    let e0 = est(c.ctrl, &c.err, &cand, &c.cur);
                    req!(e0 >= 0.0 && e0.is_finite(), "neg", "error {e0}");
                    // Reflecting axes must not change the error.
                    let fl = |x: &[f64]| x.iter().zip(&c.flip).map(|(v, f)| if *f { -v } else { *v }).collect::<Vec<_>>();
                    let e1 = est(c.ctrl, &fl(&c.err), &fl(&cand), &fl(&c.cur));
                    req!(close(e0, e1, 1e-12, 0.0), "reflect", "{:?}: {e0:e} becomes {e1:e} when axes are reflected", CTRLS[c.ctrl]);
                    // Linear in the error.
                    let ke: Vec<f64> = c.err.iter().map(|v| v * c.k).collect();
                    let e2 = est(c.ctrl, &ke, &cand, &c.cur);
                    req!(close(e0 * c.k, e2, 1e-12, 0.0), "linear", "{:?}: not linear in the error", CTRLS[c.ctrl]);
                    let m = est_model(c.ctrl, &c.err, &cand, &c.cur);
                    req!(close(e0, m, 1e-12, 0.0), "model", "{:?}: error {e0:e}, expected {m:e}", CTRLS[c.ctrl]);
                    Ok(if nrm(&c.delta) > 1.0 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "fixed-step",
                "more than two fixed steps",
                1200,
                20000,
                || (leo_to_geo(), 0usize..6, 1.0..200.0f64, dur_ns(7200.0), prop::bool::ANY),
                |c: &(GenOrbit, usize, f64, i64, bool)| {
                    let (o, method, step, dur, adaptive_opts) = c;
                    let step = secs(rnd3(*step));
                    // RK4 is a fixed-step method even with adaptive options.
                    let (m, opts) = if *adaptive_opts {
                        let mut o = IntegratorOptions::default();
                        o.init_step = step;
                        (IntegratorMethod::RungeKutta4, o)
                    } else {
                        (METHODS[*method], IntegratorOptions::with_fixed_step(step))
                    };
                    let al = almanac();
                    let s0 = spacecraft(o.earth(), 100.0, 0.0, 1.0, 1.2, 1.0, 2.0);
                    let prop = Propagator::new(dynamics(0), m, opts);
                    let (_, traj) = match prop.with(s0, al).quiet().for_duration_with_traj(ns(*dur)) {
                        Ok(x) => x,
                        Err(e) => return fail("err", format!("{e}")),
                    };
                    let mut ts: Vec<i128> = traj.states.iter().map(|s| (s.epoch() - s0.epoch()).total_nanoseconds().abs()).collect();
                    ts.sort();
                    let mut want: Vec<i128> = Vec::new();
                    let total = (*dur as i128).abs();
                    let h = step.total_nanoseconds();
                    let mut t = 0;
                    while t < total {
                        want.push(t);
                        t += h;
                    }
                    want.push(total);
                    req!(ts == want, "grid", "fixed steps of {step} over {} gave {} states, first offsets {:?}", ns(*dur), ts.len(), &ts[..ts.len().min(5)]);
                    Ok(if want.len() > 3 { Out::Hit } else { Out::Trivial })
                },
            ),
        ],
    }
}
