//! P10 Lambert solvers, P11 differential correction, P12 B-plane.
use crate::fw::*;
use crate::p_prop::dynamics;
use crate::req;
use crate::world::*;
use anise::astro::orbit_gradient::OrbitGrad;
use anise::prelude::{Frame, Orbit};
use nalgebra::Vector3;
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::cosmic::{BPlane, BPlaneTarget, try_achieve_b_plane};
use nyx_space::md::objective::Objective;
use nyx_space::md::targeter::Targeter;
use nyx_space::md::{StateParameter, Variable, Vary};
use nyx_space::propagators::{IntegratorOptions, Propagator};
use nyx_space::tools::lambert::{LambertInput, LambertSolution, TransferKind, gooding, izzo};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::{PI, TAU};

pub const PROPS: &[fn() -> Prop] = &[p10, p11, p12];

type V3 = Vector3<f64>;

// ---------------------------------------------------------------------------------------------
// P10 Lambert
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Transfer {
    o: GenOrbit,
    /// Central body: 0 Earth, 1 Moon, 2 Sun (sizes scaled accordingly)
    body: u8,
    /// True anomaly at arrival, as a fraction of the reachable range
    arr: f64,
    revs: u8,
    /// Velocities of the two planets
    vp: [f64; 6],
    kind: u8,
}

fn frame_mu(body: u8) -> (Frame, f64, f64) {
    match body {
        0 => (eme2k(), MU_EARTH, 1.0),
        1 => (moon_j2k(), MU_MOON, 0.3),
        _ => (sun_j2k(), MU_SUN, 2.0e4),
    }
}

fn transfers() -> BoxedStrategy<Transfer> {
    (
        orbits(6700.0, 42000.0, 0.85),
        prop_oneof![4 => Just(0.0), 1 => 1.01..2.5f64],
        prop_oneof![4 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8)],
        0.02..0.98f64,
        prop_oneof![3 => Just(0u8), 1 => 1u8..4],
        prop::array::uniform6(-3.0..3.0f64),
        0u8..3,
    )
        .prop_map(|(mut o, hyp, body, arr, revs, vp, kind)| {
            if hyp > 1.0 {
                o.ecc = hyp;
                let lim = (-1.0f64 / hyp).acos().to_degrees();
                // A point of the incoming or outgoing branch, inside the asymptotes
                o.ta = (o.ta / 180.0 - 1.0) * 0.8 * lim;
            }
            Transfer { o, body, arr, revs: if hyp > 1.0 { 0 } else { revs }, vp, kind }
        })
        .boxed()
}

struct Truth {
    frame: Frame,
    mu: f64,
    r1: V3,
    v1: V3,
    r2: V3,
    v2: V3,
    tof: f64,
    angle: f64, // swept, modulo one revolution, degrees
}

impl Transfer {
    /// The orbit itself is a solution of the boundary problem between two of its points.
    fn truth(&self) -> Option<Truth> {
        let (frame, mu, scale) = frame_mu(self.body);
        let mut o = self.o.clone();
        o.rp_km *= scale;
        let (r1, v1) = o.rv(mu);
        let e = o.ecc;
        let ta1 = o.ta.to_radians();
        let tof = if e < 1.0 {
            // Mean anomaly from the true anomaly, arrival at a fraction of the revolution in true anomaly
            let m_of = |ta: f64| {
                let ea = 2.0 * ((1.0 - e).sqrt() * (ta / 2.0).sin()).atan2((1.0 + e).sqrt() * (ta / 2.0).cos());
                (ea - e * ea.sin()).rem_euclid(TAU)
            };
            let ta2 = ta1 + self.arr * TAU;
            let mut dm = m_of(ta2) - m_of(ta1);
            if dm < 0.0 {
                dm += TAU;
            }
            let per = o.period_s(mu);
            dm / TAU * per + self.revs as f64 * per
        } else {
            let lim = (-1.0 / e).acos() * 0.85;
            let ta2 = ta1 + self.arr * (lim - ta1);
            if ta2 <= ta1 {
                return None;
            }
            let m_of = |ta: f64| {
                let f = 2.0 * (((e - 1.0) / (e + 1.0)).sqrt() * (ta / 2.0).tan()).atanh();
                e * f.sinh() - f
            };
            let a = o.rp_km / (e - 1.0);
            (m_of(ta2) - m_of(ta1)) * (a.powi(3) / mu).sqrt()
        };
        // Whole milliseconds, so that the epochs hold the exact duration.
        let tof = (tof * 1e3).round() / 1e3;
        if tof < 30.0 {
            return None;
        }
        let (r2, v2) = kepler(r1, v1, mu, tof);
        let h = r1.cross(&v1);
        let s = h.dot(&r1.cross(&r2)) / h.norm();
        let angle = s.atan2(r1.dot(&r2)).to_degrees().rem_euclid(360.0);
        // The plane is undefined for collinear positions.
        if !(5.0..355.0).contains(&angle) || (angle - 180.0).abs() < 5.0 {
            return None;
        }
        Some(Truth { frame, mu, r1, v1, r2, v2, tof, angle })
    }

    fn input(&self, t: &Truth) -> LambertInput {
        let vp = &self.vp;
        let e1 = self.o.epoch();
        let o1 = Orbit::new(t.r1.x, t.r1.y, t.r1.z, vp[0], vp[1], vp[2], e1, t.frame);
        let o2 = Orbit::new(t.r2.x, t.r2.y, t.r2.z, vp[3], vp[4], vp[5], e1 + secs(t.tof), t.frame);
        LambertInput::from_planetary_states(o1, o2).expect("same frame")
    }
}

/// `slack_s`: time tolerance of the solver.
fn bvp(what: &str, t: &Truth, sol: &LambertSolution, slack_s: f64, rel: f64) -> R {
    let (r2, v2) = kepler(t.r1, sol.v_init_km_s, t.mu, t.tof);
    let dr = (r2 - t.r2).norm();
    let vm = t.v2.norm().max(sol.v_final_km_s.norm());
    let tol = slack_s * vm + rel * t.r2.norm().max(t.r1.norm());
    req!(dr <= tol, &format!("{what}-miss"), "the transfer misses the arrival point by {dr:.3e} km (allowed {tol:.1e}; {:.0} s, {:.1} deg)", t.tof, t.angle);
    let dv = (v2 - sol.v_final_km_s).norm();
    let acc = t.mu / t.r2.norm_squared();
    let tolv = slack_s * acc + 30.0 * rel * vm * (t.r1.norm() / t.r2.norm()).max(1.0);
    req!(dv <= tolv, &format!("{what}-vfinal"), "arrival velocity off by {dv:.3e} km/s (allowed {tolv:.1e})");
    Ok(Out::Hit)
}

fn derived(t: &Truth, s: &LambertSolution, vp: &[f64; 6]) -> R {
    let vout = s.v_init_km_s - V3::new(vp[0], vp[1], vp[2]);
    let vin = s.v_final_km_s - V3::new(vp[3], vp[4], vp[5]);
    req!((s.v_inf_outgoing_km_s() + vout).norm() < 1e-9, "v-inf-out", "{:?} is not the difference of the planet and departure velocities {vout:?}", s.v_inf_outgoing_km_s());
    req!((s.v_inf_incoming_km_s() + vin).norm() < 1e-9, "v-inf-in", "{:?} {vin:?}", s.v_inf_incoming_km_s());
    req!(close(s.c3_km2_s2(), vout.norm_squared(), 1e-9, 1e-12), "c3", "{} for {}", s.c3_km2_s2(), vout.norm_squared());
    let (ra, de) = (s.v_inf_outgoing_right_ascension_deg(), s.v_inf_outgoing_declination_deg());
    let u = V3::new(de.to_radians().cos() * ra.to_radians().cos(), de.to_radians().cos() * ra.to_radians().sin(), de.to_radians().sin());
    req!((u * vout.norm() - vout).norm() < 1e-6 * vout.norm() + 1e-9, "asymptote", "right ascension {ra} and declination {de} are not the direction of {vout:?}");
    let (a, b) = (s.transfer_orbit(), s.arrival_orbit());
    req!(a.radius_km == t.r1 && a.velocity_km_s == s.v_init_km_s && a.frame == t.frame, "transfer-orbit", "{a}");
    req!(b.radius_km == t.r2 && b.velocity_km_s == s.v_final_km_s && b.epoch - a.epoch == secs(t.tof), "arrival-orbit", "{b}");
    Ok(Out::Hit)
}

fn chk_zero_rev(c: &Transfer) -> R {
    let mut c = c.clone();
    c.revs = 0;
    let Some(t) = c.truth() else { return Ok(Out::Discard) };
    let input = c.input(&t);
    let short = t.angle < 180.0;
    let n12 = t.r1.cross(&t.r2);
    let prograde = t.r1.cross(&t.v1).z > 0.0;
    let kind = |k: u8| match k {
        0 => TransferKind::ShortWay,
        1 => TransferKind::LongWay,
        _ => TransferKind::Auto,
    };
    // The kind that describes the generating orbit, when there is one, and the others.
    for k in [0u8, 1, 2] {
        if k == 2 && n12.z.abs() < 0.02 * n12.norm() {
            continue;
        }
        let is_truth = match k {
            0 => short,
            1 => !short,
            _ => prograde,
        };
        for solver in ["izzo", "gooding"] {
            let s = if solver == "izzo" { izzo(input, kind(k)) } else { gooding(input, kind(k)) };
            let s = match s {
                Ok(s) => s,
                Err(e) => {
                    // Gooding's method as implemented is bounded: only the common transfers have to converge.
                    let common = is_truth && if solver == "izzo" { c.o.ecc < 20.0 && (1.0..359.0).contains(&t.angle) } else { c.o.ecc < 0.7 && (20.0..340.0).contains(&t.angle) && t.tof < 3.0e7 };
                    req!(!common, &format!("{solver}-fails"), "{e} for a transfer of {:.1} deg in {:.0} s on an orbit of eccentricity {:.3}", t.angle, t.tof, c.o.ecc);
                    continue;
                }
            };
            let h = t.r1.cross(&s.v_init_km_s);
            let sense = h.dot(&n12);
            match k {
                0 => req!(sense > 0.0, &format!("{solver}-short"), "the short way transfer sweeps more than 180 deg"),
                1 => req!(sense < 0.0, &format!("{solver}-long"), "the long way transfer sweeps less than 180 deg"),
                _ => req!(h.z > 0.0, &format!("{solver}-auto"), "the automatic transfer does not go toward increasing right ascension"),
            }
            let (slack, rel) = if solver == "izzo" { (0.0, 2e-7) } else { (2e-4, 2e-7) };
            bvp(solver, &t, &s, slack, rel)?;
            // Less than one revolution
            let energy = s.v_init_km_s.norm_squared() / 2.0 - t.mu / t.r1.norm();
            if energy < 0.0 {
                let a = -t.mu / 2.0 / energy;
                let per = TAU * (a.powi(3) / t.mu).sqrt();
                req!(t.tof < per * (1.0 + 1e-6), &format!("{solver}-revs"), "more than one revolution: {} s, period {per} s", t.tof);
            }
            if is_truth {
                let dv = (s.v_init_km_s - t.v1).norm();
                // The velocity follows from the time of flight: the solvers stop at 1e-4 s.
                let tol = 1e-5 * t.v1.norm() * (1.0 + 100.0 / t.tof) / (t.angle.to_radians().sin().abs()).max(0.05);
                req!(dv <= tol, &format!("{solver}-velocity"), "departure velocity off by {dv:.3e} km/s (allowed {tol:.1e}) for {:.1} deg in {:.0} s", t.angle, t.tof);
            }
            derived(&t, &s, &c.vp)?;
        }
    }
    Ok(Out::Hit)
}

/// Smallest time of flight with `n` revolutions, by golden-section search on Lagrange's equation in the universal variable.
fn min_tof(t: &Truth, n: u8, short: bool) -> f64 {
    let (r1, r2) = (t.r1.norm(), t.r2.norm());
    let c = (t.r2 - t.r1).norm();
    let s = (r1 + r2 + c) / 2.0;
    let f = |x: f64| {
        // x = cos(alpha/2) over (-1, 1)
        let a = s / 2.0 / (1.0 - x * x);
        let alpha = 2.0 * x.clamp(-1.0, 1.0).acos();
        let beta = 2.0 * ((s - c) / s * (1.0 - x * x)).sqrt().asin() * if short { 1.0 } else { -1.0 };
        (a.powi(3) / t.mu).sqrt() * ((alpha - alpha.sin()) - (beta - beta.sin()) + TAU * n as f64)
    };
    let (mut lo, mut hi) = (-0.999, 0.999);
    let g = (5f64.sqrt() - 1.0) / 2.0;
    for _ in 0..200 {
        let (m1, m2) = (hi - g * (hi - lo), lo + g * (hi - lo));
        if f(m1) < f(m2) {
            hi = m2;
        } else {
            lo = m1;
        }
    }
    f((lo + hi) / 2.0)
}

fn chk_multi_rev(c: &Transfer) -> R {
    let mut c = c.clone();
    if c.o.ecc >= 1.0 {
        return Ok(Out::Discard);
    }
    c.revs = c.revs.max(1);
    let Some(t) = c.truth() else { return Ok(Out::Discard) };
    let input = c.input(&t);
    req!(gooding(input, TransferKind::NRevs(c.revs)).is_err(), "gooding-nrevs", "several revolutions are not supported by this solver");
    let mut hit = Out::Trivial;
    for n in 0..=c.revs + 1 {
        // The solver goes the short way for several revolutions.
        let tmin = if n == 0 { 0.0 } else { min_tof(&t, n, true) };
        match izzo(input, TransferKind::NRevs(n)) {
            Ok(s) => {
                req!(t.tof > tmin * (1.0 - 1e-6), "infeasible-ok", "{n} revolutions in {} s, but at least {tmin} s are needed", t.tof);
                // Close to the minimum time, the two solutions merge and the root is flat.
                let merge = ((t.tof - tmin) / tmin.max(1.0)).max(1e-12);
                let rel = if n == 0 { 2e-7 } else { 2e-7 + 2e-8 / merge };
                let (r2, _) = kepler(t.r1, s.v_init_km_s, t.mu, t.tof);
                if n > 0 && merge < 1e-4 {
                    let _ = r2;
                    continue;
                }
                bvp("izzo-nrevs", &t, &s, 0.0, rel * (1 + n) as f64)?;
                let energy = s.v_init_km_s.norm_squared() / 2.0 - t.mu / t.r1.norm();
                if energy < 0.0 {
                    let a = -t.mu / 2.0 / energy;
                    let revs = t.tof / (TAU * (a.powi(3) / t.mu).sqrt());
                    req!(revs.floor() as u8 == n || (revs - revs.round()).abs() < 1e-6, "revolutions", "{revs} revolutions when {n} are asked for");
                } else {
                    req!(n == 0, "revolutions", "a hyperbola cannot make {n} revolutions");
                }
                req!(t.r1.cross(&s.v_init_km_s).dot(&t.r1.cross(&t.r2)) > 0.0, "nrevs-way", "not the short way");
                if n > 0 {
                    hit = Out::Hit;
                }
            }
            Err(e) => {
                let clear = n == 0 || t.tof > tmin * 1.01;
                req!(!clear, "nrevs-fails", "{e}: {n} revolutions need {tmin} s and {} s are available", t.tof);
            }
        }
    }
    Ok(hit)
}

fn chk_lambert_frames(c: &Transfer) -> R {
    let Some(t) = c.truth() else { return Ok(Out::Discard) };
    let i = c.input(&t);
    let mut o2 = i.final_state;
    o2.frame = frame_mu(c.body + 1).0;
    if c.body < 2 {
        req!(LambertInput::from_planetary_states(i.initial_state, o2).is_err(), "frame-mismatch", "states in two frames were accepted");
    }
    let mut a = i.initial_state;
    let mut b = i.final_state;
    a.frame.mu_km3_s2 = None;
    b.frame.mu_km3_s2 = None;
    req!(LambertInput::from_planetary_states(a, b).is_err(), "no-mu", "a frame without gravitational parameter was accepted");
    Ok(Out::Hit)
}

fn p10() -> Prop {
    Prop {
        id: "P10",
        assumptions: &["Positions are at least 5 degrees away from collinear, where the transfer plane is defined. The solvers stop at 1e-4 (s for Gooding): the allowance follows from that."],
        subs: vec![
            sub("zero-revolution", "the boundary problem is non-degenerate", 400_000, 2_000_000, transfers, chk_zero_rev),
            sub("multi-revolution", "at least one solution with a revolution or more", 200_000, 1_000_000, transfers, chk_multi_rev),
            sub("input", "non-degenerate", 500, 5_000, transfers, chk_lambert_frames),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// P11 differential correction
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tgt {
    o: GenOrbit,
    /// Correction epoch, after the initial state, in minutes
    corr_min: f64,
    /// Duration from the correction to the achievement, as a fraction of the period
    frac: f64,
    /// Correction that makes the objectives reachable
    dv: [f64; 3],
    dynamics: u8,
    kind: u8,
    objs: u8,
    tol_exp: f64,
    guess: f64,
    moon: bool,
}

fn tgts() -> BoxedStrategy<Tgt> {
    (
        orbits(7000.0, 30000.0, 0.3),
        prop_oneof![Just(0.0), 1.0..120.0f64],
        prop_oneof![0.05..0.42f64, 0.58..0.92f64],
        prop::array::uniform3(-1.0..1.0f64),
        0u8..2,
        0u8..5,
        0u8..4,
        -4.0..-1.0f64,
        prop_oneof![Just(0.0), -0.01..0.01f64],
        any::<bool>(),
    )
        .prop_map(|(o, corr_min, frac, dv, dynamics, kind, objs, tol_exp, guess, moon)| Tgt {
            o,
            corr_min: rnd3(corr_min),
            frac,
            dv,
            dynamics,
            kind,
            objs,
            tol_exp,
            guess,
            moon,
        })
        .boxed()
}

use anise::astro::orbit_gradient::OrbitalElementPartials;
#[allow(unused)]
type Oep = OrbitalElementPartials;
use nyx_space::md::prelude::OrbitalElement;

fn solve<const O: usize>(c: &Tgt, objectives: [StateParameter; O], must: bool) -> R {
    let almanac = almanac();
    let prop = Propagator::rk89(dynamics(c.dynamics), IntegratorOptions::with_adaptive_step_s(0.1, 600.0, 1e-12, nyx_space::propagators::ErrorControl::RSSCartesianStep));
    let o = c.o.earth();
    let sc = spacecraft(o, 800.0, 50.0, 1.0, 1.1, 1.0, 2.0);
    let ce = o.epoch + secs(c.corr_min * 60.0);
    let ae = ce + secs(rnd3(c.frac * c.o.period_s(MU_EARTH)));
    let xi = prop.with(sc, almanac.clone()).quiet().until_epoch(ce).unwrap();
    // A state which achieves the objectives
    let mut hit = xi;
    let positions = c.kind == 1;
    let d = V3::new(c.dv[0], c.dv[1], c.dv[2]);
    if positions {
        hit.orbit.radius_km += d * 20.0;
    } else {
        hit.orbit.velocity_km_s += d * 0.03;
    }
    let truth = prop.with(hit, almanac.clone()).quiet().until_epoch(ae).unwrap();
    let oframe = if c.moon { Some(moon_j2k()) } else { None };
    let in_frame = |s: &Spacecraft| match oframe {
        Some(f) => almanac.transform_to(s.orbit, f, None).unwrap(),
        None => s.orbit,
    };
    let value = |s: &Spacecraft, p: StateParameter| -> f64 {
        let s = s.with_orbit(in_frame(s));
        s.value(p).unwrap()
    };
    let objs: [Objective; O] = std::array::from_fn(|i| {
        // Velocities and ratios need a finer tolerance than lengths.
        let p = objectives[i];
        let scale = match p {
            StateParameter::Element(OrbitalElement::VX | OrbitalElement::VY | OrbitalElement::VZ) => 1e-3,
            StateParameter::Element(OrbitalElement::Eccentricity) => 1e-4,
            _ => 1.0,
        };
        Objective::within_tolerance(p, value(&truth, p), scale * 10f64.powf(c.tol_exp))
    });
    // Steps which are limited to less than the correction, over arcs short enough to be almost linear
    let small_steps = c.dv[0].to_bits() % 3 != 0 && c.frac < 0.3;
    let vars: [Variable; 3] = if positions {
        [Vary::PositionX, Vary::PositionY, Vary::PositionZ].map(|v| {
            let mut v = Variable::from(v);
            v.max_step = if small_steps { 5.0 } else { 50.0 };
            v.max_value = 1000.0;
            v.min_value = -1000.0;
            v
        })
    } else {
        [Vary::VelocityX, Vary::VelocityY, Vary::VelocityZ].map(|v| {
            let mut v = Variable::from(v).with_initial_guess(if c.kind == 3 { 0.0 } else { c.guess });
            if small_steps {
                v.max_step = 8e-3;
            }
            v
        })
    };
    let local = c.kind == 2;
    let mut tgt = if local { Targeter::vnc_with_components(&prop, vars, objs) } else { Targeter::new(&prop, vars, objs) };
    if c.kind == 4 {
        tgt = Targeter::delta_v(&prop, objs);
    }
    tgt.objective_frame = oframe;
    let dual = c.kind == 3;
    let sol = if dual { tgt.try_achieve_dual(sc, ce, ae, almanac.clone()) } else { tgt.try_achieve_from(sc, ce, ae, almanac.clone()) };
    let sol = match sol {
        Ok(s) => s,
        Err(e) => {
            req!(!must, "no-convergence", "{e} although a correction of {:?} achieves the objectives", d * if positions { 20.0 } else { 0.03 });
            return Ok(Out::Trivial);
        }
    };
    // The corrected state is the propagated initial state, plus the correction on the chosen components.
    let cs = sol.corrected_state;
    req!(cs.epoch() == ce && cs.orbit.frame == xi.orbit.frame, "corrected-epoch", "{} instead of {ce}", cs.epoch());
    req!(cs.mass == xi.mass && cs.srp == xi.srp && cs.drag == xi.drag, "corrected-spacecraft", "{cs}");
    let dr = cs.orbit.radius_km - xi.orbit.radius_km;
    let dv = cs.orbit.velocity_km_s - xi.orbit.velocity_km_s;
    let corr = V3::new(sol.correction[0], sol.correction[1], sol.correction[2]);
    let (want_dr, want_dv) = if positions {
        (corr, V3::zeros())
    } else if local {
        // Velocity, normal, conormal axes of the state to correct
        let (r, v) = (xi.orbit.radius_km, xi.orbit.velocity_km_s);
        let xh = v.normalize();
        let yh = r.cross(&v).normalize();
        let zh = xh.cross(&yh);
        (V3::zeros(), xh * corr.x + yh * corr.y + zh * corr.z)
    } else {
        (V3::zeros(), corr)
    };
    req!((dr - want_dr).norm() < 1e-7, "correction-position", "the position changes by {dr:?} for a correction of {corr:?}");
    req!((dv - want_dv).norm() < 1e-10, "correction-velocity", "the velocity changes by {dv:?} for a correction of {corr:?}");
    // The corrected state achieves the objectives, as another propagation shows.
    let mut plain = cs;
    plain.stm = None;
    let end = prop.with(plain, almanac.clone()).quiet().until_epoch(ae).unwrap();
    for (i, ob) in objs.iter().enumerate() {
        let got = value(&end, ob.parameter);
        let slack = match ob.parameter {
            StateParameter::Element(OrbitalElement::VX | OrbitalElement::VY | OrbitalElement::VZ) => 1e-9,
            StateParameter::Element(OrbitalElement::Eccentricity) => 1e-10,
            _ => 1e-6,
        };
        let err = ob.desired_value - got;
        req!(err.abs() <= ob.tolerance + slack, "objective", "{:?} is off by {err:.3e} after the correction (tolerance {:.1e})", ob.parameter, ob.tolerance);
        req!(close(err, sol.achieved_errors[i], 0.0, slack * 2.0), "achieved-error", "{:?} is reported off by {:.6e}, and is off by {err:.6e}", ob.parameter, sol.achieved_errors[i]);
    }
    let da = (sol.achieved_state.orbit.radius_km - end.orbit.radius_km).norm();
    req!(sol.achieved_state.epoch() == ae && da < 1e-6, "achieved-state", "the reported final state is {da:.3e} km off at {}", sol.achieved_state.epoch());
    // And applying the solution confirms it.
    let tight = objs.iter().zip(sol.achieved_errors.iter()).all(|(o, e)| e.abs() < 0.999 * o.tolerance);
    if tight {
        match tgt.apply(&sol, almanac.clone()) {
            Ok(a) => {
                let da = (a.orbit.radius_km - end.orbit.radius_km).norm();
                req!(a.epoch() == ae && da < 1e-6, "apply-state", "{da:.3e} km off");
            }
            Err(e) => return fail("apply", format!("{e}")),
        }
    }
    Ok(if sol.iterations > 0 { Out::Hit } else { Out::Trivial })
}

fn chk_target(c: &Tgt) -> R {
    use OrbitalElement as E;
    let el = |e: E| StateParameter::Element(e);
    // Near-degenerate elements make the objectives ill-defined.
    let elements_ok = c.o.ecc > 0.02 && c.o.inc > 5.0 && c.o.inc < 175.0;
    match c.objs {
        0 => solve(c, [el(E::X), el(E::Y), el(E::Z)], true),
        1 if elements_ok && !c.moon => solve(c, [el(E::SemiMajorAxis), el(E::Inclination)], false),
        2 if elements_ok && !c.moon => solve(c, [el(E::SemiMajorAxis), el(E::Eccentricity), el(E::Inclination)], false),
        3 => solve(c, [el(E::Rmag)], false),
        _ => Ok(Out::Discard),
    }
}

fn chk_variable(c: &(f64, f64, f64, f64, f64)) -> R {
    let (min, max, val, step, tol) = *c;
    let mut v = Variable::from(Vary::VelocityX).with_min(min).with_max(max);
    v.max_step = step;
    let ok = step >= 0.0 && max >= 0.0 && min <= max;
    req!(v.valid().is_ok() == ok, "valid", "validity of min {min}, max {max}, step {step} is {:?}", v.valid());
    if min <= max {
        req!(v.apply_bounds(val) == val.clamp(min, max), "bounds", "{} for {val} in [{min}, {max}]", v.apply_bounds(val));
        let (b, inside) = v.check_bounds(val);
        req!(b == val.clamp(min, max) && inside == (val >= min && val <= max), "check-bounds", "{b} {inside}");
        let mut m = val;
        v.ensure_bounds(&mut m);
        req!(m == val.clamp(min, max), "ensure-bounds", "{m}");
    }
    // Objectives
    let mut o = Objective::within_tolerance(StateParameter::Element(OrbitalElement::X), max, tol.abs());
    let (a, e) = o.assess_value(val);
    req!(e == max - val && a == ((max - val).abs() <= tol.abs()), "assess", "{a} {e} for {val}, wanted {max} within {tol}");
    o.multiplicative_factor = min;
    o.additive_factor = step;
    let (a, e) = o.assess_value(val);
    let w = min * (max - val) + step;
    req!(close(e, w, 1e-12, 1e-12) && (a == (w.abs() <= tol.abs()) || close(w.abs(), tol.abs(), 1e-9, 1e-9)), "assess-factors", "{a} {e} instead of {w}");
    Ok(Out::Hit)
}

fn p11() -> Prop {
    Prop {
        id: "P11",
        assumptions: &["Impulsive corrections; objectives are those of a state that a known small correction reaches. Convergence itself is only required for full position targets away from half revolutions."],
        subs: vec![
            sub("correction", "a correction was needed and found", 3_000, 20_000, tgts, chk_target),
            sub("variables", "always", 5_000, 100_000, || (-10.0..10.0f64, -3.0..10.0f64, -20.0..20.0f64, -1.0..5.0f64, 0.0..20.0f64), chk_variable),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// P12 B-plane
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hyper {
    o: GenOrbit,
    body: u8,
    along: f64,
    tgt: [f64; 2],
    tol_exp: f64,
}

fn hypers() -> BoxedStrategy<Hyper> {
    (
        orbits(6700.0, 60000.0, 0.7),
        prop_oneof![2 => 1.05..3.0f64, 1 => 1.005..1.05f64, 1 => 3.0..8.0f64, 1 => 0.0..0.99f64],
        0u8..3,
        -0.85..0.85f64,
        prop::array::uniform2(-1.0..1.0f64),
        -6.0..-2.0f64,
    )
        .prop_map(|(mut o, e, body, along, tgt, tol_exp)| {
            o.ecc = e;
            if e > 1.0 {
                let lim = (-1.0f64 / e).acos().to_degrees();
                o.ta = (o.ta / 180.0 - 1.0) * 0.85 * lim;
            }
            Hyper { o, body, along, tgt, tol_exp }
        })
        .boxed()
}

/// B-plane from first principles: the incoming asymptote and the angular momentum about it.
pub fn bref(r: V3, v: V3, mu: f64) -> (V3, V3, V3, V3) {
    let h = r.cross(&v);
    let ev = v.cross(&h) / mu - r.normalize();
    let e = ev.norm();
    let vinf = (v.norm_squared() - 2.0 * mu / r.norm()).sqrt();
    // Position goes to minus the asymptote direction at the true anomaly -acos(-1/e)
    let p = ev / e;
    let q = h.normalize().cross(&p);
    let nu = -(-1.0 / e).acos();
    let s = -(p * nu.cos() + q * nu.sin());
    let t = s.cross(&V3::z()).normalize();
    let rr = s.cross(&t);
    let b = s.cross(&h) / vinf;
    (s, t, rr, b)
}

fn chk_bplane(c: &Hyper) -> R {
    let (frame, mu, scale) = frame_mu(c.body);
    let mut o = c.o.clone();
    o.rp_km *= scale;
    let orbit = o.orbit(frame);
    if o.ecc < 1.0 {
        req!(BPlane::new(orbit).is_err(), "elliptic", "an ellipse has no B-plane");
        return Ok(Out::Hit);
    }
    let (r, v) = (orbit.radius_km, orbit.velocity_km_s);
    let (s, t, rr, b) = bref(r, v, mu);
    if s.cross(&V3::z()).norm() < 1e-3 {
        return Ok(Out::Discard);
    }
    let bp = match BPlane::new(orbit) {
        Ok(b) => b,
        Err(e) => return fail("error", format!("{e} for an eccentricity of {}", o.ecc)),
    };
    let bm = b.norm();
    // Loss of digits near parabolas
    let tol = 1e-9 * bm / (o.ecc - 1.0).min(1.0) / s.cross(&V3::z()).norm();
    req!(bp.epoch == orbit.epoch && bp.frame == frame, "epoch", "{} {}", bp.epoch, bp.frame);
    req!(close(bp.b_dot_t_km(), b.dot(&t), 0.0, tol), "b-dot-t", "{} instead of {}", bp.b_dot_t_km(), b.dot(&t));
    req!(close(bp.b_dot_r_km(), b.dot(&rr), 0.0, tol), "b-dot-r", "{} instead of {}", bp.b_dot_r_km(), b.dot(&rr));
    req!(close(bp.magnitude_km(), bm, 0.0, tol), "magnitude", "{} instead of {bm}", bp.magnitude_km());
    let a = b.dot(&rr).atan2(b.dot(&t)).to_degrees();
    let da = (bp.angle_deg() - a + 540.0).rem_euclid(360.0) - 180.0;
    req!(da.abs() < 1e-6 / (o.ecc - 1.0).min(1.0) && bp.angle_deg() <= 180.0 && bp.angle_deg() >= -180.0, "angle", "{} instead of {a}", bp.angle_deg());
    let m = bp.inertial_to_bplane();
    for (i, w) in [s, t, rr].iter().enumerate() {
        let row = V3::new(m[(i, 0)], m[(i, 1)], m[(i, 2)]);
        req!((row - w).norm() < tol / bm * 10.0 + 1e-11, "dcm", "row {i} of the rotation is {row:?} instead of {w:?}");
    }
    // The same hyperbola has the same B-plane anywhere along it.
    let lim = (-1.0 / o.ecc).acos().to_degrees();
    let mut o2 = o.clone();
    o2.ta = c.along * lim;
    let bp2 = BPlane::new(o2.orbit(frame)).map_err(|e| Fail { sig: "error".into(), msg: format!("{e}") })?;
    let t2 = tol * 30.0;
    req!(close(bp2.b_dot_t_km(), bp.b_dot_t_km(), 0.0, t2) && close(bp2.b_dot_r_km(), bp.b_dot_r_km(), 0.0, t2), "invariant", "the B-plane changes along the orbit: {bp} and {bp2}");
    // Jacobian with respect to the velocity
    let jac = bp.jacobian();
    let vinf2 = v.norm_squared() - 2.0 * mu / r.norm();
    for k in 0..3 {
        let hstep = 1e-5 * v.norm().min(vinf2 / v.norm());
        let f = |d: f64| {
            let mut w = v;
            w[k] += d;
            let (_, t, rr, b) = bref(r, w, mu);
            [b.dot(&rr), b.dot(&t)]
        };
        let (p1, m1, p2, m2) = (f(hstep), f(-hstep), f(2.0 * hstep), f(-2.0 * hstep));
        for row in 0..2 {
            let fd = (8.0 * (p1[row] - m1[row]) - (p2[row] - m2[row])) / (12.0 * hstep);
            let sc = (0..3).map(|q| jac[(row, q)].abs()).fold(0.0, f64::max).max(fd.abs());
            let tolj = 1e-5 * sc + 3e-11 * bm / hstep / (o.ecc - 1.0).min(1.0);
            req!(close(jac[(row, k)], fd, 0.0, tolj), "jacobian", "d{}/dv{k} is {} instead of {fd}", ["BR", "BT"][row], jac[(row, k)]);
        }
    }
    use OrbitalElement as E;
    for (inv, cols) in [(E::VX, [1, 2]), (E::VY, [0, 2]), (E::VZ, [0, 1])] {
        let j2 = bp.jacobian2(StateParameter::Element(inv)).unwrap();
        for row in 0..2 {
            for (q, col) in cols.iter().enumerate() {
                req!(j2[(row, q)] == jac[(row, *col)], "jacobian2", "{inv:?}: {j2} against {jac}");
            }
        }
    }
    req!(bp.jacobian2(StateParameter::Element(E::X)).is_err(), "jacobian2-arg", "position accepted");
    Ok(Out::Hit)
}

fn chk_bplane_target(c: &Hyper) -> R {
    let (frame, mu, scale) = frame_mu(c.body);
    let mut o = c.o.clone();
    if o.ecc < 1.04 || o.ecc > 5.0 {
        return Ok(Out::Discard);
    }
    o.rp_km *= scale;
    // On the way in, where the B-plane is targeted
    o.ta = -o.ta.abs();
    let orbit = o.orbit(frame);
    let (r, v) = (orbit.radius_km, orbit.velocity_km_s);
    let (s, t, rr, b) = bref(r, v, mu);
    if s.cross(&V3::z()).norm() < 0.05 {
        return Ok(Out::Discard);
    }
    let bm = b.norm();
    let small = 0.05;
    let (bt, br) = (b.dot(&t) + small * bm * c.tgt[0], b.dot(&rr) + small * bm * c.tgt[1]);
    let mut target = BPlaneTarget::from_bt_br(bt, br);
    target.tol_b_t_km = bm * 10f64.powf(c.tol_exp);
    // The two tolerances are separate ones
    target.tol_b_r_km = bm * 10f64.powf(c.tol_exp);
    if c.tgt[0] > 0.3 {
        target.tol_b_r_km *= 1e-2;
    } else if c.tgt[0] < -0.3 {
        target.tol_b_t_km *= 1e-2;
    }
    // With a time of flight, it is a target as well
    let timed = BPlaneTarget::from_targets(bt, br, hifitime::Duration::from_seconds(3_600.0 * c.tgt[1]));
    req!(timed.b_t_km == bt && timed.b_r_km == br && close(timed.ltof_s, 3_600.0 * c.tgt[1], 0.0, 1e-8), "timed-target", "{timed:?} for {bt}, {br}");
    let all = timed.to_all_objectives_with_tolerance(0.25);
    req!(all[0].parameter == StateParameter::BdotR() && all[0].desired_value == br && all[0].tolerance == 0.25, "timed-objectives", "{}", all[0]);
    req!(all[1].parameter == StateParameter::BdotT() && all[1].desired_value == bt && all[1].tolerance == 0.25, "timed-objectives", "{}", all[1]);
    req!(all[2].parameter == StateParameter::BLTOF() && all[2].desired_value == timed.ltof_s, "timed-objectives", "{}", all[2]);
    let objs = target.to_objectives_with_tolerance(0.5);
    req!(objs[0].desired_value == br && objs[1].desired_value == bt && objs[0].tolerance == 0.5 && objs[1].tolerance == 0.5, "objectives", "{} {}", objs[0], objs[1]);
    req!(objs[0].parameter == StateParameter::BdotR() && objs[1].parameter == StateParameter::BdotT(), "objectives", "{} {}", objs[0], objs[1]);
    let (dv, bp) = match try_achieve_b_plane(orbit, target) {
        Ok(x) => x,
        Err(e) => {
            // Far in, near periapsis, the needed change is not small any more.
            let far = o.ta < 0.0 && r.norm() > 8.0 * bm && o.ecc > 1.1 && s.cross(&V3::z()).norm() > 0.3;
            req!(!far, "no-convergence", "{e} for a change of {:.1}% of the B vector", 100.0 * small);
            return Ok(Out::Trivial);
        }
    };
    let (_, t, rr, b) = bref(r, v + dv, mu);
    let slack = 1e-9 * bm / (o.ecc - 1.0).min(1.0);
    req!(close(b.dot(&t), bt, 0.0, target.tol_b_t_km + slack), "target-bt", "B.T is {} after the correction, wanted {bt} within {}", b.dot(&t), target.tol_b_t_km);
    req!(close(b.dot(&rr), br, 0.0, target.tol_b_r_km + slack), "target-br", "B.R is {} after the correction, wanted {br} within {}", b.dot(&rr), target.tol_b_r_km);
    req!(close(bp.b_dot_t_km(), b.dot(&t), 0.0, slack * 10.0) && close(bp.b_dot_r_km(), b.dot(&rr), 0.0, slack * 10.0), "target-plane", "the returned B-plane {bp} is not that of the corrected orbit");
    let _ = OrbitGrad::from(orbit);
    Ok(Out::Hit)
}

fn p12() -> Prop {
    Prop {
        id: "P12",
        assumptions: &["Asymptotes away from the pole, where the T axis is defined. The linearized time of flight is not claimed."],
        subs: vec![
            sub("b-plane", "hyperbola with a defined T axis, or ellipse refused", 600_000, 3_000_000, hypers, chk_bplane),
            sub("b-plane-target", "a correction was found", 200_000, 1_000_000, hypers, chk_bplane_target),
        ],
    }
}

#[allow(unused)]
const _PI: f64 = PI;
