//! P06 finite burns, guidance laws and propellant.
use crate::fw::*;
use crate::p_prop::{CTRLS, METHODS};
use crate::req;
use crate::world::*;
use anise::analysis::prelude::OrbitalElement;
use hifitime::Epoch;
use nalgebra::{Matrix3, Vector3};
use nyx_space::cosmic::{GuidanceMode, Mass};
use nyx_space::dynamics::guidance::{GuidanceLaw, Kluever, LocalFrame, Maneuver, MnvrRepr, Objective, Ruggiero, StateParameter, ThrustDirectionReplay, Thruster};
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::polyfit::CommonPolynomial;
use nyx_space::propagators::{IntegratorOptions, Propagator};
use nyx_space::{Spacecraft, State};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub const PROPS: &[fn() -> Prop] = &[p06];

const G0: f64 = 9.80665;
type V3 = Vector3<f64>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Burn {
    o: GenOrbit,
    thrust: f64,
    isp: f64,
    dry: f64,
    prop: f64,
    extra: f64,
    throttle: f64,
    az: [f64; 3],
    el: [f64; 3],
    repr: u8, // 0 vector, 1 constant, 2 linear, 3 quadratic
    frame: u8,
    dur: f64,
    decr: bool,
    method: usize,
    /// Mode of the initial state: the law decides of it before the first step
    coasting: bool,
}

fn burns() -> BoxedStrategy<Burn> {
    (
        (orbits(6700.0, 30000.0, 0.4), 0.05..500.0f64, 200.0..3000.0f64, 50.0..2000.0f64, 1.0..1000.0f64, prop_oneof![Just(0.0), 1.0..500.0f64]),
        prop_oneof![2 => Just(1.0), 3 => 0.05..1.0f64],
        (
            [0.0..6.2f64, -2e-3..2e-3f64, -1e-6..1e-6f64],
            [-1.5..1.5f64, -1e-3..1e-3f64, -5e-7..5e-7f64],
            0u8..4,
            0u8..4,
        ),
        prop_oneof![3 => 60.0..3000.0f64, 1 => -2000.0..-60.0f64],
        prop::bool::weighted(0.8),
        prop::sample::select(vec![0usize, 1, 2, 4, 5]),
        any::<bool>(),
    )
        .prop_map(|((o, thrust, isp, dry, prop, extra), throttle, (az, el, repr, frame), dur, decr, method, coasting)| Burn {
            o, thrust, isp, dry, prop, extra, throttle, az, el, repr, frame, dur: rnd3(dur), decr, method, coasting,
        })
        .boxed()
}

fn local(f: u8) -> LocalFrame {
    [LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::RCN, LocalFrame::VNC][f as usize]
}

fn basis(f: u8, r: &V3, v: &V3) -> Matrix3<f64> {
    let h = r.cross(v).normalize();
    match f {
        0 => Matrix3::identity(),
        1 | 2 => {
            let rh = r.normalize();
            Matrix3::from_columns(&[rh, h.cross(&rh), h])
        }
        _ => {
            let vh = v.normalize();
            Matrix3::from_columns(&[vh, h, vh.cross(&h)])
        }
    }
}

fn sph(a: f64, d: f64) -> V3 {
    V3::new(d.cos() * a.cos(), d.cos() * a.sin(), d.sin())
}

impl Burn {
    fn poly(&self, c: &[f64; 3]) -> CommonPolynomial {
        match self.repr {
            0 | 1 => CommonPolynomial::Constant { a: c[0] },
            2 => CommonPolynomial::Linear { a: c[1], b: c[0] },
            _ => CommonPolynomial::Quadratic { a: c[2], b: c[1], c: c[0] },
        }
    }
    fn ang(&self, c: &[f64; 3], t: f64) -> f64 {
        match self.repr {
            0 | 1 => c[0],
            2 => c[0] + c[1] * t,
            _ => c[0] + c[1] * t + c[2] * t * t,
        }
    }
    fn dir(&self, t: f64) -> V3 {
        sph(self.ang(&self.az, t), self.ang(&self.el, t))
    }
    fn mnvr(&self, start: Epoch, end: Epoch) -> Maneuver {
        Maneuver {
            start,
            end,
            thrust_prct: self.throttle,
            representation: if self.repr == 0 {
                MnvrRepr::Vector(sph(self.az[0], self.el[0]))
            } else {
                MnvrRepr::Angles { azimuth: self.poly(&self.az), elevation: self.poly(&self.el) }
            },
            frame: local(self.frame),
        }
    }
    fn sc(&self, mode: GuidanceMode) -> Spacecraft {
        let mut s = Spacecraft::from_thruster(self.o.earth(), self.dry, self.prop, Thruster { thrust_N: self.thrust, isp_s: self.isp }, mode);
        s.mass = Mass { dry_mass_kg: self.dry, prop_mass_kg: self.prop, extra_mass_kg: self.extra };
        s
    }
    fn dynamics(&self, law: Arc<dyn GuidanceLaw>) -> SpacecraftDynamics {
        let first: Arc<dyn GuidanceLaw> = if self.coasting {
            // Replace another law later: only the law may change.
            Arc::new(Maneuver::from_time_invariant(self.o.epoch() - secs(20.0), self.o.epoch() - secs(10.0), 1.0, V3::x(), LocalFrame::Inertial))
        } else {
            law.clone()
        };
        let d = if self.decr {
            SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), first)
        } else {
            SpacecraftDynamics::from_guidance_law_no_decr(OrbitalDynamics::two_body(), first)
        };
        if self.coasting { d.with_guidance_law(law) } else { d }
    }
    fn mdot(&self) -> f64 {
        self.throttle * self.thrust / (self.isp * G0)
    }
    /// Reference integration from state y at `t` seconds after the maneuver start, thrusting or not.
    fn reference(&self, y: [f64; 7], t: f64, dt: f64, on: bool) -> [f64; 7] {
        let f = |tt: f64, y: &[f64; 7]| {
            let r = V3::new(y[0], y[1], y[2]);
            let v = V3::new(y[3], y[4], y[5]);
            let mut a = -r * (MU_EARTH / r.norm().powi(3));
            let mut md = 0.0;
            if on {
                let m = self.dry + self.extra + y[6];
                a += basis(self.frame, &r, &v) * self.dir(tt) * (self.throttle * self.thrust * 1e-3 / m);
                if self.decr {
                    md = -self.mdot();
                }
            }
            [v.x, v.y, v.z, a.x, a.y, a.z, md]
        };
        gbs(&f, t, y, dt, 30.0, 1e-13)
    }
}

fn y7(s: &Spacecraft) -> [f64; 7] {
    let (r, v) = (s.orbit.radius_km, s.orbit.velocity_km_s);
    [r.x, r.y, r.z, v.x, v.y, v.z, s.mass.prop_mass_kg]
}

fn tight(method: usize) -> IntegratorOptions {
    let _ = method;
    IntegratorOptions {
        init_step: secs(10.0),
        min_step: secs(1e-3),
        max_step: secs(120.0),
        tolerance: 1e-12,
        attempts: 50,
        fixed_step: false,
        error_ctrl: CTRLS[1],
        integration_frame: None,
    }
}

fn near7(a: &[f64; 7], b: &[f64; 7]) -> (f64, f64, f64) {
    let dr = (0..3).map(|i| (a[i] - b[i]).powi(2)).sum::<f64>().sqrt();
    let dv = (3..6).map(|i| (a[i] - b[i]).powi(2)).sum::<f64>().sqrt();
    (dr, dv, (a[6] - b[6]).abs())
}

const PARAMS: [OrbitalElement; 4] = [OrbitalElement::SemiMajorAxis, OrbitalElement::Eccentricity, OrbitalElement::Inclination, OrbitalElement::RAAN];

/// Gradient of a Keplerian element with respect to the velocity, written from the definitions.
fn element(p: usize, r: &V3, v: &V3) -> f64 {
    let mu = MU_EARTH;
    let h = r.cross(v);
    match p {
        0 => 1.0 / (2.0 / r.norm() - v.norm_squared() / mu),
        1 => (v.cross(&h) / mu - r / r.norm()).norm(),
        2 => (h.z / h.norm()).acos(),
        _ => h.x.atan2(-h.y),
    }
}
fn gradient(p: usize, r: &V3, v: &V3) -> V3 {
    let mut g = V3::zeros();
    for i in 0..3 {
        let d = 1e-4;
        let mut a = *v;
        let mut b = *v;
        a[i] += d;
        b[i] -= d;
        let mut x = element(p, r, &a) - element(p, r, &b);
        if p == 3 {
            x = (x + std::f64::consts::PI).rem_euclid(std::f64::consts::TAU) - std::f64::consts::PI;
        }
        g[i] = x / (2.0 * d);
    }
    g
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Law {
    o: GenOrbit,
    // for each element: wanted (0 no, 1 yes), relative change
    want: [Option<f64>; 4],
    eta: f64,
    weights: [f64; 4],
    mode: u8,
    max_eclipse: Option<f64>,
}

fn laws() -> BoxedStrategy<Law> {
    let w = || prop_oneof![1 => Just(None), 1 => prop_oneof![0.02..0.5f64, -0.5..-0.02f64].prop_map(Some)];
    (
        orbits(7000.0, 40000.0, 0.5),
        [w(), w(), w(), w()],
        prop_oneof![Just(0.0), 0.0..1.0f64],
        [0.1..2.0f64, 0.1..2.0f64, 0.1..2.0f64, 0.1..2.0f64],
        0u8..3,
        prop_oneof![Just(None), Just(Some(50.0))],
    )
        .prop_filter("some objective", |c| c.1.iter().any(|x| x.is_some()))
        .prop_map(|(mut o, want, eta, weights, mode, max_eclipse)| {
            o.ecc = o.ecc.max(0.02);
            o.inc = o.inc.clamp(5.0, 175.0);
            // the library of the elements is not reliable at the apsides and nodes themselves
            for a in [&mut o.ta, &mut o.aop, &mut o.raan] {
                if *a % 180.0 < 0.05 || *a % 180.0 > 179.95 {
                    *a = 37.0;
                }
            }
            Law { o, want, eta, weights, mode, max_eclipse }
        })
        .boxed()
}

impl Law {
    fn objectives(&self) -> Vec<(usize, Objective, f64)> {
        let (r, v) = self.o.rv(MU_EARTH);
        let mut out = vec![];
        for p in 0..4 {
            if let Some(d) = self.want[p] {
                let cur = element(p, &r, &v);
                let (val, tol) = match p {
                    0 => (cur * (1.0 + d), 0.1),
                    1 => (cur + 0.3 * d, 1e-4),
                    2 => (cur.to_degrees() + 8.0 * d, 1e-3),
                    // keep away from the branch cut of the angle
                    _ => ((self.o.raan + 20.0 * d).clamp(0.5, 359.5), 1e-3),
                };
                out.push((p, Objective::within_tolerance(StateParameter::Element(PARAMS[p]), val, tol), d));
            }
        }
        out
    }
}

fn err<E: std::fmt::Display>(e: E) -> Fail {
    Fail { sig: "error".into(), msg: format!("{e}") }
}

fn p06() -> Prop {
    Prop {
        id: "P06",
        assumptions: &["maneuvers are resolved at the integration steps", "directions of the guidance laws compared away from singular elements (e > 0.02, 5 deg < i < 175 deg)"],
        subs: vec![
            sub(
                "burn",
                "the burn changes the velocity by more than a metre per second",
                5000,
                60000,
                burns,
                |c: &Burn| {
                    let al = almanac();
                    let t0 = c.o.epoch();
                    let lead = 500.0;
                    let m = c.mnvr(t0 - secs(lead + 4000.0), t0 + secs(4000.0));
                    let t_off = lead + 4000.0;
                    let sc = c.sc(if c.coasting { GuidanceMode::Coast } else { GuidanceMode::Thrust });
                    let p = Propagator::new(c.dynamics(Arc::new(m)), METHODS[c.method], tight(c.method));
                    let end_prop = c.prop - if c.decr { c.mdot() * c.dur } else { 0.0 };
                    let res = p.with(sc, al).quiet().for_duration(secs(c.dur));
                    if end_prop < -1e-6 {
                        let e = match res {
                            Ok(s) => return fail("fuel", format!("{} kg of propellant left after burning {} of {} kg", s.mass.prop_mass_kg, c.prop - end_prop, c.prop)),
                            Err(e) => e,
                        };
                        let m = format!("{e:?}");
                        req!(m.contains("FuelExhausted"), "fuel-error", "running out of propellant gives {m}");
                        return Ok(Out::Hit);
                    }
                    if end_prop < 1e-6 {
                        return Ok(Out::Discard);
                    }
                    let s = res.map_err(err)?;
                    req!(s.mass.dry_mass_kg == c.dry && s.mass.extra_mass_kg == c.extra, "dry", "dry or extra mass changed: {:?}", s.mass);
                    req!(close(s.mass.prop_mass_kg, end_prop, 1e-11, 1e-9), "prop", "propellant {} expected {end_prop}", s.mass.prop_mass_kg);
                    if !c.decr {
                        req!(s.mass.prop_mass_kg == c.prop, "no-decr", "propellant changed without decrement: {}", s.mass.prop_mass_kg);
                    }
                    let want = c.reference(y7(&sc), t_off, c.dur, true);
                    let (dr, dv, _) = near7(&y7(&s), &want);
                    let dv_tot = c.throttle * c.thrust * 1e-3 / (c.dry + c.extra + end_prop.min(c.prop)) * c.dur.abs();
                    let scale = 1.0 + c.dur.abs() / c.o.period_s(MU_EARTH);
                    if std::env::var("VERIF_DEBUG").is_ok() {
                        eprintln!("burn {dr:e} {dv:e} dv {dv_tot} m {}", c.method);
                    }
                    req!(dr < 2e-5 * scale && dv < 2e-8 * scale, "burn", "burn differs from the reference by {dr:e} km and {dv:e} km/s (delta-v {dv_tot} km/s)");
                    Ok(if dv_tot > 1e-3 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "window",
                "the propagation crosses the start or the end of the maneuver",
                3000,
                40000,
                || (burns(), 0.0..0.6f64, 0.1..0.9f64, prop_oneof![Just(10.0), 5.0..60.0f64], prop::bool::ANY),
                |(c, a, w, step, fixed): &(Burn, f64, f64, f64, bool)| {
                    let al = almanac();
                    let dur = c.dur.abs();
                    let (ws, we) = (rnd3(a * dur), rnd3((a + w) * dur));
                    let t0 = c.o.epoch();
                    let m = c.mnvr(t0 + secs(ws), t0 + secs(we));
                    let sc = c.sc(if c.coasting { GuidanceMode::Coast } else { GuidanceMode::Thrust });
                    if c.prop - c.mdot() * (we - ws + 60.0) < 0.0 {
                        return Ok(Out::Discard);
                    }
                    let opts = if *fixed {
                        IntegratorOptions::with_fixed_step(secs(rnd3(*step)))
                    } else {
                        IntegratorOptions { max_step: secs(rnd3(*step)), init_step: secs(5.0), ..tight(0) }
                    };
                    let p = Propagator::new(c.dynamics(Arc::new(m)), METHODS[0], opts);
                    let (end, traj) = p.with(sc, al.clone()).quiet().for_duration_with_traj(secs(dur)).map_err(err)?;
                    let mut used = 0.0;
                    for k in 1..traj.states.len() {
                        let (x, y) = (&traj.states[k - 1], &traj.states[k]);
                        let dt = (y.epoch() - x.epoch()).to_seconds();
                        let on = x.epoch() >= m.start && x.epoch() <= m.end;
                        if x.epoch() == m.end {
                            used += x.mass.prop_mass_kg - y.mass.prop_mass_kg;
                            continue; // the boundary itself may go either way
                        }
                        let dm = x.mass.prop_mass_kg - y.mass.prop_mass_kg;
                        let want = if on && c.decr { c.mdot() * dt } else { 0.0 };
                        req!(close(dm, want, 1e-7, 1e-9), "usage", "step {k} from {} uses {dm:e} kg, expected {want:e} (window {} to {})", x.epoch(), m.start, m.end);
                        used += dm;
                        let ry = c.reference(y7(x), (x.epoch() - m.start).to_seconds(), dt, on);
                        let (dr, dv, _) = near7(&y7(y), &ry);
                        req!(dr < 1e-5 && dv < 1e-7, "step", "step {k} of {dt} s from {} differs from the reference by {dr:e} km, {dv:e} km/s (thrust {on})", x.epoch());
                        let mode_on = y.mode() == GuidanceMode::Thrust;
                        if y.epoch() != m.end {
                            req!(mode_on == (y.epoch() >= m.start && y.epoch() <= m.end), "mode", "mode {:?} at {} for a window {} to {}", y.mode(), y.epoch(), m.start, m.end);
                        }
                    }
                    req!(close(sc.mass.prop_mass_kg - end.mass.prop_mass_kg, used, 1e-9, 1e-9), "total", "total usage");
                    Ok(if ws < dur { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "coast-and-errors",
                "coast phase compared bit for bit, or an invalid command",
                3000,
                30000,
                || (burns(), 0u8..6),
                |(c, k): &(Burn, u8)| {
                    let al = almanac();
                    let t0 = c.o.epoch();
                    let mut m = c.mnvr(t0 - secs(4000.0), t0 + secs(4000.0));
                    let dur = secs(c.dur.abs().min(600.0));
                    let mut sc = c.sc(GuidanceMode::Thrust);
                    match k {
                        0 | 1 => {
                            // entirely outside of the window
                            let (s, e) = if *k == 0 { (t0 + secs(5000.0), t0 + secs(6000.0)) } else { (t0 - secs(6000.0), t0 - secs(5000.0)) };
                            m.start = s;
                            m.end = e;
                            sc.mut_mode(GuidanceMode::Coast);
                            let a = Propagator::new(c.dynamics(Arc::new(m)), METHODS[c.method], tight(0)).with(sc, al.clone()).quiet().for_duration(dur).map_err(err)?;
                            let b = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), METHODS[c.method], tight(0)).with(sc, al).quiet().for_duration(dur).map_err(err)?;
                            let (dr, dv, dm) = near7(&y7(&a), &y7(&b));
                            req!(dr < 1e-9 && dv < 1e-12 && dm == 0.0, "coast", "coasting differs from no guidance by {dr:e} km {dv:e} km/s {dm:e} kg");
                        }
                        2 => {
                            sc.thruster = None;
                            let r = Propagator::new(c.dynamics(Arc::new(m)), METHODS[c.method], tight(0)).with(sc, al).quiet().for_duration(dur);
                            req!(r.is_err(), "thruster", "thrusting without a thruster succeeds");
                        }
                        3 => {
                            m.thrust_prct = if c.throttle > 0.5 { 1.0 + c.throttle } else { -c.throttle };
                            let r = Propagator::new(c.dynamics(Arc::new(m)), METHODS[c.method], tight(0)).with(sc, al).quiet().for_duration(dur);
                            req!(r.is_err(), "throttle", "throttle of {} accepted", m.thrust_prct);
                        }
                        4 => {
                            m.representation = MnvrRepr::Vector(sph(c.az[0], c.el[0]) * (1.0 + 0.5 * c.throttle + 1e-3));
                            let r = Propagator::new(c.dynamics(Arc::new(m)), METHODS[c.method], tight(0)).with(sc, al).quiet().for_duration(dur);
                            req!(r.is_err(), "norm", "a direction that is not a unit vector is accepted");
                        }
                        _ => {
                            // a throttle of zero is a coast
                            m.thrust_prct = 0.0;
                            let a = Propagator::new(c.dynamics(Arc::new(m)), METHODS[c.method], tight(0)).with(sc, al.clone()).quiet().for_duration(dur).map_err(err)?;
                            req!(a.mass == sc.mass, "zero-throttle", "mass changed at zero throttle");
                        }
                    }
                    Ok(Out::Hit)
                },
            ),
            sub(
                "maneuver-direction",
                "a direction varying in time, or set anew",
                20000,
                200000,
                || (burns(), 0.0..3000.0f64, -3.0..3.0f64, -1.5..1.5f64),
                |(c, t, a, d): &(Burn, f64, f64, f64)| {
                    let t0 = c.o.epoch();
                    let mut m = c.mnvr(t0, t0 + secs(3000.0));
                    let v = m.vector(t0 + secs(*t));
                    let w = c.dir(secs(*t).to_seconds());
                    req!((v - w).norm() < 1e-12, "vector", "direction {v:?} expected {w:?}");
                    req!((v.norm() - 1.0).abs() < 1e-12, "unit", "norm {}", v.norm());
                    req!((m.direction() - c.dir(0.0)).norm() < 1e-12, "start", "start direction {:?}", m.direction());
                    req!(m.duration() == secs(3000.0), "duration", "{}", m.duration());
                    // The law applies the frame of the maneuver, in thrust mode only.
                    let sc = c.sc(GuidanceMode::Thrust);
                    let g = GuidanceLaw::direction(&m, &sc).map_err(err)?;
                    let (r, vv) = c.o.rv(MU_EARTH);
                    let want = basis(c.frame, &r, &vv) * c.dir(0.0);
                    req!((g - want).norm() < 1e-10, "frame", "{:?} in {:?}, expected {want:?}", g, m.frame);
                    req!(GuidanceLaw::direction(&m, &c.sc(GuidanceMode::Coast)).map_err(err)?.norm() == 0.0, "coast-dir", "thrust while coasting");
                    req!(m.throttle(&c.sc(GuidanceMode::Coast)).map_err(err)? == 0.0, "coast-throttle", "throttle while coasting");
                    req!(m.throttle(&sc).map_err(err)? == c.throttle, "throttle", "throttle");
                    let nd = sph(*a, *d);
                    m.set_direction(nd).map_err(err)?;
                    req!((m.direction() - nd).norm() < 1e-12 && (m.vector(t0) - nd).norm() < 1e-12, "set", "set {nd:?}, direction {:?}, vector {:?}", m.direction(), m.vector(t0));
                    Ok(Out::Hit)
                },
            ),
            sub(
                "guidance-laws",
                "thrust mode with an unachieved objective",
                20000,
                300000,
                laws,
                |c: &Law| {
                    let al = almanac();
                    let objs = c.objectives();
                    let list: Vec<Objective> = objs.iter().map(|o| o.1).collect();
                    let orb = c.o.earth();
                    let mode = [GuidanceMode::Thrust, GuidanceMode::Coast, GuidanceMode::Inhibit][c.mode as usize];
                    let init = Spacecraft::from_thruster(orb, 500.0, 100.0, Thruster { thrust_N: 1.0, isp_s: 1000.0 }, mode);
                    let etas = [c.eta; 5];
                    let rug: Arc<Ruggiero> = {
                        let r = Ruggiero::from_ηthresholds(&list, &etas, init).map_err(err)?;
                        let mut r = (*r).clone();
                        if let Some(m) = c.max_eclipse {
                            r.set_max_eclipse(m);
                        }
                        Arc::new(r)
                    };
                    let klu = match c.max_eclipse {
                        Some(m) => Kluever::from_max_eclipse(&list, &c.weights[..list.len()], m),
                        None => Kluever::new(&list, &c.weights[..list.len()]),
                    };
                    let (r, v) = c.o.rv(MU_EARTH);
                    let h = r.cross(&v).normalize();
                    // Expected blend of Ruggiero directions: each along the steepest change of its element
                    let mut active = 0;
                    let mut only: Option<(usize, f64)> = None;
                    let mut sum = V3::zeros();
                    let mut ambiguous = false;
                    for (p, ob, _d) in &objs {
                        let cur = init.value(ob.parameter).map_err(err)?;
                        let eta = Ruggiero::efficiency(&ob.parameter, &orb).map_err(err)?;
                        req!((-1e-9..=1.0 + 1e-9).contains(&eta), "efficiency", "efficiency {eta} for {:?}", ob.parameter);
                        // reference efficiency: rate of change relative to the best on this orbit
                        if *p == 0 {
                            let rp = c.o.rp_km;
                            let vp = (MU_EARTH * (2.0 / rp - 1.0 / c.o.sma())).sqrt();
                            req!(close(eta, v.norm() / vp, 1e-9, 0.0), "eta-sma", "efficiency {eta} expected {}", v.norm() / vp);
                        }
                        if (eta - c.eta).abs() < 1e-9 {
                            ambiguous = true;
                        }
                        let diff = ob.desired_value - cur;
                        if diff.abs() < ob.tolerance || eta < c.eta {
                            continue;
                        }
                        active += 1;
                        let s = diff.signum();
                        only = Some((*p, s));
                        let g = gradient(*p, &r, &v);
                        let gp = if *p < 2 { g } else { h * g.dot(&h) };
                        sum += gp.normalize() * s;
                    }
                    if ambiguous {
                        return Ok(Out::Discard);
                    }
                    let d = rug.direction(&init).map_err(err)?;
                    let th = rug.throttle(&init).map_err(err)?;
                    let dk = klu.direction(&init).map_err(err)?;
                    let tk = klu.throttle(&init).map_err(err)?;
                    let achieved = list.iter().all(|o| o.assess(&init).map(|x| x.0).unwrap_or(false));
                    req!(rug.achieved(&init).map_err(err)? == achieved && klu.achieved(&init).map_err(err)? == achieved, "achieved", "achieved {achieved}");
                    if mode != GuidanceMode::Thrust {
                        req!(d.norm() == 0.0 && th == 0.0 && dk.norm() == 0.0 && tk == 0.0, "mode", "thrust in mode {mode:?}");
                    } else {
                        if active == 0 {
                            req!(d.norm() == 0.0 && th == 0.0, "inactive", "thrust {d:?} with nothing to correct efficiently");
                        } else if active == 1 {
                            let (p, _) = only.unwrap();
                            let w = sum.normalize();
                            // the eccentricity and semi-major axis directions are exact, as the out-of-plane ones
                            if std::env::var("VERIF_DEBUG").is_ok() {
                                eprintln!("rug {p} {:e}", (d - w).norm());
                            }
                            req!((d - w).norm() < 1e-5, "steepest", "direction {d:?} for {:?}, steepest change is {w:?}", PARAMS[p]);
                            req!(th == 1.0, "throttle", "throttle {th}");
                        } else {
                            req!((d.norm() - 1.0).abs() < 1e-9 || sum.norm() < 1e-6, "unit", "norm {}", d.norm());
                        }
                        if !achieved {
                            req!((dk.norm() - 1.0).abs() < 1e-9, "kluever-unit", "norm {}", dk.norm());
                        }
                        // Kluever with one objective: steepest change too
                        if objs.len() == 1 {
                            let (p, ob, _) = objs[0];
                            let diff = ob.desired_value - init.value(ob.parameter).map_err(err)?;
                            if diff.abs() > ob.tolerance {
                                let g = gradient(p, &r, &v);
                                let gp = if p < 2 { g } else { h * g.dot(&h) };
                                let w = gp.normalize() * diff.signum();
                                req!((dk - w).norm() < 1e-5, "kluever-steepest", "direction {dk:?} for {:?}, steepest change is {w:?}", PARAMS[p]);
                            }
                        }
                    }
                    // Transitions of the mode
                    let ecl = nyx_space::cosmic::eclipse::ShadowModel::cislunar(&al).compute(orb, &al).map_err(err)?.percentage;
                    if (ecl - 50.0).abs() < 0.5 {
                        return Ok(Out::Discard);
                    }
                    let dark = c.max_eclipse.is_some() && ecl > 50.0;
                    let want = if mode == GuidanceMode::Inhibit {
                        GuidanceMode::Inhibit
                    } else if achieved || dark {
                        GuidanceMode::Coast
                    } else {
                        GuidanceMode::Thrust
                    };
                    let mut s1 = init;
                    rug.next(&mut s1, &al);
                    req!(s1.mode() == want, "next", "Ruggiero goes from {mode:?} to {:?}, expected {want:?} (achieved {achieved}, eclipse {ecl} %)", s1.mode());
                    let mut s2 = init;
                    klu.next(&mut s2, &al);
                    req!(s2.mode() == want, "next-k", "Kluever goes from {mode:?} to {:?}, expected {want:?}", s2.mode());
                    Ok(if mode == GuidanceMode::Thrust && active > 0 { Out::Hit } else { Out::Trivial })
                },
            ),
            sub(
                "closed-loop",
                "the objective is reached or the element moved toward it",
                300,
                4000,
                || (laws(), 0usize..3, prop::bool::ANY, prop::bool::ANY),
                |(c, p, kl, coasting): &(Law, usize, bool, bool)| {
                    // A single objective close to the current value, and enough thrust to reach it.
                    let al = almanac();
                    let (r, v) = c.o.rv(MU_EARTH);
                    let cur = element(*p, &r, &v);
                    let d = c.want.iter().flatten().next().copied().unwrap_or(0.1);
                    let (val, tol, cur) = match p {
                        0 => (cur * (1.0 + 0.02 * d), 1.0, cur),
                        1 => (cur + 0.01 * d, 1e-4, cur),
                        _ => (cur.to_degrees() + 0.2 * d, 2e-3, cur.to_degrees()),
                    };
                    let ob = Objective::within_tolerance(StateParameter::Element(PARAMS[*p]), val, tol);
                    let init = Spacecraft::from_thruster(c.o.earth(), 500.0, 500.0, Thruster { thrust_N: 10.0, isp_s: 2000.0 }, if *coasting { GuidanceMode::Coast } else { GuidanceMode::Thrust });
                    let law: Arc<dyn GuidanceLaw> = if *kl { Kluever::new(&[ob], &[1.0]) } else { Ruggiero::simple(&[ob], init).map_err(err)? };
                    let per = c.o.period_s(MU_EARTH);
                    let opts = IntegratorOptions { max_step: secs(20.0), init_step: secs(10.0), ..tight(0) };
                    let (s, traj) = Propagator::new(SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), law.clone()), METHODS[0], opts)
                        .with(init, al)
                        .quiet()
                        .for_duration_with_traj(secs((0.5 * per).min(20000.0)))
                        .map_err(err)?;
                    // Every step thrusts or not, as the state it starts from asks for
                    for k in 1..traj.states.len() {
                        let (x, y) = (&traj.states[k - 1], &traj.states[k]);
                        let on = if k == 1 { (val - cur).abs() > tol } else { x.mode() == GuidanceMode::Thrust };
                        let dm = x.mass.prop_mass_kg - y.mass.prop_mass_kg;
                        let want = if on { 10.0 / (2000.0 * G0) * (y.epoch() - x.epoch()).to_seconds() } else { 0.0 };
                        // The law is evaluated inside of the steps: a step may end its thrust on the way
                        let ends = (val - y.value(ob.parameter).map_err(err)?).abs() <= 3.0 * tol;
                        req!(close(dm, want, 1e-7, 1e-9) || ends, "usage", "step {k} uses {dm:e} kg, expected {want:e}");
                    }
                    let fin = s.value(ob.parameter).map_err(err)?;
                    let (e0, e1) = ((val - cur).abs(), (val - fin).abs());
                    req!(e1 < e0 || e1 <= 2.0 * tol, "closer", "{:?} went from {cur} to {fin} for a target of {val}", PARAMS[*p]);
                    let ach = law.achieved(&s).map_err(err)?;
                    req!(ach == (e1 <= tol), "achieved", "achieved {ach} at {e1:e} of the target, tolerance {tol:e}");
                    if ach {
                        req!(s.mode() == GuidanceMode::Coast, "coast", "still in {:?} mode", s.mode());
                    }
                    Ok(Out::Hit)
                },
            ),
            sub(
                "replay",
                "a continuous inertial burn of more than ten minutes",
                400,
                5000,
                burns,
                |c: &Burn| {
                    let al = almanac();
                    let mut c = c.clone();
                    c.frame = 0;
                    c.repr = 0;
                    c.throttle = 1.0;
                    c.dur = c.dur.abs();
                    c.decr = true;
                    if c.prop - c.mdot() * c.dur < 1e-3 {
                        return Ok(Out::Discard);
                    }
                    let t0 = c.o.epoch();
                    let m = c.mnvr(t0, t0 + secs(c.dur));
                    let sc = c.sc(GuidanceMode::Thrust);
                    let (e1, traj) = Propagator::new(c.dynamics(Arc::new(m)), METHODS[0], tight(0)).with(sc, al.clone()).quiet().for_duration_with_traj(secs(c.dur)).map_err(err)?;
                    let law = ThrustDirectionReplay::from_trajectory(traj.clone());
                    req!(law.achieved(&sc).map_err(err)? == false, "achieved", "achieved at the start");
                    let (e2, _) = Propagator::new(c.dynamics(law.clone()), METHODS[0], tight(0)).with(sc, al).quiet().for_duration_with_traj(secs(c.dur)).map_err(err)?;
                    let (dr, dv, dm) = near7(&y7(&e1), &y7(&e2));
                    req!(dr < 1e-4 && dv < 1e-7 && dm < 1e-6, "replay", "replay differs by {dr:e} km {dv:e} km/s {dm:e} kg");
                    // outside of the profile nothing is commanded
                    let mut late = sc;
                    late.orbit.epoch = t0 + secs(c.dur + 1.0);
                    req!(law.throttle(&late).map_err(err)? == 0.0, "outside", "thrust after the profile");
                    late.orbit.epoch = t0 - secs(1.0);
                    req!(law.throttle(&late).map_err(err)? == 0.0, "outside", "thrust before the profile");
                    Ok(if c.dur > 600.0 { Out::Hit } else { Out::Trivial })
                },
            ),
        ],
    }
}
