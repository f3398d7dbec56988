//! P32 spacecraft sequence plans.
use crate::fw::*;
use crate::req;
use crate::world::*;
use anise::analysis::prelude::OrbitalElement;
use anise::structure::spacecraft::{DragData, Mass, SRPData};
use hifitime::Epoch;
use nalgebra::{Matrix3, Vector3};
use nyx_space::dynamics::guidance::{Kluever, LocalFrame, Maneuver, MnvrRepr, Objective, ObjectiveEfficiency, ObjectiveWeight, Ruggiero, StateParameter, Thruster, mnvr::ImpulsiveManeuver};
use nyx_space::dynamics::sequence::*;
use nyx_space::dynamics::{AtmDensity, Drag, OrbitalDynamics, PointMasses, SolarPressure, SolidTides, SpacecraftDynamics, TidalPerturber};
use nyx_space::md::Trajectory;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::{Spacecraft, State};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub const PROPS: &[fn() -> Prop] = &[p32];

type V3 = Vector3<f64>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Entry {
    Nothing,
    Moon,
    Earth,
    /// The equator of the Earth or of the Moon
    Equator(bool),
    Stage(Option<(u8, [f64; 3])>, Option<[f64; 7]>, u8),
    Dock(Option<(u8, [f64; 3])>, Option<[f64; 7]>, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Guid {
    thruster: usize,
    no_mass: bool,
    law: u8,
    frame: u8,
    dir: [f64; 3],
    throttle: f64,
    /// Start and end of the burn, as fractions of the phase
    burn: (f64, f64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ph {
    dur: f64,
    prop: usize,
    guid: Option<Guid>,
    entry: Entry,
    disabled: bool,
    terminate: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    o: GenOrbit,
    ph: Vec<Ph>,
    dry: f64,
    prop: f64,
    thr: [(f64, f64); 2],
    /// Fraction of the whole plan at which it is entered
    start: f64,
    until: Option<usize>,
    shared: bool,
}

fn phases() -> BoxedStrategy<Ph> {
    let imp = || proptest::option::weighted(0.7, (0u8..4, [-0.05..0.05f64, -0.05..0.05f64, -0.05..0.05f64]));
    let props = || proptest::option::weighted(0.7, [0.1..20.0f64, 0.1..10.0, 0.1..5.0, 0.01..2.0, 0.01..0.1, 0.01..2.0, 0.01..0.2]);
    let g = (0usize..2, any::<bool>(), prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], 0u8..4, [-1.0..1.0f64, -1.0..1.0, -1.0..1.0], 0.1..1.0f64, (-0.2..0.6f64, 0.7..1.3f64))
        .prop_map(|(thruster, no_mass, law, frame, dir, throttle, burn)| Guid { thruster, no_mass, law, frame, dir, throttle, burn });
    let e = prop_oneof![
        3 => Just(Entry::Nothing),
        1 => Just(Entry::Moon),
        2 => Just(Entry::Earth),
        1 => any::<bool>().prop_map(Entry::Equator),
        2 => (imp(), props(), 0u8..8).prop_map(|(a, b, c)| Entry::Stage(a, b, c)),
        2 => (imp(), props(), 0u8..8).prop_map(|(a, b, c)| Entry::Dock(a, b, c)),
    ];
    (prop_oneof![4 => 60.0..4000.0f64, 1 => 1.0..60.0f64], 0usize..4, proptest::option::weighted(0.4, g), e, prop::bool::weighted(0.2), prop::bool::weighted(0.04))
        .prop_map(|(dur, prop, guid, entry, disabled, terminate)| {
            // A law that chatters takes the smallest steps: millions of them over a long phase.
            let law = guid.as_ref().is_some_and(|g| g.law != 0);
            let (dur, prop) = match (law, prop) {
                (false, _) => (dur, prop),
                (true, 0 | 1) => (dur, 2),
                (true, _) => (dur.min(90.0), prop),
            };
            Ph { dur: rnd3(dur), prop, guid, entry, disabled, terminate }
        })
        .boxed()
}

fn plans() -> BoxedStrategy<Plan> {
    (
        orbits(6900.0, 30000.0, 0.4),
        prop::collection::vec(phases(), 1..7),
        (200.0..1000.0f64, 50.0..500.0f64),
        [(0.05..100.0f64, 200.0..2000.0f64), (0.05..100.0f64, 200.0..2000.0f64)],
        prop_oneof![3 => Just(0.0), 3 => 0.0..1.1f64],
        proptest::option::weighted(0.4, 0usize..7),
        prop::bool::weighted(0.1),
    )
        .prop_map(|(o, ph, (dry, prop), thr, start, until, shared)| Plan { o, ph, dry, prop, thr, start, until, shared })
        .boxed()
}

fn lf(k: u8) -> LocalFrame {
    [LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::VNC, LocalFrame::RCN][k as usize % 4]
}

/// Local axes as columns, from the position and the velocity.
fn axes(k: u8, r: V3, v: V3) -> Matrix3<f64> {
    let h = r.cross(&v).normalize();
    let (rh, vh) = (r.normalize(), v.normalize());
    match k % 4 {
        0 => Matrix3::identity(),
        1 | 3 => Matrix3::from_columns(&[rh, h.cross(&rh), h]),
        _ => Matrix3::from_columns(&[vh, h, vh.cross(&h)]),
    }
}

struct Models {
    cfg: Vec<PropagatorConfig>,
}

fn models() -> Models {
    let al = almanac();
    let pm = |b: Vec<i32>| PointMasses::new(b);
    let srp = SolarPressure::default_flux_raw(vec![eme2k()], &al).unwrap();
    let tides = SolidTides { frame: iau_earth(), k2: 0.3, k3: 0.09, perturbers: vec![TidalPerturber { frame: moon_j2k(), compute_degree_3: true }, TidalPerturber { frame: sun_j2k(), compute_degree_3: false }] };
    let drag = Drag { density: AtmDensity::StdAtm { max_alt_m: 1e6 }, frame: iau_earth(), estimate: false };
    let none = || Dynamics { accel_models: AccelModels::default(), force_models: ForceModels::default() };
    let mut d = vec![none(), none(), none(), none()];
    d[1].accel_models.point_masses = Some(pm(vec![399, 301, 10]));
    d[2].accel_models.point_masses = Some(pm(vec![399, 301]));
    d[2].accel_models.solid_tides = Some(tides);
    d[2].force_models.solar_pressure = Some(srp.clone());
    d[3].accel_models.point_masses = Some(pm(vec![399, 10]));
    d[3].force_models.solar_pressure = Some(srp);
    d[3].force_models.drag = Some(drag);
    let m = [IntegratorMethod::RungeKutta89, IntegratorMethod::DormandPrince78, IntegratorMethod::RungeKutta4, IntegratorMethod::DormandPrince45];
    let o = [
        IntegratorOptions::default(),
        IntegratorOptions { tolerance: 1e-10, ..Default::default() },
        IntegratorOptions::with_fixed_step_s(30.0),
        IntegratorOptions { tolerance: 1e-9, init_step: secs(20.0), max_step: secs(120.0), ..Default::default() },
    ];
    Models { cfg: d.into_iter().zip(m).zip(o).map(|((dynamics, method), options)| PropagatorConfig { dynamics, method, options }).collect() }
}

/// The same models assembled directly.
fn direct(c: &PropagatorConfig) -> Propagator<SpacecraftDynamics> {
    let mut orb = OrbitalDynamics::two_body();
    if let Some(p) = &c.dynamics.accel_models.point_masses {
        orb.accel_models.push(Arc::new(p.clone()));
    }
    if let Some(p) = &c.dynamics.accel_models.solid_tides {
        orb.accel_models.push(Arc::new(p.clone()));
    }
    let mut d = SpacecraftDynamics::new(orb);
    if let Some(p) = &c.dynamics.force_models.solar_pressure {
        d.force_models.push(Arc::new(p.clone()));
    }
    if let Some(p) = &c.dynamics.force_models.drag {
        d.force_models.push(Arc::new(*p));
    }
    Propagator::new(d, c.method, c.options)
}

struct Built {
    seq: SpacecraftSequence,
    /// Start of each phase, and of the closing Terminate
    at: Vec<Epoch>,
    cfg: Vec<PropagatorConfig>,
    thr: Vec<Thruster>,
    sc: Spacecraft,
    start: Epoch,
}

fn name(p: &Plan, k: usize) -> String {
    // Phases may share a name: the plan stops at the first of them
    if p.shared { format!("ph{}", k % 2) } else { format!("ph{k}") }
}

fn props(v: &[f64; 7], mask: u8) -> PhysicalProperties {
    PhysicalProperties {
        mass: if mask & 1 == 0 { Some(Mass { dry_mass_kg: v[0], prop_mass_kg: v[1], extra_mass_kg: v[2] }) } else { None },
        srp: if mask & 2 == 0 { Some(SRPData { area_m2: v[3], coeff_reflectivity: v[4] }) } else { None },
        drag: if mask & 4 == 0 { Some(DragData { area_m2: v[5], coeff_drag: v[6] }) } else { None },
    }
}

fn objective(init: &Spacecraft) -> Objective {
    Objective::within_tolerance(StateParameter::Element(OrbitalElement::SemiMajorAxis), init.orbit.sma_km().unwrap_or(1e4) + 200.0, 1.0)
}

fn maneuver(g: &Guid, t0: Epoch, dur: f64) -> Maneuver {
    let d = V3::new(g.dir[0], g.dir[1], g.dir[2]);
    let d = if d.norm() < 1e-3 { V3::x() } else { d.normalize() };
    Maneuver { start: t0 + secs(rnd3(g.burn.0 * dur)), end: t0 + secs(rnd3(g.burn.1 * dur)), thrust_prct: g.throttle, representation: MnvrRepr::Vector(d), frame: lf(g.frame) }
}

fn build(p: &Plan) -> Built {
    let mut sc = spacecraft(p.o.earth(), p.dry, p.prop, 20.0, 1.5, 15.0, 2.1);
    sc.mass.extra_mass_kg = 40.0;
    let cfg = models().cfg;
    let thr: Vec<Thruster> = p.thr.iter().map(|(t, i)| Thruster { thrust_N: *t, isp_s: *i }).collect();
    let mut seq = SpacecraftSequence::default();
    for (k, c) in cfg.iter().enumerate() {
        seq.propagators.insert(format!("prop{k}"), c.clone());
    }
    for (k, t) in thr.iter().enumerate() {
        seq.thruster_sets.insert(format!("thr{k}"), *t);
    }
    let t0 = sc.epoch();
    let (mut t, mut at) = (t0, vec![]);
    for (k, ph) in p.ph.iter().enumerate() {
        at.push(t);
        let phase = if ph.terminate {
            Phase::Terminate
        } else {
            Phase::Activity {
                name: name(p, k),
                propagator: format!("prop{}", ph.prop),
                guidance: ph.guid.as_ref().map(|g| {
                    let obj = objective(&sc);
                    Box::new(GuidanceConfig {
                        thruster_model: format!("thr{}", g.thruster),
                        disable_prop_mass: g.no_mass,
                        law: match g.law {
                            0 => SteeringLaw::FiniteBurn(maneuver(g, t, ph.dur)),
                            1 => SteeringLaw::Ruggiero { objectives: vec![ObjectiveEfficiency { objective: obj, efficiency: eff(g) }], max_eclipse_prct: ecl(g) },
                            _ => SteeringLaw::Kluever { objectives: vec![ObjectiveWeight { objective: obj, weight: 1.0 }], max_eclipse_prct: ecl(g) },
                        },
                    })
                }),
                on_entry: match &ph.entry {
                    Entry::Nothing => None,
                    Entry::Moon => Some(DiscreteEvent::FrameSwap { new_frame: moon_j2k() }),
                    Entry::Earth => Some(DiscreteEvent::FrameSwap { new_frame: eme2k() }),
                    Entry::Equator(moon) => Some(DiscreteEvent::FrameSwap { new_frame: equator(*moon) }),
                    Entry::Stage(i, v, m) => Some(DiscreteEvent::Staging { impulsive_maneuver: i.map(|(f, d)| ImpulsiveManeuver { local_frame: lf(f), dv_km_s: d.into() }), decrement_properties: v.map(|v| props(&v, *m)) }),
                    Entry::Dock(i, v, m) => Some(DiscreteEvent::Docking { impulsive_maneuver: i.map(|(f, d)| ImpulsiveManeuver { local_frame: lf(f), dv_km_s: d.into() }), increment_properties: v.map(|v| props(&v, *m)) }),
                }
                .map(Box::new),
                disabled: ph.disabled,
            }
        };
        seq.seq.insert(t, phase);
        t += secs(ph.dur);
    }
    at.push(t);
    seq.seq.insert(t, Phase::Terminate);
    let start = t0 + secs(rnd3(p.start * (t - t0).to_seconds()));
    Built { seq, at, cfg, thr, sc, start }
}

/// The equator and prime meridian of the Earth or the Moon at one epoch, which does not turn.
fn equator(moon: bool) -> nyx_space::md::prelude::Frame {
    let mut f = if moon { iau_moon() } else { iau_earth() };
    f.frozen_epoch = Some(ep(0.0));
    f.force_inertial = true;
    f
}

/// From J2000 to that frame
fn tilt(f: nyx_space::md::prelude::Frame) -> Result<Matrix3<f64>, String> {
    Ok(almanac().rotate(eme2k(), f, ep(0.0)).map_err(|e| e.to_string())?.rot_mat)
}

/// Efficiency and eclipse limits of the closed-loop laws
fn eff(g: &Guid) -> f64 {
    (g.burn.0 * 0.5).max(0.0)
}
fn ecl(g: &Guid) -> Option<f64> {
    [None, Some(0.0), Some(0.4), Some(90.0)][(g.throttle * 40.0) as usize % 4]
}

/// What the phase does on entry.
fn enter(e: &Entry, mut s: Spacecraft) -> Result<Spacecraft, String> {
    let swap = |s: Spacecraft, f: nyx_space::md::prelude::Frame| -> Result<Spacecraft, String> {
        let was = s.orbit.frame;
        if f.ephemeris_id == was.ephemeris_id && f.orientation_id == was.orientation_id {
            return Ok(s);
        }
        let mut o = s.orbit;
        if was.orientation_id != 1 {
            o.radius_km = tilt(was)?.transpose() * o.radius_km;
            o.velocity_km_s = tilt(was)?.transpose() * o.velocity_km_s;
        }
        if f.ephemeris_id != was.ephemeris_id {
            let t = almanac().translate(was.with_orient(1), f.with_orient(1), s.orbit.epoch, None).map_err(|e| e.to_string())?;
            o.radius_km += t.radius_km;
            o.velocity_km_s += t.velocity_km_s;
        }
        if f.orientation_id != 1 {
            o.radius_km = tilt(f)? * o.radius_km;
            o.velocity_km_s = tilt(f)? * o.velocity_km_s;
        }
        o.frame = f;
        let mut n = s;
        n.orbit = o;
        Ok(n)
    };
    let kick = |s: &mut Spacecraft, i: &Option<(u8, [f64; 3])>| {
        if let Some((f, d)) = i {
            let m = axes(*f, s.orbit.radius_km, s.orbit.velocity_km_s);
            s.orbit.velocity_km_s += m * V3::new(d[0], d[1], d[2]);
        }
    };
    let add = |s: &mut Spacecraft, v: &Option<[f64; 7]>, m: u8, sgn: f64| {
        if let Some(v) = v {
            if m & 1 == 0 {
                s.mass.dry_mass_kg += sgn * v[0];
                s.mass.prop_mass_kg += sgn * v[1];
                s.mass.extra_mass_kg += sgn * v[2];
            }
            if m & 2 == 0 {
                s.srp.area_m2 += sgn * v[3];
                s.srp.coeff_reflectivity += sgn * v[4];
            }
            if m & 4 == 0 {
                s.drag.area_m2 += sgn * v[5];
                s.drag.coeff_drag += sgn * v[6];
            }
        }
    };
    match e {
        Entry::Nothing => {}
        Entry::Moon => s = swap(s, moon_j2k())?,
        Entry::Earth => s = swap(s, eme2k())?,
        Entry::Equator(moon) => s = swap(s, equator(*moon))?,
        Entry::Stage(i, v, m) => {
            kick(&mut s, i);
            add(&mut s, v, *m, -1.0);
        }
        Entry::Dock(i, v, m) => {
            kick(&mut s, i);
            add(&mut s, v, *m, 1.0);
        }
    }
    Ok(s)
}

/// The plan flown phase by phase with the propagator alone.
fn fly(p: &Plan, b: &Built, mut s: Spacecraft, until: Option<&str>) -> Result<Vec<(String, Spacecraft, Spacecraft, Trajectory)>, String> {
    let t_in = s.epoch();
    let n = p.ph.len();
    let dis = |k: usize| k < n && !p.ph[k].terminate && p.ph[k].disabled;
    let term = |k: usize| k == n || p.ph[k].terminate;
    // The phase under way
    let mut k = match (0..=n).rev().find(|k| b.at[*k] <= t_in && (!dis(*k) || until == Some(name(p, *k).as_str()))) {
        Some(k) => k,
        None => (0..=n).find(|k| b.at[*k] >= t_in).unwrap(),
    };
    let mut out = vec![];
    loop {
        if term(k) || until == Some(name(p, k).as_str()) {
            return Ok(out);
        }
        let mut j = k + 1;
        while dis(j) && until != Some(name(p, j).as_str()) {
            j += 1;
        }
        if !dis(k) {
            let ph = &p.ph[k];
            if b.at[k] >= t_in {
                s = enter(&ph.entry, s)?;
            }
            let mut prop = direct(&b.cfg[ph.prop]);
            if let Some(g) = &ph.guid {
                prop.dynamics.decrement_mass = !g.no_mass;
                s.thruster = Some(b.thr[g.thruster]);
                let obj = objective(&b.sc);
                prop.dynamics.guid_law = Some(match g.law {
                    0 => Arc::new(maneuver(g, b.at[k], ph.dur)),
                    1 => Arc::new(Ruggiero { objectives: vec![ObjectiveEfficiency { objective: obj, efficiency: eff(g) }], max_eclipse_prct: ecl(g), init_state: s }),
                    _ => Arc::new(Kluever { objectives: vec![ObjectiveWeight { objective: obj, weight: 1.0 }], max_eclipse_prct: ecl(g) }),
                });
            }
            let (e, tr) = prop.with(s, almanac()).quiet().until_epoch_with_traj(b.at[j]).map_err(|e| e.to_string())?;
            out.push((name(p, k), s, e, tr));
            s = e;
        }
        k = j;
    }
}

fn near(a: &Spacecraft, b: &Spacecraft) -> Option<String> {
    let d = (a.orbit.radius_km - b.orbit.radius_km).norm();
    let v = (a.orbit.velocity_km_s - b.orbit.velocity_km_s).norm();
    let m = (a.mass.dry_mass_kg - b.mass.dry_mass_kg).abs() + (a.mass.prop_mass_kg - b.mass.prop_mass_kg).abs() + (a.mass.extra_mass_kg - b.mass.extra_mass_kg).abs();
    let c = (a.srp.area_m2 - b.srp.area_m2).abs() + (a.srp.coeff_reflectivity - b.srp.coeff_reflectivity).abs() + (a.drag.area_m2 - b.drag.area_m2).abs() + (a.drag.coeff_drag - b.drag.coeff_drag).abs();
    let same_frame = a.orbit.frame.ephemeris_id == b.orbit.frame.ephemeris_id && a.orbit.frame.orientation_id == b.orbit.frame.orientation_id;
    if same_frame && a.epoch() == b.epoch() && d <= 1e-5 && v <= 1e-8 && m <= 1e-6 && c <= 1e-9 {
        return None;
    }
    Some(format!("{a} instead of {b}: {d:e} km, {v:e} km/s, masses {m:e} kg, areas and coefficients {c:e} apart"))
}

fn chk_plan(p: &Plan) -> R {
    let mut b = build(p);
    if let Err(e) = b.seq.setup(almanac()) {
        return fail("setup", format!("a valid plan is refused: {e}"));
    }
    // The state at the entry in the plan
    let mut s = b.sc;
    if b.start > s.epoch() {
        s = match guarded(|| direct(&b.cfg[0]).with(s, almanac()).quiet().until_epoch(b.start)) {
            Ok(Ok(x)) => x,
            _ => return Ok(Out::Discard),
        };
    }
    let until = p.until.map(|k| name(p, k));
    let want = match guarded(|| fly(p, &b, s, until.as_deref())) {
        Ok(w) => w,
        Err(_) => return Ok(Out::Discard),
    };
    let got = match guarded(|| b.seq.propagate(s, until.clone(), almanac())) {
        Err(e) => return fail("panic", format!("the plan panics: {e}")),
        Ok(g) => g,
    };
    let (want, got) = match (want, got) {
        (Err(_), Err(_)) => return Ok(Out::Trivial),
        (Err(e), Ok(_)) => return fail("error", format!("the plan flies, its phases do not: {e}")),
        (Ok(_), Err(e)) => return fail("error", format!("every phase flies, the plan does not: {e}")),
        (Ok(w), Ok(g)) => (w, g),
    };
    let names: Vec<_> = got.iter().map(|t| t.name.clone().unwrap_or_default()).collect();
    let wnames: Vec<_> = want.iter().map(|t| t.0.clone()).collect();
    req!(names == wnames, "phases", "entered at {} s of the plan, phases {names:?} are flown instead of {wnames:?}", (b.start - b.sc.epoch()).to_seconds());
    for (k, (g, (nm, s0, s1, tr))) in got.iter().zip(&want).enumerate() {
        req!(!g.states.is_empty(), "empty", "the trajectory of {nm} is empty");
        if let Some(m) = near(g.first(), s0) {
            return fail("entry", format!("{nm} (number {k}) starts from {m}"));
        }
        if let Some(m) = near(g.last(), s1) {
            return fail("exit", format!("{nm} (number {k}) ends on {m}"));
        }
        if s1.epoch() > s0.epoch() + secs(1.0) {
            let mid = s0.epoch() + (s1.epoch() - s0.epoch()) * 0.37;
            match (g.at(mid), tr.at(mid)) {
                (Ok(x), Ok(y)) => {
                    if let Some(m) = near(&x, &y) {
                        return fail("within", format!("{nm} (number {k}) goes through {m}"));
                    }
                }
                (Err(_), Err(_)) => {}
                (x, y) => return fail("within", format!("{nm} at {mid}: {x:?} instead of {y:?}")),
            }
        }
    }
    // Stopping at a phase and resuming from there is the whole plan
    if until.is_some() && !got.is_empty() && !p.shared {
        let all = guarded(|| b.seq.propagate(s, None, almanac()));
        let last = *got.last().unwrap().last();
        let rest = guarded(|| b.seq.propagate(last, None, almanac()));
        match (all, rest) {
            (Ok(Ok(all)), Ok(Ok(rest))) => {
                // A disabled phase at which the plan stopped splits the phase before it
                let stop = p.until.unwrap();
                let split = stop < p.ph.len() && p.ph[stop].disabled && !p.ph[stop].terminate;
                if !split {
                    req!(all.len() == got.len() + rest.len(), "resume", "{} phases until {:?}, then {}, out of {}", got.len(), until, rest.len(), all.len());
                    if let (Some(x), Some(y)) = (all.last(), rest.last()) {
                        if let Some(m) = near(y.last(), x.last()) {
                            return fail("resume", format!("resumed at {:?}, the plan ends on {m}", until));
                        }
                    }
                }
            }
            (Ok(Err(_)), _) => {}
            (x, y) => return fail("resume", format!("the whole plan: {:?}; resumed: {:?}", x.map(|x| x.map(|v| v.len()).map_err(|e| e.to_string())), y.map(|x| x.map(|v| v.len()).map_err(|e| e.to_string())))),
        }
    }
    Ok(if got.len() >= 2 { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    p: Plan,
    kind: u8,
    which: usize,
}

fn chk_valid(c: &Bad) -> R {
    let mut b = build(&c.p);
    req!(b.seq.validate().is_ok(), "valid", "a valid plan is refused: {:?}", b.seq.validate());
    let used: Vec<&Ph> = c.p.ph.iter().filter(|p| !p.terminate).collect();
    let what = match c.kind % 5 {
        0 => {
            // No closing Terminate
            let t = *b.at.last().unwrap();
            b.seq.seq.remove(&t);
            if c.p.ph.last().unwrap().terminate {
                return Ok(Out::Trivial);
            }
            "without a closing Terminate"
        }
        1 => {
            b.seq.seq.clear();
            "without any phase"
        }
        2 => {
            if used.is_empty() {
                return Ok(Out::Trivial);
            }
            b.seq.propagators.remove(&format!("prop{}", used[c.which % used.len()].prop));
            "with an unknown propagator"
        }
        3 => {
            let g: Vec<usize> = used.iter().filter_map(|p| p.guid.as_ref().map(|g| g.thruster)).collect();
            if g.is_empty() {
                return Ok(Out::Trivial);
            }
            b.seq.thruster_sets.remove(&format!("thr{}", g[c.which % g.len()]));
            "with an unknown thruster set"
        }
        _ => {
            b.seq.thruster_sets.insert("unused".to_string(), b.thr[0]);
            req!(b.seq.validate().is_ok(), "valid", "an unused thruster set makes the plan invalid");
            return Ok(Out::Hit);
        }
    };
    let r = guarded(|| b.seq.validate());
    req!(matches!(r, Ok(Err(_))), "invalid", "a plan {what} is accepted: {r:?}");
    let r = guarded(|| b.seq.setup(almanac()));
    req!(matches!(r, Ok(Err(_))), "invalid", "a plan {what} is set up: {r:?}");
    Ok(Out::Hit)
}

fn p32() -> Prop {
    Prop {
        id: "P32",
        assumptions: &[
            "a plan is entered at or after the start of its first phase",
            "gravity fields are not part of the generated propagators (P05)",
            "a plan or phase whose propagation fails is only required to fail in both",
        ],
        subs: vec![
            sub("plan", "two phases or more are flown", 5000, 60000, plans, chk_plan),
            sub("validate", "the defect applies to that plan", 3000, 30000, || (plans(), 0u8..5, 0usize..8).prop_map(|(p, kind, which)| Bad { p, kind, which }), chk_valid),
        ],
    }
}
