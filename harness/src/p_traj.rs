//! P07 trajectories, P08 trajectory files, P09 propagation until an event.
use crate::fw::*;
use crate::p_prop::{dynamics, METHODS};
use crate::req;
use crate::world::*;
use anise::analysis::event::{Condition, Event};
use anise::analysis::expr::ScalarExpr;
use anise::analysis::prelude::OrbitalElement;
use anise::analysis::specs::StateSpecTrait;
use anise::prelude::{Frame, Orbit};
use hifitime::{Duration, Epoch, Unit};
use nalgebra::Vector3;
use nyx_space::cosmic::GuidanceMode;
use nyx_space::dynamics::guidance::Thruster;
use nyx_space::io::ExportCfg;
use nyx_space::md::trajectory::Traj;
use nyx_space::md::StateParameter;
use nyx_space::propagators::{IntegratorOptions, PropagationError, Propagator};
use nyx_space::{Spacecraft, State};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ops::Bound;

pub const PROPS: &[fn() -> Prop] = &[p07, p08, p09];
type V3 = Vector3<f64>;

fn dbg_on() -> bool {
    std::env::var("VERIF_DEBUG").is_ok()
}

// ------------------------------------------------------------------------------------------
// Generated trajectories: samples of an exact two-body motion
// ------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenTraj {
    pub o: GenOrbit,
    /// Mean step, as a fraction of the period.
    pub frac: f64,
    /// Relative offsets of the nodes.
    pub jit: Vec<f64>,
    pub prop: Vec<f64>,
    pub frame: u8,
    pub cr: f64,
    pub cd: f64,
    pub dry: f64,
    /// Order in which the states are stored.
    pub shuffle: u64,
    pub dups: Vec<usize>,
    /// One node is right after another one, at that fraction of a step.
    #[serde(default)]
    pub near: Option<(usize, f64)>,
}

pub fn frame_of(k: u8) -> Frame {
    match k % 3 {
        0 => eme2k(),
        1 => moon_j2k(),
        _ => sun_j2k(),
    }
}

impl GenTraj {
    pub fn frame(&self) -> Frame {
        frame_of(self.frame)
    }
    pub fn n(&self) -> usize {
        self.jit.len()
    }
    pub fn mu(&self) -> f64 {
        self.frame().mu_km3_s2().unwrap()
    }
    /// Scale of the orbit so that it suits the body.
    pub fn orb(&self) -> GenOrbit {
        let mut o = self.o.clone();
        o.rp_km *= match self.frame % 3 {
            0 => 1.0,
            1 => 0.3,
            _ => 5000.0,
        };
        o
    }
    pub fn step(&self) -> f64 {
        self.orb().period_s(self.mu()) * self.frac
    }
    /// Offsets in nanoseconds of the nodes from the epoch of the orbit.
    pub fn offs(&self) -> Vec<i128> {
        let h = self.step();
        let mut v: Vec<i128> = self
            .jit
            .iter()
            .enumerate()
            .map(|(i, j)| ((i as f64 + if i == 0 { 0.0 } else { 0.3 * j }) * h * 1e9).round() as i128)
            .collect();
        if let Some((i, f)) = self.near
            && self.n() > 1
        {
            let i = i % (self.n() - 1);
            v[i + 1] = v[i] + ((f * h * 1e9) as i128).max(1);
        }
        v
    }
    pub fn kep(&self, off_s: f64) -> (V3, V3) {
        let (r, v) = self.orb().rv(self.mu());
        kepler(r, v, self.mu(), off_s)
    }
    pub fn state(&self, i: usize) -> Spacecraft {
        let off = self.offs()[i];
        let (r, v) = self.kep(off as f64 * 1e-9);
        let e = self.o.epoch() + Duration::from_total_nanoseconds(off);
        spacecraft(
            Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, e, self.frame()),
            self.dry,
            self.prop[i],
            2.5,
            self.cr,
            3.5,
            self.cd,
        )
    }
    pub fn states(&self) -> Vec<Spacecraft> {
        (0..self.n()).map(|i| self.state(i)).collect()
    }
    /// Storage order: a permutation drawn from `shuffle`, then duplicates (with another mass) at the end.
    pub fn order(&self) -> Vec<usize> {
        let mut idx: Vec<usize> = (0..self.n()).collect();
        if self.shuffle != 0 {
            let mut s = self.shuffle;
            for i in (1..idx.len()).rev() {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                idx.swap(i, (s >> 33) as usize % (i + 1));
            }
        }
        idx
    }
    pub fn build(&self) -> Traj<Spacecraft> {
        let st = self.states();
        let mut t = Traj::new();
        t.states = self.order().into_iter().map(|i| st[i]).collect();
        for d in &self.dups {
            let mut s = st[d % self.n()];
            s.mass.prop_mass_kg += 1000.0;
            t.states.push(s);
        }
        t.finalize();
        t
    }
    /// Bounds on the errors of the interpolation at `off` seconds, in position and velocity.
    pub fn bound(&self, off: f64) -> (f64, f64) {
        let mut offs: Vec<f64> = self.offs().iter().map(|x| *x as f64 * 1e-9).collect();
        // A sample right next to another one adds nothing: count without it, and with any choice of samples around the epoch.
        let near = self.near.is_some() && offs.len() > 1;
        if let (Some((i, _)), true) = (self.near, near) {
            let i = i % (offs.len() - 1);
            // (the one on the side of the epoch may be the one used)
            offs.remove(if off < offs[i] { i + 1 } else { i });
        }
        let n = offs.len();
        let o = self.orb();
        let e = self.o.ecc.max(1e-3);
        let rho = (((1.0 / e).acosh()) - (1.0 - e * e).sqrt()).min(3.0);
        let nm = std::f64::consts::TAU / o.period_s(self.mu());
        // The samples are at least the 12 nearest around the epoch: use the least favourable window of the code's choice (12 or 13 samples around).
        let idx = offs.partition_point(|x| *x < off);
        let mut worst: f64 = 0.0;
        let mut worst_v: f64 = 0.0;
        let choices: &[(usize, usize)] = if near { &[(11, 5), (11, 6), (12, 5), (12, 6), (13, 6)] } else { &[(12, 6), (13, 6)] };
        for (w, left) in choices {
            let w = *w.min(&n);
            let lo = idx.saturating_sub(*left).min(n - w);
            let mut p = 1.0f64;
            let mut pv = 1.0f64;
            for t in &offs[lo..lo + w] {
                p *= (nm * (off - t) / rho).powi(2);
                pv *= (nm * (off - t).abs().max(0.5 * self.step()) / rho).powi(2);
            }
            worst = worst.max(p);
            worst_v = worst_v.max(pv);
        }
        (worst * o.sma() * 15.0, 60.0 * worst_v * o.sma() / self.step())
    }
}

pub fn trajs(nmin: usize, nmax: usize, emax: f64) -> BoxedStrategy<GenTraj> {
    (
        orbits(6800.0, 40000.0, emax),
        0.004..0.02f64,
        prop_oneof![3 => nmin..nmax, 1 => 11usize..17],
        0u8..3,
        (0.0..1.9f64, 0.0..3.0f64, 10.0..2000.0f64),
        prop_oneof![1 => Just(0u64), 2 => 1u64..u64::MAX],
        prop::collection::vec(0usize..100, 0..4),
    )
        .prop_flat_map(|(o, frac, n, frame, (cr, cd, dry), shuffle, dups)| {
            (
                prop::collection::vec(-1.0..1.0f64, n),
                prop::collection::vec(0.0..500.0f64, n),
            )
                .prop_map(move |(jit, prop)| GenTraj {
                    o: o.clone(), frac, jit, prop, frame, cr, cd, dry, shuffle, dups: dups.clone(), near: None,
                })
        })
        .boxed()
}

/// Positions and velocities identical, mass, coefficients and areas identical.
pub fn same_state(a: &Spacecraft, b: &Spacecraft) -> Result<(), String> {
    let chk = |n: &str, x: f64, y: f64| if x == y || (x.is_nan() && y.is_nan()) { Ok(()) } else { Err(format!("{n}: {x} vs {y}")) };
    if a.epoch() != b.epoch() {
        return Err(format!("epoch {} vs {}", a.epoch(), b.epoch()));
    }
    if a.orbit.frame != b.orbit.frame {
        return Err(format!("frame {} vs {}", a.orbit.frame, b.orbit.frame));
    }
    for i in 0..3 {
        chk("position", a.orbit.radius_km[i], b.orbit.radius_km[i])?;
        chk("velocity", a.orbit.velocity_km_s[i], b.orbit.velocity_km_s[i])?;
    }
    chk("dry mass", a.mass.dry_mass_kg, b.mass.dry_mass_kg)?;
    chk("propellant", a.mass.prop_mass_kg, b.mass.prop_mass_kg)?;
    chk("extra mass", a.mass.extra_mass_kg, b.mass.extra_mass_kg)?;
    chk("Cr", a.srp.coeff_reflectivity, b.srp.coeff_reflectivity)?;
    chk("SRP area", a.srp.area_m2, b.srp.area_m2)?;
    chk("Cd", a.drag.coeff_drag, b.drag.coeff_drag)?;
    chk("drag area", a.drag.area_m2, b.drag.area_m2)?;
    if a.mode() != b.mode() {
        return Err("guidance mode".into());
    }
    if a.thruster != b.thruster {
        return Err("thruster".into());
    }
    Ok(())
}

fn same_list(sig: &str, got: &[Spacecraft], want: &[Spacecraft]) -> Result<(), Fail> {
    req!(got.len() == want.len(), sig, "{} states instead of {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if let Err(m) = same_state(g, w) {
            return fail(sig, format!("state {i}: {m}"));
        }
    }
    Ok(())
}

fn chk_finalize(g: &GenTraj) -> R {
    let t = g.build();
    same_list("order", &t.states, &g.states())?;
    if let Err(m) = same_state(t.first(), &g.state(0)) {
        return fail("first", m);
    }
    if let Err(m) = same_state(t.last(), &g.state(g.n() - 1)) {
        return fail("last", m);
    }
    req!(t.start_epoch() == g.state(0).epoch() && t.end_epoch() == g.state(g.n() - 1).epoch(), "ends", "{} {}", t.start_epoch(), t.end_epoch());
    // Finalizing again changes nothing.
    let mut u = t.clone();
    u.finalize();
    same_list("idempotent", &u.states, &t.states)?;
    Ok(if g.shuffle != 0 || !g.dups.is_empty() { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AtCase {
    g: GenTraj,
    at: Vec<f64>,
}

fn chk_at(c: &AtCase) -> R {
    let g = &c.g;
    let t = g.build();
    let offs = g.offs();
    let span = *offs.last().unwrap();
    // At the nodes
    for (i, s) in g.states().iter().enumerate() {
        match t.at(s.epoch()) {
            Ok(x) => {
                if let Err(m) = same_state(&x, s) {
                    return fail("node", format!("node {i}: {m}"));
                }
            }
            Err(e) => return fail("node-err", format!("node {i}: {e}")),
        }
    }
    // Outside
    for e in [t.start_epoch() - Duration::from_total_nanoseconds(1), t.end_epoch() + Duration::from_total_nanoseconds(1), t.start_epoch() - secs(1e5), t.end_epoch() + secs(1e6)] {
        if t.at(e).is_ok() {
            return fail("outside", format!("{e} is outside of {t}"));
        }
        req!(t.evaluate(e, &almanac()).is_err(), "outside-spec", "{e} is outside of {t}");
    }
    if g.n() < 2 {
        return Ok(Out::Trivial);
    }
    // Discrete outputs of the guidance: one mode per sample and a thrust direction on some of them.
    let mode_of = |i: usize| [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit][((g.prop[i] * 1e3) as usize) % 3];
    let mut t = t;
    for (i, s) in t.states.iter_mut().enumerate() {
        s.mode = mode_of(i);
        s.mut_thrust_direction(if (g.prop[i] * 1e4) as usize % 3 == 0 { None } else { Some(V3::new(0.0, 0.6, 0.8)) });
    }
    let t = t;
    let mut hit = false;
    for (k, f) in c.at.iter().enumerate() {
        // Alternate between anywhere in the trajectory and in the first or last interval.
        let off = match k % 4 {
            0 | 1 => (f * span as f64) as i128,
            2 => (f * offs[1] as f64) as i128,
            _ => offs[offs.len() - 2] + (f * (span - offs[offs.len() - 2]) as f64) as i128,
        };
        let e = g.o.epoch() + Duration::from_total_nanoseconds(off);
        let x = match t.at(e) {
            Ok(x) => x,
            Err(er) => return fail("inside-err", format!("{er}")),
        };
        let off_s = off as f64 * 1e-9;
        let (r, v) = g.kep(off_s);
        let (b, bv) = g.bound(off_s);
        if b > 1e-4 * g.orb().sma() {
            continue; // too few samples for a meaningful interpolation
        }
        let vm = (2.0 * g.mu() / g.orb().rp_km).sqrt();
        let sma = g.orb().sma();
        let slack = if g.near.is_some() { 10.0 } else { 1.0 };
        let tol = (b + sma * 5e-9) * slack;
        let er = (x.orbit.radius_km - r).norm();
        let ev = (x.orbit.velocity_km_s - v).norm();
        let tolv = (bv + sma * 2.5e-8 / g.step() + vm * 1e-12) * slack;
        if dbg_on() {
            if er / tol > 0.1 { println!("pos ratio {} b {b:e} er {er:e}", er / tol); }
            if ev / tolv > 0.1 { println!("vel ratio {} b {b:e} ev {ev:e}", ev / tolv); }
        }
        req!(x.epoch() == e, "epoch", "{} instead of {e}", x.epoch());
        req!(x.orbit.frame == g.frame(), "frame", "{}", x.orbit.frame);
        req!(er <= tol, "position", "at {off_s} s of {} samples: off by {er} km (tolerance {tol})", g.n());
        req!(ev <= tolv, "velocity", "at {off_s} s of {} samples: off by {ev} km/s (tolerance {tolv})", g.n());
        // Propellant: linear between the neighbours.
        if let Err(i) = offs.binary_search(&off) {
            let w = (off - offs[i - 1]) as f64 / (offs[i] - offs[i - 1]) as f64;
            let want = g.prop[i - 1] + w * (g.prop[i] - g.prop[i - 1]);
            req!(close(x.mass.prop_mass_kg, want, 1e-9, 1e-6), "propellant", "{} instead of {want}", x.mass.prop_mass_kg);
            req!(x.thrust_direction().is_none(), "direction", "a thrust direction {:?} between samples", x.thrust_direction());
            req!(x.mode() == mode_of(i - 1) || x.mode() == mode_of(i), "mode", "{:?} between {:?} and {:?}", x.mode(), mode_of(i - 1), mode_of(i));
        }
        req!(x.mass.dry_mass_kg == g.dry && x.srp.coeff_reflectivity == g.cr && x.drag.coeff_drag == g.cd && x.srp.area_m2 == 2.5 && x.drag.area_m2 == 3.5, "constants", "{x}");
        let o = match t.evaluate(e, &almanac()) {
            Ok(o) => o,
            Err(er) => return fail("spec-err", format!("{er}")),
        };
        req!(o == x.orbit, "spec", "{o} vs {x}");
        hit = true;
    }
    Ok(if hit { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SliceCase {
    g: GenTraj,
    /// Start, end, step as fractions of the span; may lie outside of it.
    a: f64,
    b: f64,
    step: f64,
    kind: u8,
    on_node: bool,
}

fn slices() -> BoxedStrategy<SliceCase> {
    (trajs(2, 40, 0.2), -0.3..1.3f64, -0.3..1.3f64, 0.01..1.4f64, 0u8..9, any::<bool>())
        .prop_map(|(g, a, b, step, kind, on_node)| SliceCase { g, a, b, step, kind, on_node })
        .boxed()
}

fn chk_series(c: &SliceCase) -> R {
    let g = &c.g;
    let t = g.build();
    let offs = g.offs();
    let span = *offs.last().unwrap();
    let step = ((c.step * span as f64) as i128).max(1_000_000);
    let e0 = g.o.epoch();
    let (mut a, mut b) = ((c.a * span as f64) as i128, (c.b * span as f64) as i128);
    if c.on_node {
        a = offs[(c.a.abs() * 1000.0) as usize % offs.len()];
        b = offs[(c.b.abs() * 1000.0) as usize % offs.len()];
    }
    let ser = |from: i128, to: i128| -> Vec<Epoch> {
        let mut v = vec![];
        let mut x = from;
        while x <= to {
            v.push(e0 + Duration::from_total_nanoseconds(x));
            x += step;
        }
        v
    };
    let dstep = Duration::from_total_nanoseconds(step);
    let expect = |ep: &[Epoch]| -> Vec<Spacecraft> { ep.iter().map(|e| t.at(*e).unwrap()).collect() };
    let full = ser(0, span);
    let all: Vec<Spacecraft> = t.every(dstep).collect();
    same_list("every", &all, &expect(&full))?;
    match t.resample(dstep) {
        Ok(r) => same_list("resample", &r.states, &expect(&full))?,
        Err(e) => return fail("resample-err", e.to_string()),
    }
    let da = e0 + Duration::from_total_nanoseconds(a);
    let db = e0 + Duration::from_total_nanoseconds(b);
    let mut hit = false;
    if a.max(0) <= b.min(span) {
        let part: Vec<Spacecraft> = t.every_between(dstep, da, db).collect();
        let ep = ser(a.max(0), b.min(span));
        same_list("every-between", &part, &expect(&ep))?;
        hit = ep.len() > 1;
        // Rebuild at those epochs, in reverse order and with one twice
        let mut rev: Vec<Epoch> = ep.iter().rev().copied().collect();
        rev.push(ep[0]);
        match t.rebuild(&rev) {
            Ok(r) => same_list("rebuild", &r.states, &expect(&ep))?,
            Err(e) => return fail("rebuild-err", e.to_string()),
        }
        let mut out = rev.clone();
        out.push(t.end_epoch() + secs(1.0));
        req!(t.rebuild(&out).is_err(), "rebuild-outside", "an epoch outside of the trajectory is accepted");
    } else {
        let part: Vec<Spacecraft> = t.every_between(dstep, da, db).collect();
        req!(part.is_empty(), "every-between-empty", "{} states from an empty interval", part.len());
    }
    // Empty trajectory
    let empty: Traj<Spacecraft> = Traj::new();
    req!(empty.resample(dstep).is_err() && empty.rebuild(&[da]).is_err() && empty.at(da).is_err() && empty.to_frame(moon_j2k(), &almanac()).is_err(), "empty", "an empty trajectory gives states");
    Ok(if hit { Out::Hit } else { Out::Trivial })
}

fn chk_filter(c: &SliceCase) -> R {
    let g = &c.g;
    let t = g.build();
    let offs = g.offs();
    let span = *offs.last().unwrap();
    let (mut a, mut b) = ((c.a * span as f64) as i128, (c.b * span as f64) as i128);
    if c.on_node {
        a = offs[(c.a.abs() * 1000.0) as usize % offs.len()];
        b = offs[(c.b.abs() * 1000.0) as usize % offs.len()];
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let mk = |k: u8, v: i128| match k {
        0 => Bound::Included(v),
        1 => Bound::Excluded(v),
        _ => Bound::Unbounded,
    };
    let lo = mk(c.kind % 3, a);
    let hi = mk(c.kind / 3 % 3, b);
    let st = g.states();
    let want: Vec<Spacecraft> = offs
        .iter()
        .zip(st.iter())
        .filter(|(o, _)| {
            (match lo {
                Bound::Included(x) => **o >= x,
                Bound::Excluded(x) => **o > x,
                Bound::Unbounded => true,
            }) && (match hi {
                Bound::Included(x) => **o <= x,
                Bound::Excluded(x) => **o < x,
                Bound::Unbounded => true,
            })
        })
        .map(|(_, s)| *s)
        .collect();
    let tod = |b: Bound<i128>| match b {
        Bound::Included(x) => Bound::Included(Duration::from_total_nanoseconds(x)),
        Bound::Excluded(x) => Bound::Excluded(Duration::from_total_nanoseconds(x)),
        Bound::Unbounded => Bound::Unbounded,
    };
    let toe = |b: Bound<i128>| match b {
        Bound::Included(x) => Bound::Included(g.o.epoch() + Duration::from_total_nanoseconds(x)),
        Bound::Excluded(x) => Bound::Excluded(g.o.epoch() + Duration::from_total_nanoseconds(x)),
        Bound::Unbounded => Bound::Unbounded,
    };
    let f = t.clone().filter_by_offset((tod(lo), tod(hi)));
    same_list("offset", &f.states, &want)?;
    let f = t.clone().filter_by_epoch((toe(lo), toe(hi)));
    same_list("epoch", &f.states, &want)?;
    Ok(if !want.is_empty() && want.len() < st.len() { Out::Hit } else { Out::Trivial })
}

fn chk_merge(c: &SliceCase) -> R {
    let g = &c.g;
    let t = g.build();
    let st = g.states();
    // Split with overlap or gap: self = [0, i], other = [j, n) with other masses so that the origin of each state shows.
    let n = st.len();
    let i = ((c.a.abs() / 1.3) * n as f64) as usize % n;
    let j = ((c.b.abs() / 1.3) * n as f64) as usize % n;
    let mut a = Traj::new();
    a.states = st[..=i].to_vec();
    a.name = Some("a".into());
    let mut b = Traj::new();
    b.states = st[j..]
        .iter()
        .map(|s| {
            let mut s = *s;
            s.mass.prop_mass_kg += 1e4;
            // Same epochs as in the other trajectory, or between them.
            s.orbit.epoch += Duration::from_total_nanoseconds([0, 1, -1, 700_000_000, -300_000_001][(i + 2 * j) % 5]);
            s
        })
        .collect();
    let mut want = a.states.clone();
    for s in &b.states {
        if s.epoch() > a.states.last().unwrap().epoch() {
            want.push(*s);
        }
    }
    let sum = match &a + &b {
        Ok(s) => s,
        Err(e) => return fail("add-err", e.to_string()),
    };
    same_list("add", &sum.states, &want)?;
    let mut asg = a.clone();
    asg += &b;
    same_list("add-assign", &asg.states, &want)?;
    let own = match a.clone() + b.clone() {
        Ok(s) => s,
        Err(e) => return fail("add-err", e.to_string()),
    };
    same_list("add-owned", &own.states, &want)?;
    // Frame mismatch
    let other_frame = frame_of(g.frame + 1);
    let mut m = Traj::new();
    m.states = b
        .states
        .iter()
        .map(|s| {
            let mut s = *s;
            s.orbit.frame = other_frame;
            s
        })
        .collect();
    req!((&t + &m).is_err(), "frame-mismatch", "trajectories of {} and {other_frame} add up", g.frame());
    Ok(if j > 0 && i + 1 < n { Out::Hit } else { Out::Trivial })
}

fn chk_frames(c: &SliceCase) -> R {
    let g = &c.g;
    let t = g.build();
    let to = [eme2k(), moon_j2k(), sun_j2k(), iau_earth(), iau_moon()][c.kind as usize % 5];
    let alm = almanac();
    let u = match t.to_frame(to, &alm) {
        Ok(u) => u,
        Err(e) => return fail("to-frame-err", e.to_string()),
    };
    req!(u.states.len() == t.states.len(), "count", "{} states instead of {}", u.states.len(), t.states.len());
    for (x, s) in u.states.iter().zip(&t.states) {
        req!(x.epoch() == s.epoch(), "frame-epoch", "{} instead of {}", x.epoch(), s.epoch());
        req!(x.orbit.frame.ephemeris_id == to.ephemeris_id && x.orbit.frame.orientation_id == to.orientation_id, "frame", "{} instead of {to}", x.orbit.frame);
        let w = alm.transform_to(s.orbit, to, None).unwrap();
        req!((x.orbit.radius_km - w.radius_km).norm() <= 1e-9 * w.radius_km.norm() && (x.orbit.velocity_km_s - w.velocity_km_s).norm() <= 1e-9 * w.velocity_km_s.norm(), "transform", "{} instead of {w}", x.orbit);
        req!(x.mass == s.mass && x.srp == s.srp && x.drag == s.drag, "constants", "{x} vs {s}");
    }
    let back = u.to_frame(g.frame(), &alm).unwrap();
    for (x, s) in back.states.iter().zip(&t.states) {
        req!((x.orbit.radius_km - s.orbit.radius_km).norm() <= 1e-3 && (x.orbit.velocity_km_s - s.orbit.velocity_km_s).norm() <= 1e-6, "round-trip", "{} instead of {}", x.orbit, s.orbit);
    }
    Ok(if to != g.frame() { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BspCase {
    target: u8,
    obs: u8,
    t0: f64,
    span: f64,
    step: f64,
    dry: f64,
}

fn chk_bsp(c: &BspCase) -> R {
    let fr = [moon_j2k(), sun_j2k(), eme2k(), iau_earth(), iau_moon()];
    let target = fr[c.target as usize % 3];
    let obs = fr[c.obs as usize % 5];
    if target.ephemeris_id == obs.ephemeris_id {
        return Ok(Out::Discard);
    }
    let alm = almanac();
    let tpl = spacecraft(GenOrbit { rp_km: 7000.0, ecc: 0.0, inc: 0.0, raan: 0.0, aop: 0.0, ta: 0.0, t0_s: 0.0 }.earth(), c.dry, 3.0, 1.0, 1.1, 2.0, 2.2);
    let (e0, e1) = (ep(c.t0), ep(c.t0 + c.span));
    let t = match Traj::from_bsp(target, obs, &alm, tpl, secs(c.step), Some(e0), Some(e1), None, Some("obj".into())) {
        Ok(t) => t,
        Err(e) => return fail("bsp-err", e.to_string()),
    };
    let mut k = 0;
    let mut e = e0;
    while e <= e1 {
        req!(k < t.states.len(), "bsp-count", "{} states only", t.states.len());
        let s = &t.states[k];
        let w = alm.transform(target, obs, e, None).unwrap();
        req!(s.epoch() == e, "bsp-epoch", "{} instead of {e}", s.epoch());
        req!(s.orbit.radius_km == w.radius_km && s.orbit.velocity_km_s == w.velocity_km_s && s.orbit.frame.ephemeris_id == obs.ephemeris_id && s.orbit.frame.orientation_id == obs.orientation_id, "bsp-state", "{s} instead of {w}");
        req!(s.mass == tpl.mass && s.srp == tpl.srp && s.drag == tpl.drag, "bsp-template", "{s}");
        k += 1;
        e += secs(c.step);
    }
    req!(k == t.states.len(), "bsp-count", "{} states instead of {k}", t.states.len());
    Ok(Out::Hit)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PropTraj {
    o: GenOrbit,
    revs: f64,
    method: usize,
    dynk: u8,
    at: Vec<f64>,
}

/// Evaluating a propagated trajectory gives what propagating to that epoch gives.
fn chk_propagated(c: &PropTraj) -> R {
    let per = c.o.period_s(MU_EARTH);
    let sc: Spacecraft = c.o.earth().into();
    let max = per / 60.0 * (1.0 - c.o.ecc).powf(1.5);
    let opts = IntegratorOptions::with_adaptive_step_s(1e-3, max, 1e-12, nyx_space::propagators::ErrorControl::RSSCartesianStep);
    let prop = Propagator::new(dynamics(c.dynk), METHODS[c.method], opts);
    let dur = secs(rnd3(per * c.revs));
    let (end, t) = match prop.with(sc, almanac()).quiet().for_duration_with_traj(dur) {
        Ok(x) => x,
        Err(e) => return fail("prop-err", e.to_string()),
    };
    if let Err(m) = same_state(&t.at(end.epoch()).unwrap(), &end) {
        return fail("end", m);
    }
    for f in &c.at {
        let d = Duration::from_total_nanoseconds((f * dur.total_nanoseconds() as f64) as i128);
        let e = sc.epoch() + d;
        let x = match t.at(e) {
            Ok(x) => x,
            Err(er) => return fail("at-err", er.to_string()),
        };
        let w = prop.with(sc, almanac()).quiet().until_epoch(e).unwrap();
        let er = (x.orbit.radius_km - w.orbit.radius_km).norm();
        let ev = (x.orbit.velocity_km_s - w.orbit.velocity_km_s).norm();
        if dbg_on() && (er > 1e-6 || ev > 1e-9) {
            println!("propagated er {er:e} ev {ev:e}");
        }
        req!(x.epoch() == e && x.orbit.frame == w.orbit.frame, "epoch", "{x}");
        req!(er < 1e-3 && ev < 1e-5, "propagated", "off by {er} km and {ev} km/s at {f} of the trajectory of {} states", t.states.len());
    }
    Ok(Out::Hit)
}

fn p07() -> Prop {
    Prop {
        id: "P07",
        assumptions: &["States of generated trajectories sample exact two-body motions; interpolation errors are judged against the Hermite error bound for the samples available."],
        subs: vec![
            sub("finalize", "stored out of order or with duplicate epochs", 20000, 200_000, || trajs(1, 60, 0.3), chk_finalize),
            sub("at", "at least one epoch with enough samples around it", 40000, 600_000, || {
                (trajs(1, 60, 0.3), prop::collection::vec(0.0..1.0f64, 8), prop::option::weighted(0.3, (0usize..100, (-10.0..-0.5f64).prop_map(|x| 10f64.powf(x)))))
                    .prop_map(|(mut g, at, near)| {
                        g.near = near;
                        AtCase { g, at }
                    })
                    .boxed()
            }, chk_at),
            sub("series", "the bounded series has at least two epochs", 20000, 200_000, slices, chk_series),
            sub("filter", "some states kept and some removed", 8000, 300_000, slices, chk_filter),
            sub("merge", "both parts contribute", 6000, 200_000, slices, chk_merge),
            sub("frames", "another frame than the one of the trajectory", 3000, 100_000, slices, chk_frames),
            sub("bsp", "always", 3000, 100_000, || {
                (0u8..3, 0u8..5, 0.0..3e8f64, 0.0..3e5f64, 300.0..2e4f64, 0.0..1000.0f64)
                    .prop_map(|(target, obs, t0, span, step, dry)| BspCase { target, obs, t0: rnd3(t0), span: rnd3(span), step: rnd3(step), dry })
                    .boxed()
            }, chk_bsp),
            sub("propagated", "always", 600, 30_000, || {
                (orbits(6800.0, 30000.0, 0.5), prop_oneof![3 => 0.3..2.0f64, 2 => -2.0..-0.3f64], prop::sample::select(vec![0usize, 1, 2]), 0u8..3, prop::collection::vec(0.0..1.0f64, 3))
                    .prop_map(|(o, revs, method, dynk, at)| PropTraj { o, revs, method, dynk, at })
                    .boxed()
            }, chk_propagated),
        ],
    }
}

// ------------------------------------------------------------------------------------------
// P08 files
// ------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    g: GenTraj,
    thruster: Option<(f64, f64)>,
    modes: Vec<u8>,
    dirs: Vec<Option<[f64; 2]>>,
    ns: i64,
    scale: u8,
    cfg: u8,
    a: f64,
    b: f64,
    step: f64,
}

fn files() -> BoxedStrategy<FileCase> {
    prop_oneof![12 => trajs(2, 40, 0.3), 1 => trajs(97, 150, 0.3)]
        .prop_flat_map(|g| {
            let n = g.n();
            (
                Just(g),
                prop::option::of((0.01..500.0f64, 100.0..3000.0f64)),
                prop::collection::vec(0u8..3, n),
                prop::collection::vec(prop::option::weighted(0.7, [0.0..6.3f64, -1.57..1.57f64]), n),
                prop_oneof![Just(0i64), 0i64..1_000_000_000],
                0u8..4,
                0u8..8,
                -0.2..1.2f64,
                -0.2..1.2f64,
                0.02..0.6f64,
            )
        })
        .prop_map(|(g, thruster, modes, dirs, ns, scale, cfg, a, b, step)| FileCase { g, thruster, modes, dirs, ns, scale, cfg, a, b, step })
        .boxed()
}

fn dir_of(d: [f64; 2]) -> V3 {
    let (sa, ca) = d[0].sin_cos();
    let (se, ce) = d[1].sin_cos();
    V3::new(ce * ca, ce * sa, se)
}

impl FileCase {
    fn build(&self, exports_thrust: bool) -> Traj<Spacecraft> {
        let mut t = Traj::new();
        let ts = [hifitime::TimeScale::UTC, hifitime::TimeScale::TAI, hifitime::TimeScale::TDB, hifitime::TimeScale::GPST][self.scale as usize];
        for (i, s) in self.g.states().iter().enumerate() {
            let mut s = *s;
            s.orbit.epoch = (s.orbit.epoch + Duration::from_total_nanoseconds(self.ns as i128)).to_time_scale(ts);
            if let Some((thrust, isp)) = self.thruster {
                s.thruster = Some(Thruster { thrust_N: thrust, isp_s: isp });
            }
            if exports_thrust {
                s.mode = [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit][self.modes[i] as usize];
                s.mut_thrust_direction(self.dirs[i].map(dir_of));
            }
            t.states.push(s);
        }
        t.finalize();
        t
    }
}

fn epoch_ns(a: Epoch, b: Epoch) -> i128 {
    (a.to_time_scale(hifitime::TimeScale::TAI) - b.to_time_scale(hifitime::TimeScale::TAI)).total_nanoseconds().abs()
}

/// The configuration of an export, and the states that it selects (None when there are none or too many).
fn export_of(c: &FileCase, t: &Traj<Spacecraft>) -> (ExportCfg, Option<Vec<Spacecraft>>) {
    let mut cfg = ExportCfg::default();
    let (e0, e1) = (t.start_epoch(), t.end_epoch());
    let span = (e1 - e0).to_seconds();
    let mut interp = false;
    if c.cfg & 1 != 0 {
        cfg.step = Some(secs(rnd3((c.step * span).max(0.01))));
        interp = true;
    }
    if c.cfg & 2 != 0 {
        cfg.start_epoch = Some(e0 + secs(rnd3(c.a.min(c.b) * span)));
        interp = true;
    }
    if c.cfg & 4 != 0 {
        cfg.end_epoch = Some(e0 + secs(rnd3(c.a.max(c.b) * span)));
        interp = true;
    }
    let want: Vec<Spacecraft> = if interp {
        let s = cfg.start_epoch.unwrap_or(e0).max(e0);
        let e = cfg.end_epoch.unwrap_or(e1).min(e1);
        let st = cfg.step.unwrap_or(Unit::Minute * 1);
        if s > e || (e - s).to_seconds() / st.to_seconds() > 3000.0 {
            return (cfg, None);
        }
        let mut v = vec![];
        let mut x = s;
        while x <= e {
            v.push(t.at(x).unwrap());
            x += st;
        }
        v
    } else {
        t.states.clone()
    };
    (cfg, if want.is_empty() { None } else { Some(want) })
}

fn chk_parquet(c: &FileCase) -> R {
    let t = c.build(true);
    let path = scratch_file("parquet");
    let (cfg, Some(want)) = export_of(c, &t) else { return Ok(Out::Discard) };
    let p = match t.to_parquet(&path, cfg) {
        Ok(p) => p,
        Err(e) => return fail("write", e.to_string()),
    };
    let r = Traj::<Spacecraft>::from_parquet(&p);
    let tab = crate::pq::read(&p);
    let _ = std::fs::remove_file(&p);
    let r = match r {
        Ok(r) => r,
        Err(e) => return fail("read", e.to_string()),
    };
    req!(r.states.len() == want.len(), "count", "{} states instead of {}", r.states.len(), want.len());
    for (x, s) in r.states.iter().zip(&want) {
        req!(epoch_ns(x.epoch(), s.epoch()) <= 1000, "epoch", "{:?} instead of {:?}", x.epoch(), s.epoch());
        req!(x.orbit.frame == s.orbit.frame, "frame", "{:?} instead of {:?}", x.orbit.frame, s.orbit.frame);
        req!(x.orbit.radius_km == s.orbit.radius_km && x.orbit.velocity_km_s == s.orbit.velocity_km_s, "orbit", "{} instead of {}", x.orbit, s.orbit);
        req!(x.mass.dry_mass_kg == s.mass.dry_mass_kg && x.mass.prop_mass_kg == s.mass.prop_mass_kg, "mass", "{:?} instead of {:?}", x.mass, s.mass);
        req!(x.srp.coeff_reflectivity == s.srp.coeff_reflectivity, "cr", "{} instead of {}", x.srp.coeff_reflectivity, s.srp.coeff_reflectivity);
        req!(x.drag.coeff_drag == s.drag.coeff_drag, "cd", "{} instead of {}", x.drag.coeff_drag, s.drag.coeff_drag);
        req!(x.thruster == s.thruster, "thruster", "{:?} instead of {:?}", x.thruster, s.thruster);
        req!(x.mode() == s.mode(), "mode", "{:?} instead of {:?}", x.mode(), s.mode());
        match (x.thrust_direction(), s.thrust_direction()) {
            (None, None) => {}
            (Some(a), Some(b)) => req!((a - b).norm() < 1e-14, "direction", "{a} instead of {b}"),
            (a, b) => return fail("direction", format!("{a:?} instead of {b:?}")),
        }
    }
    // The file itself: columns against the states
    let tab = match tab {
        Ok(t) => t,
        Err(e) => return fail("raw", e),
    };
    for (p, f) in [
        (StateParameter::Element(OrbitalElement::SemiMajorAxis), 0usize),
        (StateParameter::Element(OrbitalElement::Eccentricity), 1),
        (StateParameter::Element(OrbitalElement::Inclination), 2),
        (StateParameter::Element(OrbitalElement::X), 3),
        (StateParameter::Element(OrbitalElement::VZ), 4),
    ] {
        let name = format!("{p}");
        let Some(col) = tab.num.get(&name) else {
            return fail("column", format!("no column {name}"));
        };
        for (i, s) in want.iter().enumerate() {
            let o = &s.orbit;
            let mu = c.g.mu();
            let (r, v) = (o.radius_km, o.velocity_km_s);
            let h = r.cross(&v);
            let w = match f {
                0 => 1.0 / (2.0 / r.norm() - v.norm_squared() / mu),
                1 => (v.cross(&h) / mu - r / r.norm()).norm(),
                2 => (h.z / h.norm()).acos().to_degrees(),
                3 => r.x,
                _ => v.z,
            };
            let Some(g) = col.get(i).copied().flatten() else {
                return fail("column-null", format!("{name} row {i}"));
            };
            req!(close(g, w, 1e-9, 1e-7), "column-value", "{name} row {i}: {g} instead of {w}");
        }
    }
    Ok(Out::Hit)
}

fn chk_oem(c: &FileCase) -> R {
    let mut c = c.clone();
    c.scale = 0;
    let t = c.build(false);
    let path = scratch_file("oem");
    let (cfg, Some(want)) = export_of(&c, &t) else { return Ok(Out::Discard) };
    let e = t.to_oem_file(&path, "OBJ".into(), Some("orig".into()), Some("NAME".into()), cfg);
    if let Err(e) = e {
        return fail("write", e.to_string());
    }
    let tpl = spacecraft(t.first().orbit, 12.0, 34.0, 1.0, 1.7, 2.0, 2.9);
    let r = Traj::<Spacecraft>::from_oem_file(&path, Some(tpl));
    let _ = std::fs::remove_file(&path);
    let r = match r {
        Ok(r) => r,
        Err(e) => return fail("read", e.to_string()),
    };
    req!(r.name.as_deref() == Some("OBJ"), "object", "{:?}", r.name);
    req!(r.states.len() == want.len(), "count", "{} states instead of {}", r.states.len(), want.len());
    for (x, s) in r.states.iter().zip(&want) {
        req!(epoch_ns(x.epoch(), s.epoch()) <= 1, "epoch", "{:?} instead of {:?}", x.epoch(), s.epoch());
        req!(x.orbit.frame.ephemeris_id == s.orbit.frame.ephemeris_id && x.orbit.frame.orientation_id == s.orbit.frame.orientation_id, "frame", "{} instead of {}", x.orbit.frame, s.orbit.frame);
        let er = (x.orbit.radius_km - s.orbit.radius_km).norm();
        let ev = (x.orbit.velocity_km_s - s.orbit.velocity_km_s).norm();
        req!(er <= 1e-5 && ev <= 1e-8, "orbit", "off by {er} km and {ev} km/s");
        req!(x.mass == tpl.mass && x.srp == tpl.srp && x.drag == tpl.drag, "template", "{x}");
    }
    Ok(Out::Hit)
}

fn chk_ric(c: &FileCase) -> R {
    // Two trajectories of the same frame: the second is offset by a little.
    let mut g2 = c.g.clone();
    g2.o.rp_km *= 1.0 + 1e-4 * c.a;
    g2.o.ta += 1e-2 * c.b;
    if c.scale >= 2 {
        // Not over the same span
        let off = c.g.offs();
        g2.o.t0_s += rnd3(0.4 * (c.a - 0.5) * *off.last().unwrap() as f64 * 1e-9);
    }
    let t = c.g.build();
    let u = g2.build();
    let path = scratch_file("parquet");
    let same = c.cfg % 4 == 0;
    let s = t.start_epoch().max(u.start_epoch());
    let e = t.end_epoch().min(u.end_epoch());
    let step = secs(rnd3(((e - s).to_seconds() / (1.2 + 3.0 * c.step)).max(0.01)));
    let cfg = ExportCfg { step: Some(step), fields: Some(vec![StateParameter::Element(OrbitalElement::X), StateParameter::Element(OrbitalElement::VY), StateParameter::PropMass()]), ..Default::default() };
    let p = match t.ric_diff_to_parquet(if same { &t } else { &u }, &path, cfg) {
        Ok(p) => p,
        Err(e) => return fail("ric-write", e.to_string()),
    };
    let tab = crate::pq::read(&p);
    let _ = std::fs::remove_file(&p);
    let tab = match tab {
        Ok(t) => t,
        Err(e) => return fail("ric-raw", e),
    };
    let oth = if same { &t } else { &u };
    let s = t.start_epoch().max(oth.start_epoch());
    let e = t.end_epoch().min(oth.end_epoch());
    let mut eps = vec![];
    let mut x = s;
    while x <= e {
        eps.push(x);
        x += step;
    }
    req!(tab.rows == eps.len(), "ric-count", "{} rows instead of {}", tab.rows, eps.len());
    let px = format!("{}", StateParameter::Element(OrbitalElement::X));
    let pvy = format!("{}", StateParameter::Element(OrbitalElement::VY));
    let ppm = format!("{}", StateParameter::PropMass());
    for (i, ep) in eps.iter().enumerate() {
        let (a, b) = (t.at(*ep).unwrap(), oth.at(*ep).unwrap());
        let es = tab.txt["Epoch (UTC)"][i].clone().unwrap_or_default();
        match Epoch::from_gregorian_str(&es) {
            Ok(x) => req!(epoch_ns(x, *ep) <= 1000, "ric-epoch", "{es} instead of {ep}"),
            Err(_) => return fail("ric-epoch", es),
        }
        let g = |n: &str| tab.num.get(n).and_then(|c| c[i]).unwrap_or(f64::NAN);
        req!(g(&px) == a.orbit.radius_km.x - b.orbit.radius_km.x, "ric-x", "row {i}");
        req!(g(&pvy) == a.orbit.velocity_km_s.y - b.orbit.velocity_km_s.y, "ric-vy", "row {i}");
        req!(g(&ppm) == a.mass.prop_mass_kg - b.mass.prop_mass_kg, "ric-prop", "row {i}");
        if eps.len() <= 5 {
            // No smoothing: the difference in the radial, in-track, cross-track axes of this trajectory.
            let (r, v) = (a.orbit.radius_km, a.orbit.velocity_km_s);
            let rh = r / r.norm();
            let ch = r.cross(&v).normalize();
            let ih = ch.cross(&rh);
            let d = b.orbit.radius_km - r;
            for (n, ax) in [("X", rh), ("Y", ih), ("Z", ch)] {
                let w = ax.dot(&d);
                let gv = g(&format!("Delta {n} (RIC) (km)"));
                req!(close(gv, w, 1e-9, 1e-9 * r.norm()), "ric-diff", "row {i} {n}: {gv} instead of {w}");
            }
        }
    }
    Ok(if same { Out::Trivial } else { Out::Hit })
}

fn chk_ground(c: &FileCase) -> R {
    let mut g = c.g.clone();
    g.frame = 0;
    // Nodes every 60, 30 or 20 seconds, so that the rows of the file are nodes.
    let k = 1 + c.cfg as usize % 3;
    g.frac = 60.0 / k as f64 / g.orb().period_s(MU_EARTH);
    g.jit.iter_mut().for_each(|j| *j = 0.0);
    g.o.t0_s = g.o.t0_s.round();
    let mut t = g.build();
    for (i, s) in t.states.iter_mut().enumerate() {
        s.orbit.epoch = g.o.epoch() + secs(60.0 / k as f64 * i as f64);
    }
    let path = scratch_file("parquet");
    let alm = almanac();
    let p = match t.to_groundtrack_parquet(&path, iau_earth(), None, &alm) {
        Ok(p) => p,
        Err(e) => return fail("ground-write", e.to_string()),
    };
    let tab = crate::pq::read(&p);
    let _ = std::fs::remove_file(&p);
    let tab = match tab {
        Ok(t) => t,
        Err(e) => return fail("ground-raw", e),
    };
    let n = ((t.end_epoch() - t.start_epoch()).to_seconds() / 60.0).floor() as usize + 1;
    req!(tab.rows == n, "ground-count", "{} rows instead of {n}", tab.rows);
    let nm = |e| format!("{}", StateParameter::Element(e));
    for i in 0..n {
        let off = 60.0 * i as f64;
        let (r, v) = g.kep(off);
        let o = Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, t.start_epoch() + secs(off), eme2k());
        let b = alm.transform_to(o, iau_earth(), None).unwrap();
        let rr = b.radius_km;
        let lon = rr.y.atan2(rr.x).to_degrees();
        let get = |e| tab.num.get(&nm(e)).and_then(|c| c[i]).unwrap_or(f64::NAN);
        let dl = (get(OrbitalElement::Longitude) - lon).to_radians();
        req!(dl.sin().abs() < 1e-8 && dl.cos() > 0.0, "ground-lon", "row {i}: {} instead of {lon}", get(OrbitalElement::Longitude));
        req!(close(get(OrbitalElement::Rmag), r.norm(), 1e-10, 0.0), "ground-rmag", "row {i}");
        // Geodetic latitude and height: back to Cartesian on the ellipsoid.
        let (lat, ht) = (get(OrbitalElement::Latitude).to_radians(), get(OrbitalElement::Height));
        let (a, bb) = (6378.1366, 6356.7519);
        let e2 = 1.0 - (bb / a) * (bb / a);
        let nn = a / (1.0 - e2 * lat.sin().powi(2)).sqrt();
        let (rho, z) = ((nn + ht) * lat.cos(), (nn * (1.0 - e2) + ht) * lat.sin());
        let rho0 = (rr.x * rr.x + rr.y * rr.y).sqrt();
        req!((rho - rho0).abs() < 1e-3 && (z - rr.z).abs() < 1e-3, "ground-latitude", "row {i}: {rho} {z} instead of {rho0} {}", rr.z);
    }
    Ok(Out::Hit)
}

fn p08() -> Prop {
    Prop {
        id: "P08",
        assumptions: &["Trajectory files do not hold the extra mass and the areas: those are not compared.", "Parquet files write epochs to the microsecond, so epochs are compared to one microsecond."],
        subs: vec![
            sub("parquet", "always", 6000, 100_000, files, chk_parquet),
            sub("oem", "always", 10000, 60_000, files, chk_oem),
            sub("differences", "two different trajectories", 6000, 60_000, files, chk_ric),
            sub("ground-track", "always", 3000, 30_000, files, chk_ground),
        ],
    }
}

// ------------------------------------------------------------------------------------------
// P09 events
// ------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EvCase {
    o: GenOrbit,
    scalar: u8,
    cond: u8,
    /// Where the threshold lies in the range of the scalar, or the angle.
    level: f64,
    nth: usize,
    revs: f64,
    method: usize,
    fixed: bool,
    frame: u8,
    integ: bool,
}

fn evs() -> BoxedStrategy<EvCase> {
    (
        orbits(6800.0, 40000.0, 0.6),
        0u8..8,
        0u8..4,
        0.05..0.95f64,
        prop_oneof![3 => Just(1usize), 3 => 2usize..6],
        prop_oneof![1 => 0.2..3.0f64, 1 => -3.0..-0.2f64],
        prop::sample::select(vec![0usize, 1, 2]),
        any::<bool>(),
        0u8..4,
        prop::bool::weighted(0.25),
    )
        .prop_map(|(o, scalar, cond, level, nth, revs, method, fixed, frame, integ)| EvCase { o, scalar, cond, level, nth, revs, method, fixed, frame, integ })
        .boxed()
}

/// Own evaluation of the scalar of an orbit.
fn own_scalar(k: u8, r: &V3, v: &V3, mu: f64) -> f64 {
    let h = r.cross(v);
    let e = v.cross(&h) / mu - r / r.norm();
    match k {
        0 => r.norm(),
        1 => r.x,
        2 => r.z,
        3 => v.y,
        4 => v.norm(),
        5 => {
            // true anomaly
            let s = h.dot(&e.cross(r)) / h.norm();
            let c = e.dot(r);
            s.atan2(c).to_degrees().rem_euclid(360.0)
        }
        6 => {
            // argument of latitude
            let n = V3::new(-h.y, h.x, 0.0);
            let s = h.dot(&n.cross(r)) / h.norm();
            s.atan2(n.dot(r)).to_degrees().rem_euclid(360.0)
        }
        _ => (r.z / r.norm()).asin().to_degrees(),
    }
}

fn chk_event(c: &EvCase) -> R {
    let alm = almanac();
    let per = c.o.period_s(MU_EARTH);
    let (r0, v0) = c.o.rv(MU_EARTH);
    let angle = c.scalar == 5 || c.scalar == 6;
    if angle && (c.o.ecc < 0.02 || (c.scalar == 6 && !(1.0..179.0).contains(&c.o.inc))) {
        return Ok(Out::Discard);
    }
    // The dependency that computes the angles is wrong exactly at the apsides and for an apsis on the node line.
    let near = |a: f64| (a.to_radians().sin()).abs() < 1e-3;
    if angle && (near(c.o.ta) || (c.scalar == 6 && near(c.o.aop))) {
        return Ok(Out::Discard);
    }
    let frame = match c.frame {
        0 => None,
        1 => Some(moon_j2k()),
        2 => Some(iau_earth()),
        _ => Some(eme2k()),
    };
    // Frame in which the event is evaluated: by default, the one of the initial state.
    let home = if c.integ { moon_j2k() } else { eme2k() };
    let given = frame;
    let frame = if c.integ && frame.is_none() { Some(home) } else { frame };
    if c.integ && matches!(c.scalar, 3..=6) {
        return Ok(Out::Discard);
    }
    if frame.is_some() && (angle || c.scalar == 7) && frame != Some(eme2k()) {
        return Ok(Out::Discard);
    }
    let e0 = c.o.epoch();
    let scal = |t: f64| -> f64 {
        let (r, v) = kepler(r0, v0, MU_EARTH, t);
        match frame {
            None => own_scalar(c.scalar, &r, &v, MU_EARTH),
            Some(f) => {
                let o = Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, e0 + secs(t), eme2k());
                let o = alm.transform_to(o, f, None).unwrap();
                own_scalar(c.scalar, &o.radius_km, &o.velocity_km_s, MU_EARTH)
            }
        }
    };
    let max_s = rnd3(per * c.revs);
    let sgn = max_s.signum();
    // Samples of the scalar along the whole allowed propagation
    let n = (c.revs.abs() * 400.0).ceil() as usize + 20;
    let dt = max_s / n as f64;
    let samples: Vec<f64> = (0..=n).map(|k| scal(dt * k as f64)).collect();
    let (lo, hi) = samples.iter().fold((f64::MAX, f64::MIN), |(a, b), x| (a.min(*x), b.max(*x)));
    if !angle && (hi - lo) < 1e-3 * hi.abs().max(lo.abs()).max(1.0) {
        return Ok(Out::Discard);
    }
    let level = if angle { 360.0 * c.level } else { lo + c.level * (hi - lo) };
    let wid = if angle { 25.0 } else { 0.2 * (hi - lo) };
    let cond = match c.cond {
        0 => Condition::Equals(level),
        1 if !angle => Condition::LessThan(level),
        2 if !angle => Condition::GreaterThan(level),
        3 if !angle => Condition::Between(level - wid, level + wid),
        _ => Condition::Equals(level),
    };
    let ev = |x: f64| -> f64 {
        if angle {
            let d = (x - level).to_radians();
            return d.sin().atan2(d.cos()).to_degrees();
        }
        match cond {
            Condition::Equals(l) => x - l,
            Condition::LessThan(l) => l - x,
            Condition::GreaterThan(l) => x - l,
            Condition::Between(a, b) => (x - a).min(b - x),
            _ => unreachable!(),
        }
    };
    // Roots
    let mut roots: Vec<f64> = vec![];
    for k in 0..n {
        let (a, b) = (ev(samples[k]), ev(samples[k + 1]));
        if a == 0.0 || b == 0.0 {
            return Ok(Out::Discard);
        }
        if a.signum() != b.signum() && (!angle || (a - b).abs() < 180.0) {
            let (mut x, mut y) = (dt * k as f64, dt * (k + 1) as f64);
            for _ in 0..80 {
                let m = 0.5 * (x + y);
                if ev(scal(m)).signum() == a.signum() {
                    x = m;
                } else {
                    y = m;
                }
            }
            roots.push(0.5 * (x + y));
        }
    }
    // Steps: short compared with the distance between crossings, so that the count of crossings is unambiguous.
    let gap = roots.windows(2).map(|w| (w[1] - w[0]).abs()).fold(f64::MAX, f64::min);
    let step = (per / 120.0 * (1.0 - c.o.ecc).powf(1.5)).min(300.0);
    if gap < 3.0 * step {
        return Ok(Out::Discard);
    }
    // Near tangencies are ambiguous: the extrema of the event function must be well away from zero.
    if !angle {
        for k in 1..n {
            let (a, b, d) = (ev(samples[k - 1]), ev(samples[k]), ev(samples[k + 1]));
            if (b - a) * (d - b) <= 0.0 && b.abs() < 0.01 * (hi - lo) {
                return Ok(Out::Discard);
            }
        }
    }
    // The ends as well
    if roots.iter().any(|r| r.abs() < 1.0 || (r - max_s).abs() < 1.0) {
        return Ok(Out::Discard);
    }
    let elem = |e| ScalarExpr::Element(e);
    let scalar = match c.scalar {
        0 => elem(OrbitalElement::Rmag),
        1 => elem(OrbitalElement::X),
        2 => elem(OrbitalElement::Z),
        3 => elem(OrbitalElement::VY),
        4 => elem(OrbitalElement::Vmag),
        5 => elem(OrbitalElement::TrueAnomaly),
        6 => elem(OrbitalElement::AoL),
        _ => elem(OrbitalElement::Declination),
    };
    let event = Event::new(scalar, cond);
    let mut opts = if c.fixed {
        IntegratorOptions::with_fixed_step_s(rnd3(step))
    } else {
        IntegratorOptions::with_adaptive_step_s(1e-3, rnd3(step), 1e-12, nyx_space::propagators::ErrorControl::RSSCartesianStep)
    };
    if c.integ {
        opts.integration_frame = Some(eme2k());
    }
    let prop = Propagator::new(dynamics(0), METHODS[if c.fixed { c.method % 2 } else { c.method }], opts);
    let sc = spacecraft(c.o.earth(), 100.0, 10.0, 1.0, 1.2, 1.0, 2.0);
    let sc = if c.integ { sc.with_orbit(alm.transform_to(sc.orbit, home, None).unwrap()) } else { sc };
    let inertial = |s: &Spacecraft| alm.transform_to(s.orbit, eme2k(), None).unwrap();
    let mut inst = prop.with(sc, alm.clone()).quiet();
    let res = inst.until_nth_event(secs(max_s), &event, given, c.nth);
    let allow = 3.0 * event.epoch_precision.to_seconds() + if c.integ { 0.3 } else { 0.005 };
    if roots.len() < c.nth {
        match res {
            Err(PropagationError::NthEventError { nth, found }) => {
                req!(nth == c.nth && found == roots.len(), "count", "reports {found} of {nth} occurrences, there are {}", roots.len());
                return Ok(Out::Trivial);
            }
            Err(e) => return fail("error", e.to_string()),
            Ok((s, _)) => return fail("phantom", format!("stops at {} although the event occurs {} times only, of {} wanted", s.epoch() - e0, roots.len(), c.nth)),
        }
    }
    let want = roots[c.nth - 1];
    // A slowly varying scalar turns the interpolation error into a time error.
    let rate = (ev(scal(want + 1.0)) - ev(scal(want - 1.0))).abs() / 2.0;
    let allow = allow + match c.scalar { 0..=2 => 1e-4, 3 | 4 => 2e-6, _ => 1e-5 } * if c.integ { 300.0 } else { 1.0 } / rate;
    if allow > 5.0 {
        return Ok(Out::Discard);
    }
    let (s, traj) = match res {
        Ok(x) => x,
        Err(e) => return fail("missed", format!("{e}: the event number {} is at {want} s of {max_s} s", c.nth)),
    };
    let got = (s.epoch() - e0).to_seconds();
    if dbg_on() && (got - want).abs() > 0.3 * allow {
        println!("event {} off", got - want);
    }
    req!((got - want).abs() <= allow, "time", "event number {} found at {got} s instead of {want} s (allowance {allow})", c.nth);
    let (r, v) = kepler(r0, v0, MU_EARTH, got);
    // A state in another frame than the integration frame is only as smooth as the ephemeris of that frame.
    let (tr, tv) = if c.integ { (1e-1, 1e-2) } else { (1e-2, 1e-4) };
    if dbg_on() {
        let (dr, dv) = ((inertial(&s).radius_km - r).norm(), (inertial(&s).velocity_km_s - v).norm());
        if dr > 0.1 * tr || dv > 0.1 * tv {
            println!("event state {dr:e} {dv:e} integ {} fixed {}", c.integ, c.fixed);
        }
    }
    req!((inertial(&s).radius_km - r).norm() < tr && (inertial(&s).velocity_km_s - v).norm() < tv, "state", "the returned state is not on the trajectory: {} vs {r}", s.orbit);
    req!(s.orbit.frame == sc.orbit.frame && s.mass == sc.mass, "frame", "{s}");
    // The trajectory goes from the start to the end of the step of the event.
    let (near, far) = if sgn > 0.0 { (traj.first(), traj.last()) } else { (traj.last(), traj.first()) };
    req!(near.epoch() == e0, "traj-start", "{}", near.epoch());
    let over = ((far.epoch() - e0).to_seconds() - want) * sgn;
    req!(over >= -allow && over <= step + allow, "traj-end", "trajectory ends {over} s after the event");
    req!(traj.states.windows(2).all(|w| w[0].epoch() < w[1].epoch()), "traj-order", "not sorted");
    for st in &traj.states {
        let (r, _) = kepler(r0, v0, MU_EARTH, (st.epoch() - e0).to_seconds());
        req!((inertial(st).radius_km - r).norm() < 1e-3 && st.orbit.frame == sc.orbit.frame, "traj-state", "{st}");
    }
    // The instance is still usable: propagate on, forward.
    let here = far.epoch();
    let next = match inst.for_duration(secs(100.0)) {
        Ok(x) => x,
        Err(e) => return fail("resume-err", e.to_string()),
    };
    let (r, _) = kepler(r0, v0, MU_EARTH, (here - e0).to_seconds() + 100.0);
    req!(next.epoch() == here + secs(100.0) && (inertial(&next).radius_km - r).norm() < 1e-3, "resume", "{next}");
    Ok(Out::Hit)
}

fn p09() -> Prop {
    Prop {
        id: "P09",
        assumptions: &["Steps are short compared with the time between two crossings and the crossings are not tangent, so the number of occurrences is unambiguous."],
        subs: vec![sub("until-event", "the wanted occurrence exists", 12000, 200_000, evs, chk_event)],
    }
}
