//! P31 multiple shooting: the initial nodes, the chain of corrections and their cost.
use crate::fw::*;
use crate::p_dyn::err;
use crate::req;
use crate::world::*;
use anise::prelude::{Frame, Orbit};
use nalgebra::{DMatrix, DVector, Vector3};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::md::objective::Objective;
use nyx_space::md::opti::ctrlnodes::{Node, NodeSerde, NodesSerde};
use nyx_space::md::opti::multipleshooting::multishoot::{MultipleShooting, MultishootNode};
use nyx_space::md::opti::multipleshooting::CostFunction;
use nyx_space::propagators::{ErrorControl, IntegratorOptions, Propagator};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const PROPS: &[fn() -> Prop] = &[p31];

type V3 = Vector3<f64>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shoot {
    o: GenOrbit,
    moon: bool,
    /// Duration over the period
    frac: f64,
    n: usize,
    /// Of the destination from where the ballistic arc ends, over the radius
    off: [f64; 3],
    fuel: bool,
    mass: f64,
}

fn shoots(fmax: f64, omax: f64, nmax: usize) -> BoxedStrategy<Shoot> {
    (orbits(6900.0, 30000.0, 0.3), any::<bool>(), 0.03..fmax, prop_oneof![1 => 0usize..3, 12 => 3usize..nmax], prop::array::uniform3(-1.0..1.0f64), -5.0..omax, any::<bool>(), 50.0..2000.0f64)
        .prop_map(|(o, moon, frac, n, d, mag, fuel, mass)| {
            let k = 10f64.powf(mag);
            Shoot { o, moon, frac, n, off: d.map(|x| x * k), fuel, mass }
        })
        .boxed()
}

impl Shoot {
    fn frame(&self) -> Frame {
        if self.moon { moon_j2k() } else { eme2k() }
    }
    fn body(&self) -> Frame {
        if self.moon { iau_moon() } else { iau_earth() }
    }
    fn mu(&self) -> f64 {
        self.frame().mu_km3_s2().unwrap()
    }
    fn x0(&self) -> Spacecraft {
        let mut o = self.o.clone();
        if self.moon {
            o.rp_km *= 0.3;
        }
        spacecraft(o.orbit(self.frame()), self.mass, 10.0, 1.0, 1.5, 1.0, 2.0)
    }
    fn dt(&self) -> f64 {
        let o = self.x0().orbit;
        rnd3(self.frac * std::f64::consts::TAU * (o.sma_km().unwrap().powi(3) / self.mu()).sqrt())
    }
    fn xf(&self) -> Orbit {
        let o = self.x0().orbit;
        let (r, v) = kepler(o.radius_km, o.velocity_km_s, self.mu(), self.dt());
        let d = V3::from(self.off) * r.norm();
        Orbit::new(r.x + d.x, r.y + d.y, r.z + d.z, v.x, v.y, v.z, o.epoch + secs(self.dt()), self.frame())
    }
}

fn prop() -> Propagator<SpacecraftDynamics> {
    Propagator::default_dp78(SpacecraftDynamics::new(OrbitalDynamics::two_body()))
}

fn pos(n: &Node) -> V3 {
    V3::new(n.x, n.y, n.z)
}

/// The nodes before any iteration.
fn chk_nodes(c: &Shoot) -> R {
    let alm = almanac();
    let opts = IntegratorOptions::with_adaptive_step_s(1e-3, c.dt() / 30.0, 1e-12, ErrorControl::RSSCartesianStep);
    let p = Propagator::dp78(SpacecraftDynamics::new(OrbitalDynamics::two_body()), opts);
    let (x0, xf, n) = (c.x0(), c.xf(), c.n);
    let line = MultipleShooting::equidistant_nodes(x0, xf, n, &p);
    let alt = MultipleShooting::linear_altitude_heuristic(x0, xf, n, c.body(), &p, alm.clone());
    if n < 3 {
        req!(line.is_err() && alt.is_err(), "too-few", "accepted {n} nodes");
        return Ok(Out::Trivial);
    }
    let here = Orbit { epoch: xf.epoch, ..x0.orbit };
    req!(MultipleShooting::equidistant_nodes(x0, here, n, &p).is_err(), "same-point", "accepted a destination at the start");
    let line = line.map_err(err)?;
    let alt = alt.map_err(err)?;
    let dt = xf.epoch - x0.epoch();
    for (what, t) in [("line", &line.targets), ("altitude", &alt.targets)] {
        req!(t.len() == n, "count", "{what}: {} nodes instead of {n}", t.len());
        for (i, k) in t.iter().enumerate() {
            let e = x0.epoch() + dt * ((i + 1) as f64 / n as f64);
            req!((k.epoch - e).to_seconds().abs() <= 1e-9 * n as f64 + 1e-9, "epoch", "{what} {i}: {} instead of {e}", k.epoch);
            req!(k.frame == x0.orbit.frame, "frame", "{what} {i}: {}", k.frame);
            req!(close(k.rmag(), pos(k).norm(), 1e-12, 0.0), "rmag", "{}", k.rmag());
        }
    }
    for ms in [&line, &alt] {
        req!(ms.x0 == x0 && ms.xf == xf && ms.current_iteration == 0, "problem", "{}", ms.x0);
    }
    let (a, b) = (x0.orbit.radius_km, xf.radius_km);
    for (i, k) in line.targets.iter().enumerate() {
        let want = a + (b - a) * ((i + 1) as f64 / n as f64);
        req!((pos(k) - want).norm() < 1e-8 * (1.0 + a.norm()), "line", "node {i} at {} instead of {want}", pos(k));
    }
    // In altitude: above the ground track of the ballistic arc, between its altitude and the one to reach.
    let bf = |o: Orbit| alm.transform_to(o, c.body(), None).unwrap();
    let h1 = bf(xf).height_km().unwrap();
    for (i, k) in alt.targets.iter().enumerate() {
        let s = (k.epoch - x0.epoch()).to_seconds();
        let (r, v) = kepler(a, x0.orbit.velocity_km_s, c.mu(), s);
        let o = bf(Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, k.epoch, c.frame()));
        let g = bf(Orbit::new(k.x, k.y, k.z, 0.0, 0.0, 0.0, k.epoch, c.frame()));
        let (h0, h) = (o.height_km().unwrap(), g.height_km().unwrap());
        let dl = (o.latitude_deg().unwrap() - g.latitude_deg().unwrap()).abs();
        let cl = o.latitude_deg().unwrap().to_radians().cos();
        let dm = (o.longitude_deg() - g.longitude_deg()).to_radians();
        req!(dl < 1e-5 && dm.sin().abs() * cl < 1e-7 && dm.cos() > 0.0, "ground-track", "node {i} is not above the arc: {dl} deg, {dm} rad");
        let (lo, hi) = (h0.min(h1), h0.max(h1));
        req!(h > lo - 1e-3 && h < hi + 1e-3, "altitude", "node {i} at {h} km, not between {h0} and {h1}");
        if i + 1 == n {
            req!((h - h1).abs() < 1e-3, "last-altitude", "the last node is at {h} km instead of {h1}");
        } else if i > 0 {
            // Closer and closer to the altitude to reach
            let f = (h - h0) / (h1 - h0);
            req!((h1 - h0).abs() < 0.1 || (f - 1.0 / ((n - i) as f64).sqrt()).abs() < 1e-3 / (h1 - h0).abs().min(1.0), "fraction", "node {i}: {f} of the way");
        }
    }
    Ok(Out::Hit)
}

/// The impulses to go through these positions, by single shooting on the two-body motion.
fn impulses(c: &Shoot, nodes: &[V3], times: &[f64]) -> Option<Vec<V3>> {
    let x0 = c.x0().orbit;
    let (mut r, mut v, mut t) = (x0.radius_km, x0.velocity_km_s, 0.0);
    let mut out = vec![];
    for (p, tn) in nodes.iter().zip(times) {
        let dt = tn - t;
        let mut w = v;
        let mut ok = false;
        for _ in 0..30 {
            let (r1, _) = kepler(r, w, c.mu(), dt);
            let e = p - r1;
            if e.norm() < 1e-9 * p.norm() {
                ok = true;
                break;
            }
            let mut j = nalgebra::Matrix3::zeros();
            for k in 0..3 {
                let h = 1e-5;
                let mut d = V3::zeros();
                d[k] = h;
                let (a, _) = kepler(r, w + d, c.mu(), dt);
                let (b, _) = kepler(r, w - d, c.mu(), dt);
                j.set_column(k, &((a - b) / (2.0 * h)));
            }
            w += j.try_inverse()? * e;
        }
        if !ok {
            return None;
        }
        out.push(w - v);
        let (r1, v1) = kepler(r, w, c.mu(), dt);
        (r, v, t) = (r1, v1, *tn);
    }
    Some(out)
}

fn cost(dv: &[V3]) -> f64 {
    dv.iter().map(|d| d.norm_squared()).sum()
}

/// Gauss-Newton on the positions of the nodes but the last.
fn optimum(c: &Shoot, nodes: &[V3], times: &[f64]) -> Option<f64> {
    let n = nodes.len();
    let mut x = nodes.to_vec();
    let mut best = cost(&impulses(c, &x, times)?);
    for _ in 0..20 {
        let base = impulses(c, &x, times)?;
        let mut j = DMatrix::zeros(3 * n, 3 * (n - 1));
        let h = 1e-2;
        for k in 0..3 * (n - 1) {
            let mut y = x.clone();
            y[k / 3][k % 3] += h;
            let p = impulses(c, &y, times)?;
            for i in 0..n {
                for a in 0..3 {
                    j[(3 * i + a, k)] = (p[i][a] - base[i][a]) / h;
                }
            }
        }
        let b = DVector::from_iterator(3 * n, base.iter().flat_map(|d| d.iter().cloned().collect::<Vec<_>>()));
        let dx = j.svd(true, true).solve(&(-b), 1e-14).ok()?;
        for k in 0..3 * (n - 1) {
            x[k / 3][k % 3] += dx[k];
        }
        let now = cost(&impulses(c, &x, times)?);
        if (best - now).abs() < 1e-6 * best {
            return Some(best.min(now));
        }
        best = best.min(now);
    }
    Some(best)
}

fn chk_solve(c: &Shoot) -> R {
    let alm = almanac();
    let p = prop();
    let (x0, xf, n) = (c.x0(), c.xf(), c.n.max(3));
    let mut ms = if c.fuel { MultipleShooting::equidistant_nodes(x0, xf, n, &p).map_err(err)? } else { MultipleShooting::linear_altitude_heuristic(x0, xf, n, c.body(), &p, alm.clone()).map_err(err)? };
    let first: Vec<V3> = ms.targets.iter().map(pos).collect();
    let times: Vec<f64> = ms.targets.iter().map(|k| (k.epoch - x0.epoch()).to_seconds()).collect();
    let sol = ms.solve(if c.fuel { CostFunction::MinimumFuel } else { CostFunction::MinimumEnergy }, alm.clone());
    let sol = match sol {
        Ok(s) => s,
        Err(_) => return Ok(Out::Discard), // too close to ballistic, or too far, for the corrections to be found
    };
    req!(sol.x0 == x0 && sol.xf == xf && sol.nodes.len() == n && sol.solutions.len() == n, "problem", "{} nodes and {} solutions", sol.nodes.len(), sol.solutions.len());
    let fin: Vec<V3> = sol.nodes.iter().map(pos).collect();
    // The destination does not move
    req!(fin[n - 1] == first[n - 1], "last-node", "the last node went from {} to {}", first[n - 1], fin[n - 1]);
    let mut at = x0;
    let mut dvs = vec![];
    for (i, s) in sol.solutions.iter().enumerate() {
        let k = &sol.nodes[i];
        req!((k.epoch - x0.epoch()).to_seconds() == times[i], "node-epoch", "node {i} moved in time");
        // Each leg starts where the previous one ended, with the impulse added
        let d = s.corrected_state.orbit.velocity_km_s - at.orbit.velocity_km_s;
        req!(s.corrected_state.epoch() == at.epoch() && (s.corrected_state.orbit.radius_km - at.orbit.radius_km).norm() < 1e-9, "chain", "leg {i} starts at {} instead of {at}", s.corrected_state);
        req!((d - s.correction).norm() < 1e-12 + 1e-12 * at.orbit.velocity_km_s.norm(), "impulse", "leg {i}: {d} instead of {}", s.correction);
        let dt = (k.epoch - at.epoch()).to_seconds();
        let (r, v) = kepler(s.corrected_state.orbit.radius_km, s.corrected_state.orbit.velocity_km_s, c.mu(), dt);
        req!(s.achieved_state.epoch() == k.epoch, "arrival", "leg {i} ends at {} instead of {}", s.achieved_state.epoch(), k.epoch);
        req!((s.achieved_state.orbit.radius_km - r).norm() < 1e-5 && (s.achieved_state.orbit.velocity_km_s - v).norm() < 1e-8, "leg", "leg {i} ends at {} instead of {r}", s.achieved_state);
        let obj: [Objective; 3] = (*k).into();
        for (a, o) in obj.iter().enumerate() {
            req!((s.achieved_state.orbit.radius_km[a] - o.desired_value).abs() <= o.tolerance && o.desired_value == fin[i][a], "node-missed", "leg {i} misses component {a} by {} km", s.achieved_state.orbit.radius_km[a] - o.desired_value);
        }
        dvs.push(d);
        at = s.achieved_state;
    }
    let got = cost(&dvs);
    if let Some(best) = optimum(c, &fin, &times) {
        req!(got <= 1.02 * best + 1e-8, "cost", "the impulses sum to {got} km2/s2 instead of {best}, with {n} nodes");
    }
    // The trajectories are these legs
    let trajs = sol.build_trajectories(&p, alm.clone()).map_err(err)?;
    req!(trajs.len() == n, "trajectories", "{} trajectories", trajs.len());
    for (i, (t, s)) in trajs.iter().zip(&sol.solutions).enumerate() {
        req!(t.start_epoch() == s.corrected_state.epoch() && t.end_epoch() == s.achieved_state.epoch(), "leg-epochs", "trajectory {i}: {t}");
        let (a, b) = (t.first().orbit, t.last().orbit);
        req!((a.radius_km - s.corrected_state.orbit.radius_km).norm() < 1e-9 && (a.velocity_km_s - s.corrected_state.orbit.velocity_km_s).norm() < 1e-12, "leg-start", "trajectory {i} starts at {a}");
        req!((b.radius_km - s.achieved_state.orbit.radius_km).norm() < 1e-6, "leg-end", "trajectory {i} ends at {b}");
    }
    Ok(Out::Hit)
}

/// Nodes are written and read back.
fn chk_serde(c: &(Shoot, [f64; 4], Option<i64>)) -> R {
    let (s, x, ns_off) = c;
    let e = s.x0().epoch() + hifitime::Duration::from_total_nanoseconds(ns_off.unwrap_or(0) as i128);
    let mut node = Node { x: x[0], y: x[1], z: x[2], vmag: x[3], epoch: e, frame: s.frame() };
    let ser: NodeSerde = node.into();
    let ser2: NodeSerde = (&node).into();
    let all = NodesSerde { nodes: vec![ser, ser2] };
    let txt = serde_json::to_string(&all).unwrap();
    let back: NodesSerde = serde_json::from_str(&txt).map_err(err)?;
    for b in back.to_node_vec().map_err(err)? {
        req!(b.x == x[0] && b.y == x[1] && b.z == x[2] && b.vmag == x[3] && b.epoch == e && b.frame == node.frame, "node", "{b:?} from {node:?}");
    }
    let o3: [Objective; 3] = node.into();
    let o4: [Objective; 4] = node.into();
    for i in 0..4 {
        req!(o4[i].desired_value == x[i] && (i == 3 || (o3[i].desired_value == x[i] && o3[i].parameter == o4[i].parameter)), "objectives", "{o3:?} {o4:?}");
        MultishootNode::<4>::update_component(&mut node, i, 1.5 + i as f64);
    }
    for i in 0..3 {
        MultishootNode::<3>::update_component(&mut node, i, -0.5);
    }
    let got = [node.x, node.y, node.z, node.vmag];
    for i in 0..4 {
        let want = x[i] + 1.5 + i as f64 - if i < 3 { 0.5 } else { 0.0 };
        req!(close(got[i], want, 1e-14, 1e-12), "update", "component {i} is {} instead of {want}", got[i]);
    }
    req!(MultishootNode::<3>::epoch(&node) == e && MultishootNode::<4>::epoch(&node) == e, "update-epoch", "{}", node.epoch);
    Ok(Out::Hit)
}

fn p31() -> Prop {
    Prop {
        id: "P31",
        assumptions: &["two-body motion", "destinations within a few percent of the radius of where the ballistic arc ends, arcs of less than a third of a revolution"],
        subs: vec![
            sub("nodes", "three nodes or more", 8000, 100_000, || shoots(0.6, -0.5, 12), chk_nodes),
            sub("solve", "solved", 800, 10_000, || shoots(0.3, -1.5, 6), chk_solve),
            sub("serde", "always", 20000, 60_000, || (shoots(0.3, -1.0, 4), prop::array::uniform4(-1e5..1e5f64), prop::option::of(-1_000_000_000i64..1_000_000_000)), chk_serde),
        ],
    }
}
