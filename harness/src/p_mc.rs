//! P13 Monte Carlo reproducibility, P14 dispersion statistics.
use crate::fw::*;
use crate::p_prop::dynamics;
use crate::req;
use crate::world::*;
use anise::analysis::event::Event;
use anise::prelude::Orbit;
use nalgebra::{DMatrix, DVector, SMatrix, SVector, Vector3};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::io::ExportCfg;
use nyx_space::mc::{DispersedState, MonteCarlo, MvnSpacecraft, Pcg64Mcg, StateDispersion};
use nyx_space::md::StateParameter;
use nyx_space::md::prelude::OrbitalElement;
use nyx_space::propagators::{ErrorControl, IntegratorOptions, Propagator};
use proptest::prelude::*;
use rand_distr::Distribution;
use serde::{Deserialize, Serialize};

pub const PROPS: &[fn() -> Prop] = &[p13, p14];

type M9 = SMatrix<f64, 9, 9>;
type V9 = SVector<f64, 9>;

fn x9(s: &Spacecraft) -> V9 {
    let (r, v) = (s.orbit.radius_km, s.orbit.velocity_km_s);
    V9::from_column_slice(&[r.x, r.y, r.z, v.x, v.y, v.z, s.srp.coeff_reflectivity, s.drag.coeff_drag, s.mass.prop_mass_kg])
}

fn same(a: &Spacecraft, b: &Spacecraft) -> bool {
    x9(a) == x9(b) && a.epoch() == b.epoch() && a.orbit.frame == b.orbit.frame && a.mass == b.mass && a.thruster == b.thruster
}

// ---------------------------------------------------------------------------------------------
// P13
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mc {
    o: GenOrbit,
    seed_hi: u64,
    seed_lo: u64,
    n: usize,
    skip: usize,
    threads: usize,
    dur_min: f64,
    dynamics: u8,
    sig: [f64; 3],
    event: bool,
    step_s: f64,
    a: f64,
    b: f64,
    fill: bool,
    cfg: u8,
}

fn mcs() -> BoxedStrategy<Mc> {
    (
        (orbits(6900.0, 20000.0, 0.3), any::<u64>(), any::<u64>(), 1usize..14, 0usize..12, prop::sample::select(vec![1usize, 2, 3, 8])),
        (5.0..120.0f64, 0u8..2, prop::array::uniform3(0.01..10.0f64), any::<bool>(), 20.0..900.0f64, 0.0..1.0f64, 0.0..1.0f64, any::<bool>(), 0u8..8),
    )
        .prop_map(|((o, seed_hi, seed_lo, n, skip, threads), (dur, dynamics, sig, event, step, a, b, fill, cfg))| Mc {
            o,
            seed_hi,
            seed_lo,
            n,
            skip,
            threads,
            dur_min: rnd3(dur),
            dynamics,
            sig,
            event,
            step_s: rnd3(step),
            a,
            b,
            fill,
            cfg,
        })
        .boxed()
}

impl Mc {
    fn template(&self) -> Spacecraft {
        spacecraft(self.o.earth(), 500.0, 80.0, 2.0, 1.3, 1.5, 2.1)
    }
    fn dispersions(&self) -> Vec<StateDispersion> {
        vec![
            StateDispersion::zero_mean(StateParameter::Element(OrbitalElement::X), self.sig[0]),
            StateDispersion::zero_mean(StateParameter::Element(OrbitalElement::VY), self.sig[1] * 1e-2),
            StateDispersion::zero_mean(StateParameter::Cr(), self.sig[2] * 1e-2),
        ]
    }
    fn mc(&self) -> MonteCarlo<Spacecraft, MvnSpacecraft> {
        let seed = ((self.seed_hi as u128) << 64) | self.seed_lo as u128;
        MonteCarlo::new(self.template(), MvnSpacecraft::new(self.template(), self.dispersions()).unwrap(), "scenario".into(), Some(seed))
    }
    fn prop(&self) -> Propagator<nyx_space::dynamics::SpacecraftDynamics> {
        Propagator::dp78(dynamics(self.dynamics), IntegratorOptions::with_adaptive_step_s(1.0, 300.0, 1e-11, ErrorControl::RSSCartesianStep))
    }
}

fn chk_states(c: &Mc) -> R {
    let mc = c.mc();
    let seed = mc.seed;
    let total = c.skip + c.n;
    let all = mc.generate_states(0, total, seed);
    req!(all.len() == total, "count", "{} states instead of {total}", all.len());
    for (k, (i, _)) in all.iter().enumerate() {
        req!(*i == k, "index", "state {k} has index {i}");
    }
    let again = c.mc().generate_states(0, total, seed);
    let tail = mc.generate_states(c.skip, c.n, seed);
    req!(tail.len() == c.n, "count", "{} states instead of {}", tail.len(), c.n);
    for k in 0..total {
        req!(same(&all[k].1.state, &again[k].1.state), "reproducible", "state {k} differs between two generators of the same seed");
    }
    for k in 0..c.n {
        req!(same(&all[c.skip + k].1.state, &tail[k].1.state), "skip", "state {k} after skipping {} is not state {} of the full run", c.skip, c.skip + k);
    }
    let other = mc.generate_states(0, total, seed.map(|s| s ^ 0x5555));
    req!(!same(&all[0].1.state, &other[0].1.state), "seed", "another seed gives the same states");
    for k in 1..total {
        req!(!same(&all[0].1.state, &all[k].1.state), "distinct", "states 0 and {k} are identical");
    }
    Ok(if c.skip > 0 && c.n > 1 { Out::Hit } else { Out::Trivial })
}

fn chk_runs(c: &Mc) -> R {
    let alm = almanac();
    let t0 = c.o.epoch();
    let end = t0 + secs(c.dur_min * 60.0);
    let event = Event::apoapsis();
    if c.event && (c.o.ecc < 0.02 || (c.o.ta - 180.0).abs() < 30.0) {
        return Ok(Out::Discard);
    }
    // Around the time to apoapsis, so that some runs find it and others do not.
    let max_dur = secs(c.dur_min * 60.0);
    let run = |threads: usize, skip: usize, n: usize| {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        pool.install(|| {
            if c.event {
                c.mc().resume_run_until_nth_event(c.prop(), alm.clone(), skip, max_dur, &event, 1, n)
            } else if skip == 0 {
                c.mc().run_until_epoch(c.prop(), alm.clone(), end, n)
            } else {
                c.mc().resume_run_until_epoch(c.prop(), alm.clone(), skip, end, n)
            }
        })
    };
    let n = c.n.min(6);
    let skip = c.skip.min(5);
    let res = run(c.threads, 0, n + skip);
    req!(res.runs.len() == n + skip && res.scenario == "scenario", "count", "{} runs instead of {}", res.runs.len(), n + skip);
    let states = c.mc().generate_states(0, n + skip, c.mc().seed);
    let mut failed = 0;
    let prop = c.prop();
    for (k, r) in res.runs.iter().enumerate() {
        req!(r.index == k, "order", "run {k} has index {}", r.index);
        req!(same(&r.dispersed_state.state, &states[k].1.state), "state", "run {k} does not start from generated state {k}");
        // Each run is the propagation of its own dispersed state.
        let mut p = prop.with(r.dispersed_state.state, alm.clone()).quiet();
        let solo = if c.event { p.until_nth_event(max_dur, &event, None, 1) } else { p.until_epoch_with_traj(end) };
        match (&r.result, solo) {
            (Ok(a), Ok((s, t))) => {
                req!(same(&a.state, &s), "result", "run {k} ends at {} and its propagation at {s}", a.state);
                req!(a.traj.states.len() == t.states.len() && a.traj.states.iter().zip(&t.states).all(|(x, y)| same(x, y)), "trajectory", "run {k} has another trajectory than its propagation");
                req!(c.event || a.state.epoch() == end, "end", "{} instead of {end}", a.state.epoch());
            }
            (Err(_), Err(_)) => failed += 1,
            (a, b) => return fail("outcome", format!("run {k} succeeded: {}; its propagation succeeded: {}", a.is_ok(), b.is_ok())),
        }
    }
    // Whatever the number of threads, and when resumed.
    let other = run(if c.threads == 1 { 4 } else { 1 }, skip, n);
    req!(other.runs.len() == n, "count", "{} runs instead of {n}", other.runs.len());
    for (k, (a, b)) in other.runs.iter().zip(&res.runs[skip..]).enumerate() {
        req!(same(&a.dispersed_state.state, &b.dispersed_state.state), "resume-state", "run {k} after resuming at {skip} starts elsewhere");
        match (&a.result, &b.result) {
            (Ok(x), Ok(y)) => {
                req!(same(&x.state, &y.state) && x.traj.states.len() == y.traj.states.len(), "resume-result", "run {k} after resuming at {skip} ends elsewhere");
            }
            (Err(_), Err(_)) => {}
            _ => return fail("resume-outcome", format!("run {k} after resuming at {skip}")),
        }
    }
    // Reports
    use OrbitalElement as E;
    let fill = c.fill.then_some(-12345.0);
    for p in [StateParameter::Element(E::X), StateParameter::Element(E::Vmag), StateParameter::Cr(), StateParameter::Isp()] {
        // The specific impulse is unavailable: there is no thruster
        let (mut first, mut last, mut every, mut between) = (vec![], vec![], vec![], vec![]);
        let step = secs(c.step_s);
        let (lo, hi) = (c.a.min(c.b), c.a.max(c.b));
        let (bs, be) = (t0 + secs(lo * c.dur_min * 60.0), t0 + secs(hi * c.dur_min * 60.0));
        let put = |v: &mut Vec<f64>, s: Option<&Spacecraft>| match s.and_then(|s| s.value(p).ok()) {
            Some(x) => v.push(x),
            None => v.extend(fill),
        };
        for r in &res.runs {
            match &r.result {
                Ok(ok) => {
                    let (e0, e1) = (ok.traj.states[0].epoch(), ok.traj.states[ok.traj.states.len() - 1].epoch());
                    put(&mut first, Some(&ok.traj.states[0]));
                    put(&mut last, Some(&ok.traj.states[ok.traj.states.len() - 1]));
                    for (v, a, b) in [(&mut every, e0, e1), (&mut between, bs.max(e0), be.min(e1))] {
                        let mut x = a;
                        while x <= b {
                            let s = ok.traj.at(x).map_err(|e| Fail { sig: "at".into(), msg: e.to_string() })?;
                            put(v, Some(&s));
                            x += step;
                        }
                    }
                }
                Err(_) => {
                    for v in [&mut first, &mut last, &mut every, &mut between] {
                        put(v, None);
                    }
                }
            }
        }
        req!(res.first_values_of(p, fill) == first, "first", "{p}: {:?} instead of {first:?}", res.first_values_of(p, fill));
        req!(res.last_values_of(p, fill) == last, "last", "{p}: {:?} instead of {last:?}", res.last_values_of(p, fill));
        let got = res.every_value_of(p, step, fill);
        req!(got == every, "every", "{p} every {step}: {} values instead of {}", got.len(), every.len());
        let got = res.every_value_of_between(p, step, bs, be, fill);
        req!(got == between, "between", "{p} every {step} from {bs} to {be}: {} values instead of {}", got.len(), between.len());
    }
    for d in c.dispersions() {
        let got = res.dispersion_values_of(d.param).map_err(|e| Fail { sig: "dispersions".into(), msg: e.to_string() })?;
        let want: Vec<f64> = res.runs.iter().map(|r| r.dispersed_state.state.value(d.param).unwrap() - c.template().value(d.param).unwrap()).collect();
        req!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| close(*a, *b, 1e-9, 1e-12)), "dispersions", "{}: {got:?} instead of {want:?}", d.param);
    }
    req!(res.dispersion_values_of(StateParameter::Cd()).is_err(), "no-dispersion", "dispersions of a parameter that is not dispersed");
    // Export
    if c.cfg < 4 {
        let mut cfg = ExportCfg::default();
        if c.cfg & 1 != 0 {
            cfg.step = Some(secs(c.step_s));
        }
        if c.cfg & 2 != 0 {
            cfg.start_epoch = Some(t0 + secs(c.a * 0.5 * c.dur_min * 60.0));
        }
        let path = scratch_file("parquet");
        let (st, s0) = (cfg.step, cfg.start_epoch);
        let w = res.to_parquet(&path, cfg);
        if failed == res.runs.len() {
            req!(w.is_err(), "export-none", "exported without any successful run");
        } else {
            let p = w.map_err(|e| Fail { sig: "export".into(), msg: e.to_string() })?;
            let tab = crate::pq::read(&p);
            let _ = std::fs::remove_file(&p);
            let tab = tab.map_err(|e| Fail { sig: "export-read".into(), msg: e })?;
            let mut want: Vec<(usize, Spacecraft)> = vec![];
            for r in &res.runs {
                if let Ok(ok) = &r.result {
                    if st.is_none() && s0.is_none() {
                        want.extend(ok.traj.states.iter().map(|s| (r.index, *s)));
                    } else {
                        let e1 = ok.state.epoch();
                        let mut x = s0.unwrap_or(t0).max(t0);
                        while x <= e1 {
                            want.push((r.index, ok.traj.at(x).unwrap()));
                            x += st.unwrap_or(secs(60.0));
                        }
                    }
                }
            }
            req!(tab.rows == want.len(), "export-rows", "{} rows instead of {}", tab.rows, want.len());
            if want.is_empty() {
                return Ok(Out::Trivial);
            }
            let idx = &tab.num["Monte Carlo Run Index"];
            let xs = &tab.num["X (km)"];
            let cr = &tab.num["cr"];
            let utc = &tab.txt["Epoch (UTC)"];
            for (k, (i, s)) in want.iter().enumerate() {
                req!(idx[k] == Some(*i as f64), "export-index", "row {k} is of run {:?} instead of {i}", idx[k]);
                req!(xs[k] == Some(s.orbit.radius_km.x) && cr[k] == Some(s.srp.coeff_reflectivity), "export-value", "row {k}: {:?} {:?} instead of {s}", xs[k], cr[k]);
                let e: hifitime::Epoch = utc[k].clone().unwrap().parse().map_err(|e| Fail { sig: "export-epoch".into(), msg: format!("{e}") })?;
                req!((e - s.epoch()).abs() <= secs(2e-6), "export-epoch", "row {k}: {e} instead of {}", s.epoch());
            }
        }
    }
    Ok(if n + skip > 1 { Out::Hit } else { Out::Trivial })
}

fn p13() -> Prop {
    Prop {
        id: "P13",
        assumptions: &["Two-body and Moon point mass dynamics; up to eleven runs per study, on pools of one to eight threads."],
        subs: vec![
            sub("states", "more than one state after skipping some", 200_000, 2_000_000, mcs, chk_states),
            sub("runs", "more than one run", 5_000, 40_000, mcs, chk_runs),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// P14
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Disp {
    o: GenOrbit,
    hyper: f64,
    family: u8,
    mask: u16,
    sig: [f64; 9],
    mean: [f64; 9],
    seed: u64,
    order: u8,
    zero_mean: bool,
}

fn disps() -> BoxedStrategy<Disp> {
    (
        orbits(6900.0, 42000.0, 0.6),
        1.1..3.0f64,
        0u8..6,
        any::<u16>(),
        prop::array::uniform9(0.05..1.0f64),
        prop::array::uniform9(-1.0..1.0f64),
        any::<u64>(),
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(|(o, hyper, family, mask, sig, mean, seed, order, zero_mean)| Disp { o, hyper, family, mask, sig, mean, seed, order, zero_mean })
        .boxed()
}

fn el(e: OrbitalElement) -> StateParameter {
    StateParameter::Element(e)
}

impl Disp {
    fn template(&self) -> Spacecraft {
        let mut o = self.o.clone();
        // Away from the singularities of the elements
        o.ecc = o.ecc.max(0.03);
        o.inc = o.inc.clamp(8.0, 172.0);
        for a in [&mut o.ta, &mut o.aop, &mut o.raan] {
            *a = 23.0 + *a * 320.0 / 360.0;
        }
        if (o.ta - 180.0).abs() < 10.0 {
            o.ta += 25.0;
        }
        if self.family == 4 {
            o.ecc = self.hyper;
            o.ta = (o.ta / 180.0 - 1.0) * 0.7 * (-1.0f64 / o.ecc).acos().to_degrees();
        }
        spacecraft(o.earth(), 500.0, 80.0, 2.0, 1.3, 1.5, 2.1)
    }
    /// Parameter and scale of its dispersion
    fn params(&self) -> Vec<(StateParameter, f64)> {
        use OrbitalElement as E;
        let orb: Vec<(StateParameter, f64)> = match self.family {
            0 | 5 => vec![(el(E::X), 1.0), (el(E::Y), 1.0), (el(E::Z), 1.0), (el(E::VX), 1e-3), (el(E::VY), 1e-3), (el(E::VZ), 1e-3)],
            1 => vec![(el(E::SemiMajorAxis), 1.0), (el(E::Eccentricity), 1e-4), (el(E::Inclination), 1e-2), (el(E::RAAN), 1e-2), (el(E::AoP), 1e-2), (el(E::TrueAnomaly), 1e-2)],
            2 => vec![(el(E::Rmag), 1.0), (el(E::Vmag), 1e-3), (el(E::Inclination), 1e-2), (el(E::RAAN), 1e-2)],
            3 => vec![(el(E::SemiMajorAxis), 1.0), (el(E::RAAN), 1e-2), (el(E::Z), 1.0)],
            _ => vec![(StateParameter::BdotR(), 1.0), (StateParameter::BdotT(), 1.0), (el(E::Vmag), 1e-3)],
        };
        let mut v: Vec<_> = orb.into_iter().enumerate().filter(|(i, _)| self.mask & (1 << i) != 0).map(|(_, p)| p).collect();
        for (k, p) in [(9, (StateParameter::Cr(), 0.05)), (10, (StateParameter::Cd(), 0.1)), (11, (StateParameter::PropMass(), 2.0))] {
            if self.mask & (1 << k) != 0 {
                v.push(p);
            }
        }
        let n = v.len().max(1);
        v.rotate_left(self.order as usize % n);
        v
    }
}

fn ang_param(p: StateParameter) -> bool {
    use OrbitalElement as E;
    matches!(p, StateParameter::Element(E::RAAN | E::AoP | E::TrueAnomaly))
}

fn wrap(d: f64, p: StateParameter) -> f64 {
    if ang_param(p) { (d + 540.0).rem_euclid(360.0) - 180.0 } else { d }
}

/// Row of derivatives of a parameter with respect to the nine components, by differences.
fn row(t: &Spacecraft, p: StateParameter) -> V9 {
    let mut out = V9::zeros();
    for k in 0..9 {
        let h = match k {
            0..3 => 2e-4 * t.orbit.rmag_km(),
            3..6 => 2e-4 * t.orbit.vmag_km_s(),
            _ => 0.1,
        };
        let f = |d: f64| {
            let mut s = *t;
            match k {
                0..3 => s.orbit.radius_km[k] += d,
                3..6 => s.orbit.velocity_km_s[k - 3] += d,
                6 => s.srp.coeff_reflectivity += d,
                7 => s.drag.coeff_drag += d,
                _ => s.mass.prop_mass_kg += d,
            }
            wrap(s.value(p).unwrap() - t.value(p).unwrap(), p)
        };
        out[k] = (8.0 * (f(h) - f(-h)) - (f(2.0 * h) - f(-2.0 * h))) / (12.0 * h);
    }
    out
}

/// Moments of a sample against a covariance, seven sigma allowed.
fn moments(gen_: &MvnSpacecraft, cov: &M9, mean: &V9, seed: u64, n: usize) -> R {
    let mut rng = Pcg64Mcg::new(seed as u128);
    let t = gen_.template;
    let samples: Vec<DispersedState<Spacecraft>> = (0..n).map(|_| gen_.sample(&mut rng)).collect();
    // Principal axes of the correlation matrix
    let unit = [1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-3, 0.1, 0.1, 1.0];
    let d = V9::from_fn(|i, _| {
        let s = cov[(i, i)].max(0.0).sqrt();
        if s > 1e-8 * unit[i] { s } else { 0.0 }
    });
    let idx: Vec<usize> = (0..9).filter(|i| d[*i] > 0.0).collect();
    for s in &samples {
        let x = x9(&s.state) - x9(&t);
        for i in 0..9 {
            if d[i] == 0.0 {
                req!(close(x[i], mean[i], 0.0, 1e-6 * unit[i] + 1e-6 * d.max()), "undispersed", "component {i} changes by {} without dispersion, mean {}", x[i], mean[i]);
            }
        }
        let mut u = s.state;
        u.orbit = t.orbit;
        u.srp = t.srp;
        u.drag = t.drag;
        u.mass.prop_mass_kg = t.mass.prop_mass_kg;
        req!(u == t && s.state.epoch() == t.epoch() && s.state.orbit.frame == t.orbit.frame && s.state.srp.area_m2 == t.srp.area_m2 && s.state.drag.area_m2 == t.drag.area_m2, "other-data", "sampling changes {t} into {}", s.state);
        req!(s.actual_dispersions.len() == gen_.dispersions.len(), "actual", "{} dispersions reported", s.actual_dispersions.len());
        for (a, want) in s.actual_dispersions.iter().zip(&gen_.dispersions) {
            let delta = s.state.value(want.param).unwrap() - t.value(want.param).unwrap();
            req!(a.0 == want.param && wrap(a.1 - delta, want.param).abs() < 1e-9, "actual", "{} reported as {} and is {delta}", a.0, a.1);
        }
    }
    if idx.is_empty() {
        return Ok(Out::Trivial);
    }
    let m = idx.len();
    let corr = DMatrix::from_fn(m, m, |i, j| cov[(idx[i], idx[j])] / d[idx[i]] / d[idx[j]]);
    let eig = corr.symmetric_eigen();
    let keep: Vec<usize> = (0..m).filter(|k| eig.eigenvalues[*k] > 1e-7).collect();
    let zs: Vec<Vec<f64>> = samples
        .iter()
        .map(|s| {
            let x = x9(&s.state) - x9(&t) - mean;
            keep.iter()
                .map(|k| (0..m).map(|i| eig.eigenvectors[(i, *k)] * x[idx[i]] / d[idx[i]]).sum::<f64>() / eig.eigenvalues[*k].sqrt())
                .collect()
        })
        .collect();
    let nf = n as f64;
    if std::env::var("VERIF_DEBUG").is_ok() {
        for i in 0..9 {
            let var = samples.iter().map(|s| (x9(&s.state) - x9(&t) - mean)[i].powi(2)).sum::<f64>() / nf;
            eprintln!("component {i}: sample variance {var:e}, wanted {:e}", cov[(i, i)]);
        }
        eprintln!("eigenvalues {:?}", eig.eigenvalues);
    }
    for a in 0..keep.len() {
        let avg = zs.iter().map(|z| z[a]).sum::<f64>() / nf;
        req!(avg.abs() < 7.0 / nf.sqrt(), "mean", "principal component {a} has a mean of {avg} sigma over {n} samples");
        for b in 0..=a {
            let cv = zs.iter().map(|z| z[a] * z[b]).sum::<f64>() / nf;
            let (w, lim) = if a == b { (1.0, 7.0 * (2.0 / nf).sqrt()) } else { (0.0, 7.0 / nf.sqrt()) };
            req!((cv - w).abs() < lim, "covariance", "principal components {a} and {b} have a normalized covariance of {cv} over {n} samples");
        }
        // Shape: about 68 % within one sigma
        let within = zs.iter().filter(|z| z[a].abs() < 1.0).count() as f64 / nf;
        req!((within - 0.6827).abs() < 7.0 * (0.6827 * 0.3173 / nf).sqrt(), "shape", "{within} of the samples of principal component {a} within one sigma");
    }
    Ok(Out::Hit)
}

fn chk_elements(c: &Disp) -> R {
    let t = c.template();
    let params = c.params();
    if params.is_empty() {
        return Ok(Out::Discard);
    }
    if c.family == 4 {
        // The T axis is undefined for an asymptote toward the pole.
        let (s, ..) = crate::p_md::bref(t.orbit.radius_km, t.orbit.velocity_km_s, MU_EARTH);
        if s.cross(&Vector3::z()).norm() < 0.3 {
            return Ok(Out::Discard);
        }
    }
    let n = params.len();
    let mut ds: Vec<StateDispersion> = params
        .iter()
        .enumerate()
        .map(|(i, (p, sc))| StateDispersion { param: *p, mean: Some(c.mean[i] * sc), std_dev: Some(c.sig[i] * sc) })
        .collect();
    // Absent values are zero
    if c.order & 1 != 0 {
        ds[0].mean = None;
    }
    if c.order & 6 == 6 {
        ds[n - 1].std_dev = None;
    }
    // The parameters have to be independent for the request to be meaningful.
    let mut jac = DMatrix::from_fn(n, 9, |_, _| 0.0);
    let rs = [t.orbit.rmag_km(), t.orbit.vmag_km_s()];
    let mut scaled = jac.clone();
    for (i, (p, _)) in params.iter().enumerate() {
        let r = row(&t, *p);
        for k in 0..9 {
            jac[(i, k)] = r[k];
            scaled[(i, k)] = r[k] * if k < 3 { rs[0] } else if k < 6 { rs[1] } else { 1.0 };
        }
        let nr = scaled.row(i).norm();
        if nr == 0.0 {
            return Ok(Out::Discard);
        }
        for k in 0..9 {
            scaled[(i, k)] /= nr;
        }
    }
    let sv = scaled.clone().svd(false, false).singular_values;
    if sv.iter().fold(f64::MAX, |a, b| a.min(*b)) < 0.02 {
        return Ok(Out::Discard);
    }
    let g = if c.zero_mean { MvnSpacecraft::zero_mean(t, ds.clone()) } else { MvnSpacecraft::new(t, ds.clone()) };
    let g = match g {
        Ok(g) => g,
        Err(e) => return fail("error", format!("{e} for {:?}", params.iter().map(|p| p.0.to_string()).collect::<Vec<_>>())),
    };
    req!(g.template == t, "template", "another template");
    let cov = g.sqrt_s_v * g.sqrt_s_v.transpose();
    let covd = DMatrix::from_fn(9, 9, |i, j| cov[(i, j)]);
    let got = &jac * &covd * jac.transpose();
    let gm = &jac * DVector::from_fn(9, |i, _| g.mean[i]);
    for i in 0..n {
        let (pi, si) = (params[i].0, c.sig[i] * params[i].1);
        for j in 0..n {
            let sj = c.sig[j] * params[j].1;
            let want = if i == j { ds[i].std_dev.unwrap_or(0.0).powi(2) } else { 0.0 };
            req!(close(got[(i, j)], want, 0.0, 1e-2 * si * sj), "map-covariance", "covariance of {pi} and {} is {} instead of {want}", params[j].0, got[(i, j)]);
        }
        let wm = if c.zero_mean { 0.0 } else { ds[i].mean.unwrap_or(0.0) };
        req!(close(gm[i], wm, 0.0, 5e-3 * params[i].1), "map-mean", "mean of {pi} is {} instead of {wm}", gm[i]);
    }
    moments(&g, &cov, &g.mean.clone(), c.seed, 400)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cov {
    o: GenOrbit,
    /// Factor, row by row
    a: Vec<f64>,
    rank: usize,
    scale: [f64; 9],
    mean: [f64; 9],
    neg: u8,
    seed: u64,
}

fn covs() -> BoxedStrategy<Cov> {
    (
        leo_to_geo(),
        prop::collection::vec(-1.0..1.0f64, 81),
        1usize..=9,
        prop::array::uniform9(prop_oneof![6 => -1.0..1.0f64, 1 => Just(-99.0)]),
        prop::array::uniform9(-1.0..1.0f64),
        0u8..12,
        any::<u64>(),
    )
        .prop_map(|(o, a, rank, scale, mean, neg, seed)| Cov { o, a, rank, scale, mean, neg, seed })
        .boxed()
}

fn chk_cov(c: &Cov) -> R {
    let t = spacecraft(c.o.earth(), 500.0, 80.0, 2.0, 1.3, 1.5, 2.1);
    let unit = [1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-3, 0.1, 0.1, 1.0];
    let f = M9::from_fn(|i, j| {
        let s = if c.scale[i] < -50.0 { 0.0 } else { 10f64.powf(c.scale[i]) };
        if j < c.rank { c.a[i * 9 + j] * s * unit[i] } else { 0.0 }
    });
    let mut cov = f * f.transpose();
    let mean = V9::from_fn(|i, _| c.mean[i] * unit[i]);
    if c.neg == 0 {
        // Not a covariance
        let k = (c.seed % 9) as usize;
        let big = cov.diagonal().max();
        if c.seed & 256 == 0 && big > 0.0 {
            // Slightly: a small negative variance is not one
            cov[(k, k)] = -big * 10f64.powf(-0.5 - 5.0 * c.mean[0].abs());
        } else {
            cov[(k, k)] -= big * 2.0 + 1e-3;
        }
        req!(MvnSpacecraft::from_spacecraft_cov(t, cov, mean).is_err(), "indefinite", "accepted a matrix with a negative variance {}", cov[(k, k)]);
        return Ok(Out::Hit);
    }
    let g = match MvnSpacecraft::from_spacecraft_cov(t, cov, mean) {
        Ok(g) => g,
        Err(e) => return fail("rejected", format!("{e} for a covariance of rank {}", c.rank)),
    };
    req!(g.mean == mean && g.template == t, "mean", "{}", g.mean);
    let got = g.sqrt_s_v * g.sqrt_s_v.transpose();
    for i in 0..9 {
        for j in 0..9 {
            // Small variances have to be as precise as large ones.
            let tol = 1e-6 * (cov[(i, i)] * cov[(j, j)]).sqrt() + 1e-30;
            req!(close(got[(i, j)], cov[(i, j)], 0.0, tol), "root", "entry {i},{j} is {:e} instead of {:e}", got[(i, j)], cov[(i, j)]);
        }
        let sd = g.dispersions[i].std_dev.unwrap_or(f64::NAN);
        req!(close(sd, cov[(i, i)].sqrt(), 1e-12, 0.0), "sigma", "{} is said to have a deviation of {sd} instead of {}", g.dispersions[i].param, cov[(i, i)].sqrt());
    }
    moments(&g, &cov, &mean, c.seed, 400)
}

fn chk_unit(c: &u64) -> R {
    let mut rng = Pcg64Mcg::new(*c as u128);
    let n = 2000;
    let (mut m, mut q) = (Vector3::zeros(), nalgebra::Matrix3::zeros());
    for _ in 0..n {
        let u = nyx_space::mc::helpers::unit_vector_from_seed(&mut rng);
        req!((u.norm() - 1.0).abs() < 1e-12, "norm", "{}", u.norm());
        m += u / n as f64;
        q += u * u.transpose() / n as f64;
    }
    let nf = n as f64;
    for i in 0..3 {
        req!(m[i].abs() < 7.0 * (1.0 / 3.0 / nf).sqrt(), "mean", "{m:?}");
        for j in 0..3 {
            let w = if i == j { 1.0 / 3.0 } else { 0.0 };
            req!((q[(i, j)] - w).abs() < 7.0 * (0.1 / nf).sqrt(), "isotropy", "{q}");
        }
    }
    let _: Option<Orbit> = None;
    Ok(Out::Hit)
}

fn p14() -> Prop {
    Prop {
        id: "P14",
        assumptions: &[
            "The dispersed parameters are independent and away from their singularities; derivatives of the parameters are central differences of the parameters themselves.",
            "Moments of 400 samples are compared within seven standard errors.",
        ],
        subs: vec![
            sub("parameters", "a component is dispersed", 80_000, 1_000_000, disps, chk_elements),
            sub("covariance", "a component is dispersed, or the matrix is refused", 40_000, 1_000_000, covs, chk_cov),
            sub("unit-vectors", "always", 500, 10_000, || any::<u64>(), chk_unit),
        ],
    }
}
