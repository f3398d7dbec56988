//! P23 orbit determination solutions: selection, merge, statistics and files.
use crate::fw::*;
use crate::p_kf::{M9, V9, fill};
use crate::p_msr::{Site, TYPES};
use crate::pq;
use crate::req;
use crate::world::*;
use hifitime::Epoch;
use indexmap::IndexSet;
use nalgebra::{Const, SMatrix, SVector};
use nyx_space::io::ExportCfg;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::GroundStation;
use nyx_space::od::estimate::{Estimate, Residual};
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::prelude::KfEstimate;
use nyx_space::od::process::ODSolution;
use nyx_space::{Spacecraft, State};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub const PROPS: &[fn() -> Prop] = &[p23];

type Sol<const M: usize> = ODSolution<Spacecraft, KfEstimate<Spacecraft>, Const<M>, GroundStation>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Row {
    /// Seconds since the previous row
    dt: f64,
    /// None: a time update
    msr: Option<RowMsr>,
    smoothed: bool,
    seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RowMsr {
    trk: u8,
    /// Which of the types of the solution, in which order
    types: u8,
    rev: bool,
    rejected: bool,
    gain: bool,
}

/// A solution, as a table of rows.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct GenSol {
    o: GenOrbit,
    /// Start, in seconds since the epoch of the orbit
    start: f64,
    /// Measurement types of the solution: a bit field over the four of them
    types: u8,
    rows: Vec<Row>,
    /// How many times the rows are repeated
    rep: usize,
}

fn rows() -> BoxedStrategy<Row> {
    let msr = (0u8..3, 1u8..16, any::<bool>(), prop::bool::weighted(0.25), prop::bool::weighted(0.8)).prop_map(|(trk, types, rev, rejected, gain)| RowMsr { trk, types, rev, rejected, gain });
    (
        prop_oneof![1 => Just(0.0), 4 => (1u32..100).prop_map(|x| x as f64), 2 => 0.001..100.0f64],
        prop_oneof![1 => Just(None), 3 => msr.prop_map(Some)],
        prop::bool::weighted(0.3),
        any::<u64>(),
    )
        .prop_map(|(dt, msr, smoothed, seed)| Row { dt: rnd3(dt), msr, smoothed, seed })
        .boxed()
}

fn sols(max: usize) -> BoxedStrategy<GenSol> {
    (leo_to_geo(), prop_oneof![1 => Just(0.0), 2 => (0u32..400).prop_map(|x| x as f64), 1 => 0.0..400.0f64], 1u8..16, prop::collection::vec(rows(), 1..max))
        .prop_map(|(o, start, types, rows)| GenSol { o, start: rnd3(start), types, rows, rep: 1 })
        .boxed()
}

/// What a row of the model knows.
#[derive(Clone, Debug, PartialEq)]
struct Tag {
    id: f64,
    epoch: Epoch,
    trk: Option<String>,
    types: Vec<MeasurementType>,
    rejected: bool,
    gain: bool,
    fsr: bool,
}

fn trk_name(i: u8) -> String {
    // Each name starts with another one
    ["dss 1", "dss 14", "dss 143", "dss"][i as usize % 4].to_string()
}

fn devices() -> BTreeMap<String, GroundStation> {
    (0..3).map(|i| (trk_name(i), Site { moon: false, lat: 10.0 * i as f64, lon: 20.0, h: 0.1, mask: vec![], ignore_mask: false }.station(&trk_name(i)))).collect()
}

impl GenSol {
    fn types(&self) -> Vec<MeasurementType> {
        TYPES.iter().enumerate().filter(|(i, _)| self.types & (1 << i) != 0).map(|(_, t)| *t).collect()
    }
    fn devices(&self) -> BTreeMap<String, GroundStation> {
        let mut d = devices();
        d.remove(&trk_name(self.types % 4));
        d
    }
    /// Identifiers start after `base`.
    fn build<const M: usize>(&self, base: usize) -> (Sol<M>, Vec<Tag>) {
        let all = self.types();
        let mut sol = Sol::<M>::new(self.devices(), all.iter().copied().collect());
        let mut tags = vec![];
        let mut t = self.start;
        let (r0, v0) = self.o.rv(MU_EARTH);
        for (k, row) in (0..self.rep).flat_map(|_| self.rows.iter()).enumerate() {
            t += row.dt;
            let epoch = self.o.epoch() + secs(t);
            let id = (base + k + 1) as f64;
            let f = fill(row.seed ^ k as u64, 120);
            let (r, v) = kepler(r0, v0, MU_EARTH, t);
            let o = anise::prelude::Orbit::new(r.x + f[0], r.y + f[1], r.z + f[2], v.x + 1e-3 * f[3], v.y + 1e-3 * f[4], v.z + 1e-3 * f[5], epoch, eme2k());
            let sc = spacecraft(o, 400.0, 50.0 + f[6], 1.5, 1.2 + 0.1 * f[7], 2.5, 2.0 + 0.1 * f[8]);
            let a = M9::from_fn(|i, j| f[10 + i * 9 + j]);
            let s = [1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-3, 0.1, 0.1, 1.0];
            let u = a * a.transpose() / 9.0 + M9::identity() * 0.1;
            let mut p = M9::from_fn(|i, j| u[(i, j)] * s[i] * s[j]);
            p[(0, 0)] += id;
            let mut est = KfEstimate::from_covar(sc, (p + p.transpose()) * 0.5);
            est.state_deviation = V9::from_fn(|i, _| 0.01 * s[i] * f[92 + i]);
            est.state_deviation[6] = 0.0;
            est.predicted = row.msr.is_none();
            let mut tag = Tag { id, epoch, trk: None, types: vec![], rejected: false, gain: false, fsr: row.smoothed };
            let mut res = None;
            let mut gain = None;
            if let Some(m) = &row.msr {
                let mut ty: Vec<_> = all.iter().enumerate().filter(|(i, _)| m.types & (1 << i) != 0).map(|(_, t)| *t).take(M).collect();
                if ty.is_empty() {
                    ty.push(all[0]);
                }
                if m.rev {
                    ty.reverse();
                }
                let vec = |j: usize| SVector::<f64, M>::from_fn(|i, _| if i < ty.len() { f[100 + (j * 4 + i) % 20] * (1.0 + j as f64) } else { 0.0 });
                let mut x = if m.rejected {
                    Residual::<Const<M>>::rejected(epoch, vec(0), vec(1), id, vec(3), vec(4), vec(5))
                } else {
                    Residual::<Const<M>>::accepted(epoch, vec(0), vec(1), vec(2), id, vec(3), vec(4), vec(5))
                };
                x.tracker = Some(trk_name(m.trk));
                x.msr_types = ty.iter().copied().collect();
                tag.trk = x.tracker.clone();
                tag.types = ty;
                tag.rejected = m.rejected;
                res = Some(x);
                if m.gain && !m.rejected {
                    tag.gain = true;
                    gain = Some(SMatrix::<f64, 9, M>::from_fn(|i, j| if i + j == 0 { id } else { f[(i * M + j + 40) % 110] }));
                }
            }
            sol.estimates.push(est);
            sol.residuals.push(res);
            sol.gains.push(gain);
            sol.filter_smoother_ratios.push(if row.smoothed { Some(V9::from_fn(|i, _| if i == 0 { id } else { f[20 + i] })) } else { None });
            tags.push(tag);
        }
        (sol, tags)
    }
}

fn read_tags<const M: usize>(s: &Sol<M>, known: &BTreeMap<u64, Tag>) -> Result<Vec<Tag>, Fail> {
    let n = s.estimates.len();
    req!(s.residuals.len() == n && s.gains.len() == n && s.filter_smoother_ratios.len() == n, "lengths", "{n} estimates, {} residuals, {} gains, {} ratios", s.residuals.len(), s.gains.len(), s.filter_smoother_ratios.len());
    let mut v = vec![];
    for i in 0..n {
        let e = &s.estimates[i];
        let id = e.covar[(0, 0)].floor();
        let Some(t) = known.get(&(id as u64)) else { return fail("unknown-row", format!("row {i}: {id}")) };
        let got = match &s.residuals[i] {
            None => (None, vec![], false, id),
            Some(r) => (r.tracker.clone(), r.msr_types.iter().copied().collect(), r.rejected, r.ratio),
        };
        req!(e.nominal_state.epoch() == t.epoch, "row-epoch", "row {i}: estimate of {} at {}", t.epoch, e.nominal_state.epoch());
        req!(got == (t.trk.clone(), t.types.clone(), t.rejected, id), "row-residual", "row {i}: residual {got:?} next to the estimate of {t:?}");
        let g = s.gains[i].as_ref().map(|g| g[(0, 0)]);
        req!(g == t.gain.then_some(id), "row-gain", "row {i}: gain {g:?} next to the estimate of {t:?}");
        let f = s.filter_smoother_ratios[i].as_ref().map(|g| g[0]);
        req!(f == t.fsr.then_some(id), "row-ratio", "row {i}: ratio {f:?} next to the estimate of {t:?}");
        v.push(t.clone());
    }
    Ok(v)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    DropTime,
    ByType(u8),
    ByTracker(u8),
    Exclude(u8),
    Split(u8),
    Merge(GenSol),
    At(u8, i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpsCase {
    m: usize,
    s: GenSol,
    ops: Vec<Op>,
}

fn ops_cases() -> BoxedStrategy<OpsCase> {
    let op = prop_oneof![
        1 => Just(Op::DropTime),
        1 => (0u8..4).prop_map(Op::ByType),
        1 => (0u8..4).prop_map(Op::ByTracker),
        1 => (0u8..4).prop_map(Op::Exclude),
        1 => any::<u8>().prop_map(Op::Split),
        3 => sols(8).prop_map(Op::Merge),
        2 => (any::<u8>(), -2i64..3).prop_map(|(a, b)| Op::At(a, b)),
    ];
    (1usize..4, sols(12), prop::collection::vec(op, 1..6)).prop_map(|(m, s, ops)| OpsCase { m, s, ops }).boxed()
}

fn chk_ops(c: &OpsCase) -> R {
    match c.m {
        1 => chk_ops_m::<1>(c),
        2 => chk_ops_m::<2>(c),
        _ => chk_ops_m::<3>(c),
    }
}

fn chk_ops_m<const M: usize>(c: &OpsCase) -> R {
    let (mut s, mut model) = c.s.build::<M>(0);
    let mut known: BTreeMap<u64, Tag> = model.iter().map(|t| (t.id as u64, t.clone())).collect();
    let mut base = model.len();
    let mut types: BTreeSet<u8> = c.s.types().iter().map(|t| *t as u8).collect();
    let mut devs = c.s.devices();
    let mut hit = false;
    for (k, op) in c.ops.iter().enumerate() {
        let before = model.len();
        match op {
            Op::DropTime => {
                s = s.drop_time_updates();
                model.retain(|t| t.trk.is_some());
            }
            Op::ByType(i) => {
                let ty = TYPES[*i as usize];
                s = s.filter_by_msr_type(ty);
                model.retain(|t| t.types.contains(&ty));
            }
            Op::ByTracker(i) => {
                s = s.filter_by_tracker(trk_name(*i));
                model.retain(|t| t.trk == Some(trk_name(*i)));
            }
            Op::Exclude(i) => {
                s = s.exclude_tracker(trk_name(*i));
                model.retain(|t| t.trk != Some(trk_name(*i)));
            }
            Op::Split(i) => {
                let mut pairs: Vec<(String, MeasurementType)> = vec![];
                for t in &model {
                    for ty in &t.types {
                        let p = (t.trk.clone().unwrap(), *ty);
                        if !pairs.contains(&p) {
                            pairs.push(p);
                        }
                    }
                }
                let u = s.unique();
                req!(u.len() == pairs.len() && pairs.iter().all(|p| u.contains(p)), "unique", "op {k}: {u:?} instead of {pairs:?}");
                let parts = s.clone().split();
                req!(parts.len() == pairs.len(), "split-count", "op {k}: {} parts instead of {}", parts.len(), pairs.len());
                let mut left = pairs.clone();
                for p in &parts {
                    let got = read_tags(p, &known)?;
                    let Some(j) = left.iter().position(|(trk, ty)| {
                        got == model.iter().filter(|t| t.trk.as_ref() == Some(trk) && t.types.contains(ty)).cloned().collect::<Vec<_>>()
                    }) else {
                        return fail("split", format!("op {k}: a part with {got:?} is none of {left:?}"));
                    };
                    left.remove(j);
                }
                hit |= parts.len() > 1;
                if !parts.is_empty() {
                    s = parts[*i as usize % parts.len()].clone();
                    model = read_tags(&s, &known)?;
                }
            }
            Op::Merge(o) => {
                let mut o = o.clone();
                // Overlap in time
                o.o.t0_s = c.s.o.t0_s;
                let (other, tags) = o.build::<M>(base);
                base += tags.len();
                known.extend(tags.iter().map(|t| (t.id as u64, t.clone())));
                types.extend(o.types().iter().map(|t| *t as u8));
                devs.extend(o.devices());
                s = s.merge(other);
                model.extend(tags);
                model.sort_by_key(|t| t.epoch);
                hit = true;
            }
            Op::At(i, off) => {
                if model.is_empty() {
                    continue;
                }
                let e = model[*i as usize % model.len()].epoch + *off * hifitime::Unit::Nanosecond;
                let there = model.iter().any(|t| t.epoch == e);
                match s.at(e) {
                    None => req!(!there, "at-none", "op {k}: nothing at {e}"),
                    Some(r) => {
                        req!(there, "at-some", "op {k}: {} instead of nothing at {e}", r.estimate.epoch());
                        let mut one = Sol::<M>::new(BTreeMap::new(), IndexSet::new());
                        one.estimates.push(r.estimate);
                        one.residuals.push(r.residual);
                        one.gains.push(r.gain);
                        one.filter_smoother_ratios.push(r.filter_smoother_ratio);
                        let t = read_tags(&one, &known)?;
                        req!(t[0].epoch == e, "at-epoch", "op {k}: {} instead of {e}", t[0].epoch);
                    }
                }
            }
        }
        let got = read_tags(&s, &known)?;
        req!(got == model, "rows", "op {k} {op:?}: {:?} instead of {:?}", got.iter().map(|t| t.id).collect::<Vec<_>>(), model.iter().map(|t| t.id).collect::<Vec<_>>());
        hit |= !model.is_empty() && model.len() < before;
    }
    let got: BTreeSet<u8> = s.measurement_types.iter().map(|t| *t as u8).collect();
    req!(got == types, "types", "types {:?} of a solution of {types:?}", s.measurement_types);
    req!(s.devices == devs, "devices", "devices {:?} instead of {:?}", s.devices.keys(), devs.keys());
    // What is read of it
    let acc: Vec<f64> = s.accepted_residuals().iter().map(|r| r.ratio).collect();
    let rej: Vec<f64> = s.rejected_residuals().iter().map(|r| r.ratio).collect();
    let want = |r: bool| model.iter().filter(|t| t.trk.is_some() && t.rejected == r).map(|t| t.id).collect::<Vec<_>>();
    req!(acc == want(false) && rej == want(true), "accepted", "accepted {acc:?}, rejected {rej:?}");
    req!(s.is_filter_run() == model.iter().any(|t| t.gain), "is-filter", "filter run {}", s.is_filter_run());
    req!(s.is_smoother_run() == model.iter().any(|t| t.fsr), "is-smoother", "smoother run {}", s.is_smoother_run());
    req!(s.results().count() == model.len(), "results", "{} results", s.results().count());
    let mut epochs: Vec<Epoch> = model.iter().map(|t| t.epoch).collect();
    epochs.dedup();
    match s.to_traj() {
        Err(_) => req!(model.is_empty(), "traj-error", "no trajectory"),
        Ok(t) => {
            req!(t.states.iter().map(|x| x.epoch()).collect::<Vec<_>>() == epochs, "traj-epochs", "{} states", t.states.len());
            for x in &t.states {
                req!(s.estimates.iter().any(|e| e.epoch() == x.epoch() && e.state().orbit == x.orbit), "traj-state", "state at {} is not estimated", x.epoch());
            }
        }
    }
    let eph = s.to_ephemeris("me".to_string());
    let mut n = 0;
    for r in eph.into_iter() {
        n += 1;
        let Some(cv) = r.covar else { return fail("ephemeris-covariance", "no covariance".to_string()) };
        req!(
            s.estimates.iter().any(|e| e.epoch() == r.orbit.epoch && e.state().orbit == r.orbit && (0..6).all(|i| (0..6).all(|j| e.covar[(i, j)] == cv.matrix[(i, j)]))),
            "ephemeris", "record at {} is not estimated", r.orbit.epoch
        );
    }
    req!(n == epochs.len(), "ephemeris-count", "{n} records");
    Ok(if hit { Out::Hit } else { Out::Trivial })
}

// ---------------------------------------------------------------------------------------------
// Statistics
// ---------------------------------------------------------------------------------------------

/// Regularised lower incomplete gamma function.
fn gammp(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    let lg = ln_gamma(a);
    if x < a + 1.0 {
        let (mut s, mut d, mut n) = (1.0 / a, 1.0 / a, a);
        for _ in 0..5000 {
            n += 1.0;
            d *= x / n;
            s += d;
            if d < s * 1e-16 {
                break;
            }
        }
        s * (-x + a * x.ln() - lg).exp()
    } else {
        let mut b = x + 1.0 - a;
        let mut c = 1e300;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..5000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = 1.0 / (an * d + b);
            c = b + an / c;
            h *= d * c;
            if (d * c - 1.0).abs() < 1e-15 {
                break;
            }
        }
        1.0 - (-x + a * x.ln() - lg).exp() * h
    }
}

fn ln_gamma(x: f64) -> f64 {
    // Stirling's series after a shift
    let (mut x, mut s) = (x, 0.0);
    while x < 15.0 {
        s -= x.ln();
        x += 1.0;
    }
    let i = 1.0 / (x * x);
    s + (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + (1.0 / 12.0 - i * (1.0 / 360.0 - i * (1.0 / 1260.0 - i / 1680.0))) / x
}

fn norm_cdf(z: f64) -> f64 {
    let p = 0.5 * gammp(0.5, z * z / 2.0);
    if z < 0.0 { 0.5 - p } else { 0.5 + p }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StatCase {
    m: usize,
    s: GenSol,
    thr: f64,
    alpha: Option<f64>,
    /// Variances of the parameters which are not part of the orbit: how many
    extra: usize,
    /// Size of the errors in sigmas
    err: f64,
    seed: u64,
}

fn stat_cases() -> BoxedStrategy<StatCase> {
    (1usize..4, sols(40), 0.0..45.0f64, prop_oneof![1 => Just(None), 2 => (0.005..0.5f64).prop_map(Some)], 0usize..4, 0.1..3.0f64, any::<u64>())
        .prop_map(|(m, s, thr, alpha, extra, err, seed)| StatCase { m, s, thr, alpha, extra, err, seed })
        .boxed()
}

fn chk_stat(c: &StatCase) -> R {
    match c.m {
        1 => chk_stat_m::<1>(c),
        2 => chk_stat_m::<2>(c),
        _ => chk_stat_m::<3>(c),
    }
}

fn chk_bounds(what: &str, n: &nyx_space::od::process::NormalizedConsistency, k: f64, sum: f64, alpha: f64) -> Result<(), Fail> {
    req!(n.k == k, "dof", "{what}: {} degrees of freedom instead of {k}", n.k);
    req!(close(n.normalized_sum, sum, 1e-6, 1e-12), "sum", "{what}: {} instead of {sum}", n.normalized_sum);
    if k >= 6.0 {
        for (x, p) in [(n.lower_bound, alpha / 2.0), (n.upper_bound, 1.0 - alpha / 2.0)] {
            let q = gammp(k / 2.0, x / 2.0);
            req!((q - p).abs() < 4e-3, "bounds", "{what}: {x} has a probability of {q} instead of {p} with {k} degrees of freedom");
        }
    }
    req!(n.is_consistent() == (n.normalized_sum < n.upper_bound && n.normalized_sum > n.lower_bound), "consistent", "{what}: {n}");
    req!(n.is_overconfident() == (n.normalized_sum > n.upper_bound) && n.is_underconfident() == (n.normalized_sum < n.lower_bound), "confidence", "{what}: {n}");
    Ok(())
}

fn chk_stat_m<const M: usize>(c: &StatCase) -> R {
    let (mut s, _) = c.s.build::<M>(0);
    let alpha = c.alpha.unwrap_or(0.05);
    let res: Vec<Residual<Const<M>>> = s.residuals.iter().flatten().cloned().collect();
    let acc: Vec<&Residual<Const<M>>> = res.iter().filter(|r| !r.rejected).collect();
    // RMS of what there is
    if !res.is_empty() {
        let n = res.len() as f64;
        let rms = |f: &dyn Fn(&Residual<Const<M>>) -> f64| (res.iter().map(f).sum::<f64>() / n).sqrt();
        let w = rms(&|r| r.prefit.iter().map(|x| x * x).sum());
        req!(close(s.rms_prefit_residuals(), w, 1e-12, 0.0), "rms-prefit", "{} instead of {w}", s.rms_prefit_residuals());
        let w = rms(&|r| r.ratio * r.ratio);
        req!(close(s.rms_residual_ratios(), w, 1e-12, 0.0), "rms-ratio", "{} instead of {w}", s.rms_residual_ratios());
        let within = res.iter().filter(|r| r.ratio <= c.thr).count() as f64 / n;
        match s.residual_ratio_within_threshold(c.thr) {
            Ok(x) => req!(x == within, "within", "{x} instead of {within}"),
            Err(e) => return fail("within-error", format!("{e}")),
        }
    } else {
        req!(s.residual_ratio_within_threshold(c.thr).is_err(), "within-empty", "a ratio of no residuals");
    }
    if !acc.is_empty() {
        let w = (acc.iter().map(|r| r.postfit.norm_squared()).sum::<f64>() / acc.len() as f64).sqrt();
        req!(close(s.rms_postfit_residuals(), w, 1e-12, 0.0), "rms-postfit", "{} instead of {w}", s.rms_postfit_residuals());
        match s.nis_consistency(c.alpha) {
            Ok(n) => chk_bounds("NIS", &n, (acc.len() * M) as f64, acc.iter().map(|r| r.whitened_resid.norm_squared()).sum(), alpha)?,
            Err(e) => return fail("nis-error", format!("{e}")),
        }
    } else {
        req!(s.nis_consistency(c.alpha).is_err() && s.ks_test_normality().is_err() && s.is_normal(c.alpha).is_err(), "nis-empty", "a test of no residuals");
    }
    // Kolmogorov-Smirnov distance to the normal distribution of the same mean and deviation
    let mut w: Vec<f64> = acc.iter().flat_map(|r| r.whitened_resid.iter().copied()).collect();
    w.sort_by(f64::total_cmp);
    let n = w.len() as f64;
    let mean = w.iter().sum::<f64>() / n;
    let sd = (w.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / n).sqrt();
    if w.len() > 1 && sd > 1e-6 {
        let mut d: f64 = 0.0;
        for (i, x) in w.iter().enumerate() {
            let f = norm_cdf((x - mean) / sd);
            d = d.max((f - i as f64 / n).abs()).max(((i + 1) as f64 / n - f).abs());
        }
        match s.ks_test_normality() {
            Ok(x) => req!(close(x, d, 1e-7, 1e-7), "ks", "{x} instead of {d}"),
            Err(e) => return fail("ks-error", format!("{e}")),
        }
        let crit = (-(alpha * 0.5).ln() * 0.5).sqrt() / n.sqrt();
        if (d - crit).abs() > 1e-6 {
            match s.is_normal(c.alpha) {
                Ok(x) => req!(x == (d <= crit), "normal", "normal: {x}, distance {d} of {} samples, critical {crit}", w.len()),
                Err(e) => return fail("normal-error", format!("{e}")),
            }
        }
    } else {
        let _ = s.ks_test_normality();
        let _ = s.is_normal(c.alpha);
    }
    // Errors with respect to a truth
    let k0 = 6 + c.extra;
    let f = fill(c.seed, 9 * s.estimates.len());
    let mut want = 0.0;
    let mut truth = vec![];
    for (i, e) in s.estimates.iter_mut().enumerate() {
        e.covar[(0, 0)] -= (i + 1) as f64;
        for a in 0..9 {
            for b in k0..9 {
                e.covar[(a, b)] = 0.0;
                e.covar[(b, a)] = 0.0;
            }
        }
        let d = SVector::<f64, 9>::from_fn(|a, _| c.err * f[9 * i + a] * if a < k0 { e.covar[(a, a)].sqrt() } else { 0.0 });
        let mut x = e.state();
        x.orbit.radius_km -= nalgebra::Vector3::new(d[0], d[1], d[2]);
        x.orbit.velocity_km_s -= nalgebra::Vector3::new(d[3], d[4], d[5]);
        x.srp.coeff_reflectivity -= d[6];
        x.drag.coeff_drag -= d[7];
        x.mass.prop_mass_kg -= d[8];
        truth.push(x);
    }
    // One estimate per epoch
    if truth.windows(2).any(|w| w[0].epoch() == w[1].epoch()) {
        return Ok(if acc.len() > 1 { Out::Hit } else { Out::Trivial });
    }
    for (e, x) in s.estimates.iter().zip(&truth).skip(1) {
        let d = e.state().to_state_vector() - x.to_state_vector();
        let p = e.covar.view((0, 0), (k0, k0)).into_owned();
        let sc: Vec<f64> = (0..k0).map(|a| p[(a, a)].sqrt()).collect();
        let u = nalgebra::DMatrix::from_fn(k0, k0, |a, b| p[(a, b)] / (sc[a] * sc[b]));
        let y = nalgebra::DVector::from_fn(k0, |a, _| d[a] / sc[a]);
        want += (y.transpose() * u.try_inverse().unwrap() * y)[(0, 0)];
    }
    let n = truth.len();
    let traj = Traj { states: truth, name: None };
    match s.nees_consistency(&traj, c.alpha) {
        Err(e) => req!(n < 2, "nees-error", "{e}"),
        Ok(x) => {
            req!(n > 1, "nees-empty", "NEES of {n} estimates");
            chk_bounds("NEES", &x, ((n - 1) * k0) as f64, want, alpha)?;
        }
    }
    Ok(if acc.len() > 1 || n > 1 { Out::Hit } else { Out::Trivial })
}

// ---------------------------------------------------------------------------------------------
// Files
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    m: usize,
    s: GenSol,
    /// Export between these rows, moved by some microseconds
    from: Option<(u16, i8)>,
    to: Option<(u16, i8)>,
    cut: f64,
}

fn file_cases() -> BoxedStrategy<FileCase> {
    let b = || prop_oneof![2 => Just(None), 1 => (any::<u16>(), -1i8..2).prop_map(Some)];
    (1usize..5, sols(14), b(), b(), prop_oneof![60 => Just(1usize), 1 => 90usize..200], 0.0..0.999f64)
        .prop_map(|(m, mut s, from, to, rep, cut)| {
            s.rep = rep;
            if let Some(r) = s.rows.first_mut() {
                r.dt = r.dt.max(0.001);
            }
            FileCase { m, s, from, to, cut }
        })
        .boxed()
}

fn chk_file(c: &FileCase) -> R {
    match c.m {
        1 => chk_file_m::<1>(c),
        2 => chk_file_m::<2>(c),
        3 => chk_file_m::<3>(c),
        _ => chk_file_m::<4>(c),
    }
}

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn chk_file_m<const M: usize>(c: &FileCase) -> R {
    let (s, tags) = c.s.build::<M>(0);
    let bound = |x: &Option<(u16, i8)>| x.map(|(i, us)| tags[i as usize % tags.len()].epoch + us as i64 * hifitime::Unit::Microsecond);
    let (from, to) = (bound(&c.from), bound(&c.to));
    let keep: Vec<usize> = (0..tags.len()).filter(|i| from.is_none_or(|f| tags[*i].epoch >= f) && to.is_none_or(|t| tags[*i].epoch <= t)).collect();
    let path = scratch_file("parquet");
    let cfg = ExportCfg { start_epoch: from, end_epoch: to, ..Default::default() };
    if let Err(e) = s.to_parquet(&path, cfg) {
        return fail("export-error", format!("{e}"));
    }
    // The file as others read it
    let tab = match pq::read(&path) {
        Ok(t) => t,
        Err(e) => return fail("read-error", e),
    };
    if tab.rows != keep.len() {
        return fail("file-rows", format!("{} rows instead of {}", tab.rows, keep.len()));
    }
    let col = |pre: &str, i: usize| tab.num.iter().find(|(k, _)| k.starts_with(pre)).and_then(|(_, v)| v[i]);
    for (row, &i) in keep.iter().enumerate().take(20) {
        let e = &s.estimates[i];
        let x = e.state();
        let v = x.to_state_vector();
        for (j, nm) in ["X (km)", "Y (km)", "Z (km)", "VX (km/s)", "VY (km/s)", "VZ (km/s)"].iter().enumerate() {
            let g = col(nm, row);
            req!(g == Some(v[j]), "file-state", "{nm} is {g:?} instead of {}", v[j]);
        }
        // Uncertainties in the frame of the orbit, and in its local frame
        let (r, vv) = (x.orbit.radius_km, x.orbit.velocity_km_s);
        let frame = |r: nalgebra::Vector3<f64>, v: nalgebra::Vector3<f64>| {
            let rh = r.normalize();
            let ch = r.cross(&v).normalize();
            nalgebra::Matrix3::from_columns(&[rh, ch.cross(&rh), ch])
        };
        let b = frame(r, vv);
        let h = 0.01;
        let (ra, va) = kepler(r, vv, MU_EARTH, -h);
        let (rb, vb) = kepler(r, vv, MU_EARTH, h);
        let bd = (frame(rb, vb) - frame(ra, va)) / (2.0 * h);
        let mut d = SMatrix::<f64, 6, 6>::zeros();
        d.fixed_view_mut::<3, 3>(0, 0).copy_from(&b.transpose());
        d.fixed_view_mut::<3, 3>(3, 3).copy_from(&b.transpose());
        d.fixed_view_mut::<3, 3>(3, 0).copy_from(&bd.transpose());
        let ric = d * e.covar.fixed_view::<6, 6>(0, 0) * d.transpose();
        for (j, nm) in ["X", "Y", "Z", "Vx", "Vy", "Vz"].iter().enumerate() {
            let g = col(&format!("Sigma {nm} (RIC)"), row).unwrap_or(f64::NAN);
            let w = ric[(j, j)].sqrt();
            req!(close(g, w, if j < 3 { 1e-9 } else { 1e-5 }, 0.0), "file-ric", "sigma {nm} in RIC is {g} instead of {w}");
            let g = tab.num.iter().find(|(k, _)| k.starts_with(&format!("Sigma {nm} (")) && !k.contains("RIC")).and_then(|(_, v)| v[row]).unwrap_or(f64::NAN);
            req!(close(g, e.covar[(j, j)].sqrt(), 1e-12, 0.0), "file-sigma", "sigma {nm} is {g}");
        }
    }
    // And as read back
    let back = match Sol::<M>::from_parquet(&path, devices()) {
        Ok(b) => b,
        Err(e) => return fail("import-error", format!("{e}")),
    };
    // Cut short, it is refused
    let bytes = std::fs::read(&path).unwrap();
    let _ = std::fs::write(&path, &bytes[..(bytes.len() as f64 * c.cut) as usize]);
    let bad = guarded(|| Sol::<M>::from_parquet(&path, devices()).is_err());
    let _ = std::fs::remove_file(&path);
    req!(bad == Ok(true), "truncated", "a truncated file of {} bytes: {bad:?}", bytes.len());
    let n = back.estimates.len();
    req!(n == keep.len() && back.residuals.len() == n && back.gains.len() == n && back.filter_smoother_ratios.len() == n, "rows", "{n} rows instead of {}", keep.len());
    req!(back.measurement_types == s.measurement_types, "types", "{:?} instead of {:?}", back.measurement_types, s.measurement_types);
    for (row, &i) in keep.iter().enumerate() {
        let (a, b) = (&s.estimates[i], &back.estimates[row]);
        let (x, y) = (a.state(), b.state());
        req!((x.epoch() - y.epoch()).abs() <= 1 * hifitime::Unit::Microsecond, "epoch", "row {row}: {} instead of {}", y.epoch(), x.epoch());
        let (u, v) = (x.to_state_vector(), y.to_state_vector());
        for j in 0..9 {
            req!(u[j] == v[j], "state", "row {row}: component {j} is {} instead of {}", v[j], u[j]);
        }
        req!(x.orbit.frame == y.orbit.frame, "frame", "row {row}: {}", y.orbit.frame);
        req!(x.mass.dry_mass_kg == y.mass.dry_mass_kg && x.srp.area_m2 == y.srp.area_m2 && x.drag.area_m2 == y.drag.area_m2, "spacecraft", "row {row}: {y}");
        req!(a.covar == b.covar, "covariance", "row {row}: {} instead of {}", b.covar, a.covar);
        match (&s.residuals[i], &back.residuals[row]) {
            (None, None) => {}
            (Some(p), Some(q)) => {
                req!(p.tracker == q.tracker && p.ratio == q.ratio && p.rejected == q.rejected, "residual", "row {row}: {q} instead of {p}");
                req!((p.epoch - q.epoch).abs() <= 1 * hifitime::Unit::Microsecond, "residual-epoch", "row {row}: {}", q.epoch);
                req!(p.msr_types.len() == q.msr_types.len() && p.msr_types.iter().all(|t| q.msr_types.contains(t)), "residual-types", "row {row}: {:?} instead of {:?}", q.msr_types, p.msr_types);
                let order: Vec<_> = s.measurement_types.iter().filter(|t| q.msr_types.contains(*t)).collect();
                req!(q.msr_types.iter().collect::<Vec<_>>() == order, "residual-order", "row {row}: {:?} in a solution of {:?}", q.msr_types, s.measurement_types);
                for t in p.msr_types.iter().copied() {
                    for (nm, u, v) in [
                        ("prefit", p.prefit(t), q.prefit(t)),
                        ("postfit", p.postfit(t), q.postfit(t)),
                        ("noise", p.trk_noise(t), q.trk_noise(t)),
                        ("observed", p.real_obs(t), q.real_obs(t)),
                        ("computed", p.computed_obs(t), q.computed_obs(t)),
                    ] {
                        let (u, v) = (u.unwrap(), v.unwrap_or(f64::INFINITY));
                        req!(same(u, v), "residual-value", "row {row}: {nm} of {t:?} is {v} instead of {u}");
                    }
                }
                for j in 0..M {
                    req!(same(p.whitened_resid[j], q.whitened_resid[j]), "whitened", "row {row}: whitened residual {j} is {} instead of {}", q.whitened_resid[j], p.whitened_resid[j]);
                }
            }
            (p, q) => return fail("residual-presence", format!("row {row}: {q:?} instead of {p:?}")),
        }
        req!(s.gains[i] == back.gains[row], "gain", "row {row}: {:?} instead of {:?}", back.gains[row], s.gains[i]);
        req!(s.filter_smoother_ratios[i] == back.filter_smoother_ratios[row], "ratio", "row {row}: {:?} instead of {:?}", back.filter_smoother_ratios[row], s.filter_smoother_ratios[i]);
    }
    Ok(if n > 1 && n > 0 && s.residuals.iter().flatten().count() > 0 { Out::Hit } else { Out::Trivial })
}

/// Two solutions are equal when they hold the same, and only then.
fn chk_eq(c: &(GenSol, u8, u8)) -> R {
    let (g, what, at) = c;
    let (a, _) = g.build::<2>(0);
    let (mut b, _) = g.build::<2>(0);
    req!(a == b, "equal", "two identical solutions differ");
    let i = *at as usize % a.estimates.len();
    let changed = match what {
        0 => { b.estimates[i].covar[(1, 1)] += 1e-3; true }
        1 => { b.estimates[i].nominal_state.orbit.radius_km.y += 1e-3; true }
        2 => b.residuals[i].take().is_some(),
        3 => b.gains[i].take().is_some(),
        4 => b.filter_smoother_ratios[i].take().is_some(),
        5 => match &mut b.residuals[i] { Some(r) => { r.ratio += 1e-2; true } None => false },
        6 => match &mut b.gains[i] { Some(r) => { r[(8, 0)] += 1e-3; true } None => false },
        7 => match &mut b.filter_smoother_ratios[i] { Some(r) => { r[8] -= 1e-3; true } None => false },
        8 => { let t = b.measurement_types[0]; b.measurement_types.shift_remove(&t) }
        9 => { b.devices.pop_last().is_some() }
        _ => { b.estimates.pop(); b.residuals.pop(); b.gains.pop(); b.filter_smoother_ratios.pop(); true }
    };
    if !changed {
        return Ok(Out::Trivial);
    }
    req!(a != b && b != a, "differ", "solutions that differ by change {what} of row {i} are equal: {} and {}", a == b, b == a);
    Ok(Out::Hit)
}

fn p23() -> Prop {
    Prop {
        id: "P23",
        assumptions: &[
            "solutions in chronological order, residuals with a tracker",
            "the epochs of the files are to the microsecond; the deviation, the predicted covariance, the STM and the prediction flag are not stored (documented in the code)",
            "chi-square bounds are approximations: probabilities within 0.004 with six degrees of freedom or more",
        ],
        subs: vec![
            sub("ops", "a merge, a split into several parts, or a selection of some of the rows", 60_000, 1_000_000, ops_cases, chk_ops),
            sub("equality", "one thing changed", 30_000, 500_000, || (sols(6), 0u8..11, any::<u8>()), chk_eq),
            sub("stats", "at least two accepted residuals or two estimates", 60_000, 1_000_000, stat_cases, chk_stat),
            sub("file", "at least two rows with a residual", 5_000, 100_000, file_cases, chk_file),
        ],
    }
}
