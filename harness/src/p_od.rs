//! P21 orbit determination process, P22 smoother and batch least squares.
use crate::fw::*;
use crate::p_kf::{M9, V9, fill};
use crate::p_msr::{Site, TYPES};
use crate::req;
use crate::world::*;
use anise::prelude::Orbit;
use hifitime::{Epoch, Unit};
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Const, DMatrix, DVector, SMatrix};
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::od::GroundStation;
use nyx_space::od::blse::{BLSSolver, BatchLeastSquares};
use nyx_space::od::estimate::Estimate;
use nyx_space::od::kalman::KalmanVariant;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, WhiteNoise};
use nyx_space::od::prelude::KfEstimate;
use nyx_space::od::process::{KalmanODProcess, ODSolution, SigmaRejection};
use nyx_space::od::snc::ProcessNoise3D;
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::{Spacecraft, State};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const PROPS: &[fn() -> Prop] = &[p21, p22];

type V6 = nalgebra::Vector6<f64>;
type M6 = SMatrix<f64, 6, 6>;

// ---------------------------------------------------------------------------------------------
// The reference: two-body motion, its transition matrix, and what a station sees
// ---------------------------------------------------------------------------------------------

fn flow(x: &V6, dt: f64) -> V6 {
    let (r, v) = kepler(x.fixed_rows::<3>(0).into(), x.fixed_rows::<3>(3).into(), MU_EARTH, dt);
    V6::new(r.x, r.y, r.z, v.x, v.y, v.z)
}

/// Transition matrix by fourth order differences of the analytic motion.
fn trans(x: &V6, dt: f64) -> M6 {
    if dt == 0.0 {
        return M6::identity();
    }
    let mut m = M6::zeros();
    for j in 0..6 {
        let h = if j < 3 { 2.0 } else { 2e-3 };
        let at = |k: f64| {
            let mut y = *x;
            y[j] += k * h;
            flow(&y, dt)
        };
        let c = (at(-2.0) - at(2.0) + (at(1.0) - at(-1.0)) * 8.0) / (12.0 * h);
        m.set_column(j, &c);
    }
    m
}

fn orbit_of(x: &V6, e: Epoch) -> Orbit {
    Orbit::new(x[0], x[1], x[2], x[3], x[4], x[5], e, eme2k())
}

fn wrap(a: f64) -> f64 {
    (a + 180.0).rem_euclid(360.0) - 180.0
}

fn obs(s: &Site, x: &V6, e: Epoch, t: MeasurementType) -> f64 {
    s.aer(&orbit_of(x, e)).get(t)
}

fn partials(s: &Site, x: &V6, e: Epoch, t: MeasurementType) -> [f64; 6] {
    let mut out = [0.0; 6];
    for j in 0..6 {
        let h = if j < 3 { 0.5 } else { 5e-3 };
        let at = |k: f64| {
            let mut y = *x;
            y[j] += k * h;
            obs(s, &y, e, t)
        };
        let d = |a: f64, b: f64| if t == MeasurementType::Azimuth { wrap(a - b) } else { a - b };
        out[j] = (8.0 * d(at(1.0), at(-1.0)) - d(at(2.0), at(-2.0))) / (12.0 * h);
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Generated arcs
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stn {
    lat: f64,
    lon: f64,
    h: f64,
    /// Measures also below the horizon
    all_sky: bool,
    /// Order of the measurement types, and how many
    perm: [u8; 4],
    n: usize,
    /// log10 of the noise, per type, in units of 1 m, 1 mm/s, 1 mdeg
    sig: [f64; 4],
    /// Constant bias in sigmas
    bias: [f64; 4],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ev {
    dt: f64,
    /// Which station; beyond the list: an unknown one
    trk: u8,
    /// Which of its types are in the data
    avail: u8,
    seed: u64,
    outlier: bool,
    rejected: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OdCase {
    o: GenOrbit,
    stn: Vec<Stn>,
    ev: Vec<Ev>,
    /// Initial standard deviations: log10 km and km/s
    p0: [f64; 2],
    /// Initial error in sigmas
    err: f64,
    seed: u64,
    ekf: bool,
    m: usize,
    reject: Option<f64>,
    force_reject: bool,
    /// log10 of the process noise (km/s^2)^2, disable time, decay
    snc: Option<(f64, f64, Option<f64>)>,
    max_step: f64,
    fixed: Option<f64>,
    /// Range and Doppler moduli
    moduli: Option<(f64, f64)>,
}

fn stns() -> BoxedStrategy<Stn> {
    (
        -80.0..80.0f64,
        -180.0..180.0f64,
        0.0..3.0f64,
        prop::bool::weighted(0.85),
        any::<[u8; 4]>(),
        1usize..5,
        prop::array::uniform4(-0.5..2.0f64),
        prop_oneof![2 => Just([0.0; 4]), 1 => prop::array::uniform4(-20.0..20.0f64)],
    )
        .prop_map(|(lat, lon, h, all_sky, perm, n, sig, bias)| Stn { lat: rnd3(lat), lon: rnd3(lon), h: rnd3(h), all_sky, perm, n, sig, bias })
        .boxed()
}

fn evs() -> BoxedStrategy<Ev> {
    (
        prop_oneof![6 => 1.0..400.0f64, 1 => Just(0.0), 1 => 400.0..4000.0f64],
        prop_oneof![12 => 0u8..3, 1 => Just(9u8)],
        prop_oneof![2 => Just(15u8), 2 => 1u8..16],
        any::<u64>(),
        prop::bool::weighted(0.1),
        prop::bool::weighted(0.1),
    )
        .prop_map(|(dt, trk, avail, seed, outlier, rejected)| Ev { dt: rnd3(dt), trk, avail, seed, outlier, rejected })
        .boxed()
}

fn od_cases() -> BoxedStrategy<OdCase> {
    (
        (orbits(6900.0, 42000.0, 0.4), prop::collection::vec(stns(), 1..4), prop::collection::vec(evs(), 2..12)),
        ([-2.0..1.0f64, -5.0..-2.5f64], 0.0..1.5f64, any::<u64>(), any::<bool>(), 1usize..5),
        prop_oneof![1 => Just(None), 1 => (2.0..6.0f64).prop_map(Some)],
        prop::bool::weighted(0.05),
        prop_oneof![1 => Just(None), 1 => (-18.0..-10.0f64, 10.0..1000.0f64, prop_oneof![Just(None), (1e-5..1e-2f64).prop_map(Some)]).prop_map(Some)],
        prop_oneof![2 => 20.0..120.0f64, 1 => 120.0..900.0f64],
        prop_oneof![2 => Just(None), 1 => (5.0..60.0f64).prop_map(Some)],
        prop_oneof![3 => Just(None), 1 => (100.0..3000.0f64, 0.5..3.0f64).prop_map(Some)],
    )
        .prop_map(|((o, stn, ev), (p0, err, seed, ekf, m), reject, force_reject, snc, max_step, fixed, moduli)| OdCase {
            o, stn, ev, p0, err, seed, ekf, m, reject, force_reject, snc, max_step: rnd3(max_step), fixed: fixed.map(rnd3), moduli,
        })
        .boxed()
}

impl Stn {
    fn site(&self) -> Site {
        Site {
            moon: false,
            lat: self.lat,
            lon: self.lon,
            h: self.h,
            mask: if self.all_sky { vec![(0.0, -90.0)] } else { vec![] },
            ignore_mask: false,
        }
    }
    fn types(&self) -> Vec<MeasurementType> {
        let mut v: Vec<(u8, usize)> = self.perm.iter().cloned().zip(0..4).collect();
        v.sort();
        v.iter().map(|x| TYPES[x.1]).take(self.n).collect()
    }
    fn idx(t: MeasurementType) -> usize {
        TYPES.iter().position(|x| *x == t).unwrap()
    }
    fn sigma(&self, t: MeasurementType) -> f64 {
        let i = Self::idx(t);
        10f64.powf(self.sig[i]) * [1e-3, 1e-6, 1e-3, 1e-3][i]
    }
    fn bias(&self, t: MeasurementType) -> f64 {
        self.bias[Self::idx(t)] * self.sigma(t)
    }
    fn station(&self, name: &str) -> GroundStation {
        let mut gs = self.site().station(name);
        for t in self.types() {
            let b = self.bias(t);
            gs = gs.with_msr_type(
                t,
                StochasticNoise {
                    white_noise: Some(WhiteNoise { mean: 0.0, sigma: self.sigma(t) }),
                    bias: if b == 0.0 { None } else { Some(GaussMarkov { tau: 1 * Unit::Day, process_noise: 0.0, constant: Some(b), init_sample: None, prev_epoch: None }) },
                },
            );
        }
        gs
    }
}

fn name(i: usize) -> String {
    format!("stn{i}")
}

fn modulus(c: &OdCase, t: MeasurementType) -> Option<f64> {
    let (r, d) = c.moduli?;
    match t {
        MeasurementType::Range => Some(r),
        MeasurementType::Doppler => Some(d),
        _ => None,
    }
}

impl OdCase {
    fn x0(&self) -> V6 {
        let (r, v) = self.o.rv(MU_EARTH);
        V6::new(r.x, r.y, r.z, v.x, v.y, v.z)
    }
    fn devices(&self) -> BTreeMap<String, GroundStation> {
        self.stn.iter().enumerate().map(|(i, s)| (name(i), s.station(&name(i)))).collect()
    }
    fn trk(&self, e: &Ev) -> Option<usize> {
        if e.trk == 9 { None } else { Some(e.trk as usize % self.stn.len()) }
    }
    /// The data, in the order in which it is given.
    fn arc(&self) -> TrackingDataArc {
        let mut t = 0.0;
        let x0 = self.x0();
        let t0 = self.o.epoch();
        let mut measurements = vec![];
        for e in &self.ev {
            t += e.dt;
            let epoch = t0 + secs(t);
            let x = flow(&x0, (epoch - t0).to_seconds());
            let trk = self.trk(e);
            let s = &self.stn[trk.unwrap_or(0)];
            let n = fill(e.seed, 4);
            let mut m = Measurement::new(trk.map_or("ghost".into(), name), epoch);
            for (i, ty) in s.types().iter().enumerate() {
                // At least one type is there
                if e.avail & (1 << i) == 0 && !(i == 0 && e.avail & ((1 << s.n) - 1) == 0) {
                    continue;
                }
                let mut v = obs(&s.site(), &x, epoch, *ty) + s.bias(*ty) + 3.0 * n[i] * s.sigma(*ty) * if e.outlier { 500.0 } else { 1.0 };
                if *ty == MeasurementType::Azimuth {
                    v = v.rem_euclid(360.0);
                }
                if let Some(md) = modulus(self, *ty) {
                    v = v.rem_euclid(md);
                }
                m.push(*ty, v);
            }
            m.rejected = e.rejected;
            measurements.push(m);
        }
        let moduli = self.moduli.map(|(r, d)| IndexMap::from([(MeasurementType::Range, r), (MeasurementType::Doppler, d)]));
        TrackingDataArc { measurements, source: None, moduli, force_reject: self.force_reject }
    }
    fn initial(&self) -> KfEstimate<Spacecraft> {
        let f = fill(self.seed, 30);
        let (sp, sv) = (10f64.powf(self.p0[0]), 10f64.powf(self.p0[1]));
        let mut x = self.x0();
        for i in 0..6 {
            x[i] += self.err * f[i] * if i < 3 { sp } else { sv };
        }
        let sc = spacecraft(orbit_of(&x, self.o.epoch()), 400.0, 50.0, 1.0, 1.2, 1.0, 2.0);
        let mut p = M9::zeros();
        let a = SMatrix::<f64, 6, 6>::from_fn(|i, j| f[6 + (i * 5 + j * 7) % 24]);
        let u = a * a.transpose() / 6.0 + M6::identity() * 0.5;
        for i in 0..6 {
            for j in 0..6 {
                let s = |k: usize| if k < 3 { sp } else { sv };
                p[(i, j)] = u[(i, j)] * s(i) * s(j);
            }
        }
        p[(6, 6)] = 0.01;
        p[(7, 7)] = 0.04;
        p[(8, 8)] = 0.25;
        KfEstimate::from_covar(sc, (p + p.transpose()) * 0.5)
    }
    fn prop(&self) -> Propagator<SpacecraftDynamics> {
        let d = SpacecraftDynamics::new(OrbitalDynamics::two_body());
        match self.fixed {
            Some(h) => Propagator::new(d, IntegratorMethod::RungeKutta89, IntegratorOptions::with_fixed_step_s(h)),
            None => Propagator::new(
                d,
                IntegratorMethod::RungeKutta89,
                IntegratorOptions::with_adaptive_step_s(1e-3, 120.0, 1e-12, ErrorControl::RSSCartesianStep),
            ),
        }
    }
    fn snc(&self) -> Vec<ProcessNoise3D> {
        match self.snc {
            None => vec![],
            Some((q, dis, None)) => vec![ProcessNoise3D::from_diagonal(&[10f64.powf(q); 3], secs(dis), None)],
            Some((q, dis, Some(l))) => vec![ProcessNoise3D::with_decay(&[10f64.powf(q); 3], secs(dis), &[l; 3], None)],
        }
    }
    fn variant(&self) -> KalmanVariant {
        if self.ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking }
    }
    /// Process noise accumulated over that gap, None when too close to its switch.
    fn q(&self, since_start: f64, gap: f64) -> Option<M9> {
        let mut q = M9::zeros();
        if let Some((l, dis, decay)) = self.snc {
            if (gap - dis).abs() < 1e-6 {
                return None;
            }
            if gap < dis {
                let a = 10f64.powf(l) * decay.map_or(1.0, |k| (-k * since_start).exp());
                for i in 0..3 {
                    q[(i, i)] = a * gap.powi(4) / 4.0;
                    q[(i, i + 3)] = a * gap.powi(3) / 2.0;
                    q[(i + 3, i)] = q[(i, i + 3)];
                    q[(i + 3, i + 3)] = a * gap * gap;
                }
            }
        }
        Some(q)
    }
}

fn phi9(p: &M6) -> M9 {
    let mut m = M9::identity();
    m.fixed_view_mut::<6, 6>(0, 0).copy_from(p);
    m
}

fn x6(s: &Spacecraft) -> V6 {
    v6(&s.orbit)
}

/// Distance between two states in units of the standard deviations, and whether above the noise floor of the propagation.
fn sig_diff(a: &V6, b: &V6, p: &M9) -> f64 {
    let mut w: f64 = 0.0;
    for i in 0..6 {
        let floor = if i < 3 { 1e-6 } else { 1e-9 };
        let d = ((a[i] - b[i]).abs() - floor).max(0.0) / p[(i, i)].sqrt();
        if !(d <= w) {
            w = d;
        }
    }
    w
}

fn cov_rel(want: &M9, got: &M9) -> f64 {
    let mut w: f64 = 0.0;
    for i in 0..9 {
        for j in 0..9 {
            let s = (want[(i, i)] * want[(j, j)]).sqrt();
            let d = (want[(i, j)] - got[(i, j)]).abs() / s;
            if !(d <= w) {
                w = d;
            }
        }
    }
    w
}

/// Textbook update in Joseph form; dimensions at run time.
fn joseph(pbar: &M9, h: &DMatrix<f64>, r: &DMatrix<f64>) -> (DMatrix<f64>, M9, DMatrix<f64>) {
    let p = DMatrix::from_column_slice(9, 9, pbar.as_slice());
    let s = h * &p * h.transpose() + r;
    let si = s.clone().try_inverse().unwrap();
    let k = &p * h.transpose() * si;
    let a = DMatrix::<f64>::identity(9, 9) - &k * h;
    let pn = &a * p * a.transpose() + &k * r * k.transpose();
    let pn = M9::from_column_slice(pn.as_slice());
    (k, (pn + pn.transpose()) * 0.5, s)
}

type Sol<const M: usize> = ODSolution<Spacecraft, KfEstimate<Spacecraft>, Const<M>, GroundStation>;

fn run_od<const M: usize>(c: &OdCase, arc: &TrackingDataArc) -> Result<Sol<M>, nyx_space::od::ODError> {
    let mut od = KalmanODProcess::<SpacecraftDynamics, Const<M>, Const<3>, GroundStation>::new(
        c.prop(),
        c.variant(),
        c.reject.map(|n| SigmaRejection { num_sigmas: n }),
        c.devices(),
        almanac(),
    );
    od.max_step = secs(c.max_step);
    for n in c.snc() {
        od = od.and_with_process_noise(n);
    }
    od.process_arc(c.initial(), arc)
}

fn chk_od(c: &OdCase) -> R {
    match c.m {
        1 => chk_od_m::<1>(c),
        2 => chk_od_m::<2>(c),
        3 => chk_od_m::<3>(c),
        _ => chk_od_m::<4>(c),
    }
}

/// Follows the solution with a filter of our own.
fn chk_od_m<const M: usize>(c: &OdCase) -> R {
    let arc = c.arc();
    let sol = match run_od::<M>(c, &arc) {
        Ok(s) => s,
        Err(e) => return fail("error", format!("{e}")),
    };
    let n = sol.estimates.len();
    req!(sol.residuals.len() == n && sol.gains.len() == n && sol.filter_smoother_ratios.len() == n, "lengths", "{n} estimates, {} residuals, {} gains", sol.residuals.len(), sol.gains.len());
    req!(sol.measurement_types == arc.unique_types(), "types", "{:?}", sol.measurement_types);
    req!(sol.filter_smoother_ratios.iter().all(|x| x.is_none()), "ratios", "smoother ratios in a filter run");
    let e0 = c.initial();
    let t0 = e0.epoch();
    let mut x = x6(&e0.nominal_state);
    let mut dev = V9::zeros();
    let mut p = e0.covar;
    let mut at = t0;
    let mut next = 0usize; // next measurement of the arc
    let mut win = 0usize; // next window of that measurement
    let mut skipped = 0; // measurements passed that are not used since the previous estimate
    let (mut used, mut rej) = (0, 0);
    for k in 0..n {
        let est = &sol.estimates[k];
        let e = est.epoch();
        req!(e >= at, "order", "estimate {k} at {e} follows {at}");
        let gap = (e - at).to_seconds();
        // Skip what is not used
        while next < arc.measurements.len() {
            let m = &arc.measurements[next];
            let unknown = !m.tracker.starts_with("stn");
            let hidden = if unknown || win > 0 || m.rejected {
                false
            } else {
                if m.epoch > e {
                    break;
                }
                let i: usize = m.tracker[3..].parse().unwrap();
                let s = c.stn[i].site();
                let xm = flow(&x, (m.epoch - at).to_seconds());
                let (margin, close_call) = s.margin(&s.aer(&orbit_of(&xm, m.epoch)));
                if close_call || margin.abs() < 1e-4 {
                    return Ok(Out::Discard);
                }
                margin < 0.0
            };
            if !(hidden || (unknown && !m.rejected)) {
                break;
            }
            if m.epoch > e {
                break;
            }
            skipped += 1;
            next += 1;
        }
        let lim = secs(c.max_step) * (1 + skipped);
        req!(e - at <= lim + 1 * Unit::Nanosecond, "gap", "estimates {gap} s apart with a maximum step of {} s", c.max_step);
        req!(next >= arc.measurements.len() || e <= arc.measurements[next].epoch, "missed", "estimate {k} at {e} is past measurement {next}");
        // Time update
        let f6 = trans(&x, gap);
        let f = phi9(&f6);
        let Some(q) = c.q((e - t0).to_seconds(), gap) else { return Ok(Out::Discard) };
        x = flow(&x, gap);
        dev = f * dev;
        let pbar = f * p * f.transpose() + q;
        at = e;
        let xd = x6(&est.nominal_state) - x;
        let d = sig_diff(&x6(&est.nominal_state), &x, &pbar);
        req!(d < 1e-3, "nominal", "estimate {k}: nominal state off by {d} sigma: {xd:?}");
        let d = cov_rel(&pbar, &est.covar_bar);
        req!(d < 1e-3, "predicted-covariance", "estimate {k}: predicted covariance off by {d}");
        let Some(res) = &sol.residuals[k] else {
            req!(sol.gains[k].is_none() && est.predicted, "time-update", "estimate {k} has a gain or is not predicted, without a residual");
            let d = cov_rel(&pbar, &est.covar);
            req!(d < 1e-3, "covariance", "estimate {k}: covariance off by {d} without a measurement");
            let d = sig_diff(&est.state_deviation.fixed_rows::<6>(0).into(), &dev.fixed_rows::<6>(0).into(), &pbar);
            req!(d < 1e-3, "deviation", "estimate {k}: deviation off by {d} sigma without a measurement");
            p = pbar;
            skipped = 0;
            if next < arc.measurements.len() && arc.measurements[next].rejected && arc.measurements[next].epoch == e {
                next += 1;
            } else {
                req!(next >= arc.measurements.len() || arc.measurements[next].epoch > e, "unused", "measurement {next} is not used");
            }
            continue;
        };
        // Measurement update
        req!(next < arc.measurements.len() && arc.measurements[next].epoch == e && !arc.measurements[next].rejected, "extra", "estimate {k} at {e} with a residual of {:?}, but next measurement is {next}", res.tracker);
        let m = &arc.measurements[next];
        req!(res.tracker.as_deref() == Some(m.tracker.as_str()) && res.epoch == e, "tracker", "residual of {:?} for {}", res.tracker, m.tracker);
        let i: usize = m.tracker[3..].parse().unwrap();
        let stn = &c.stn[i];
        let s = stn.site();
        let avail: Vec<_> = stn.types().into_iter().filter(|t| m.data.contains_key(t)).collect();
        let types: Vec<_> = avail.iter().copied().skip(win * M).take(M).collect();
        let with: IndexSet<_> = types.iter().copied().collect();
        req!(res.msr_types == with, "window", "window {win} of measurement {next} uses {:?} instead of {types:?}", res.msr_types);
        let l = types.len();
        let mut h = DMatrix::zeros(l, 9);
        let mut r = DMatrix::zeros(l, l);
        let mut y = DVector::zeros(l);
        for (a, t) in types.iter().enumerate() {
            let aer = s.aer(&orbit_of(&x, e));
            if matches!(t, MeasurementType::Azimuth | MeasurementType::Elevation) && (aer.el.abs() > 80.0 || (*t == MeasurementType::Azimuth && !(1.0..359.0).contains(&aer.az) && stn.bias(*t) != 0.0)) {
                return Ok(Out::Discard);
            }
            let g = partials(&s, &x, e, *t);
            for j in 0..6 {
                h[(a, j)] = g[j];
            }
            let comp = aer.get(*t) + stn.bias(*t);
            r[(a, a)] = stn.sigma(*t).powi(2);
            let mut d = m.data[t] - comp;
            if *t == MeasurementType::Azimuth {
                d = wrap(d);
            }
            if let Some(md) = modulus(c, *t) {
                // Nearest to what is expected
                let kk = (d / md).round();
                if ((d / md - kk).abs() - 0.5).abs() < 1e-3 {
                    return Ok(Out::Discard);
                }
                d -= kk * md;
            }
            y[a] = d;
            let tol = 1e-3 * stn.sigma(*t) + 1e-6 * d.abs();
            req!((res.prefit[a] - d).abs() <= tol, "prefit", "estimate {k}: prefit of {t:?} is {} instead of {d}", res.prefit[a]);
            req!((res.computed_obs[a] - comp).abs() <= tol, "computed", "estimate {k}: computed {t:?} is {} instead of {comp}", res.computed_obs[a]);
            req!(close(res.real_obs[a] - res.computed_obs[a], res.prefit[a], 1e-9, 1e-9), "prefit-sum", "estimate {k}: {} - {} is not {}", res.real_obs[a], res.computed_obs[a], res.prefit[a]);
        }
        let (gain, pnew, sk) = joseph(&pbar, &h, &r);
        let nis = (y.transpose() * sk.try_inverse().unwrap() * &y)[(0, 0)];
        let ratio = (nis / M as f64).sqrt();
        req!(close(res.ratio, ratio, 2e-3, 2e-3), "ratio", "estimate {k}: ratio {} instead of {ratio}", res.ratio);
        let crit = if c.force_reject { Some(0.0) } else { c.reject };
        if crit.is_some_and(|n| (ratio - n).abs() < 0.01) {
            return Ok(Out::Discard);
        }
        let reject = crit.is_some_and(|n| ratio > n);
        req!(res.rejected == reject, "rejection", "estimate {k}: ratio {ratio} against {crit:?}, rejected: {}", res.rejected);
        req!(est.predicted == reject && sol.gains[k].is_none() == reject, "flags", "estimate {k}: predicted {} gain {}", est.predicted, sol.gains[k].is_some());
        if reject {
            rej += 1;
            let d = cov_rel(&pbar, &est.covar);
            req!(d < 1e-3, "covariance-rejected", "estimate {k}: covariance off by {d} after a rejection");
            let d = sig_diff(&est.state_deviation.fixed_rows::<6>(0).into(), &dev.fixed_rows::<6>(0).into(), &pbar);
            req!(d < 1e-3, "deviation-rejected", "estimate {k}: deviation off by {d} sigma after a rejection");
            p = pbar;
        } else {
            used += 1;
            let innov = &y - &h * DVector::from_column_slice(dev.as_slice());
            let dx = &gain * innov;
            let new = dev + V9::from_column_slice(dx.as_slice());
            let d = cov_rel(&pnew, &est.covar);
            req!(d < 1e-2, "covariance-updated", "estimate {k}: covariance off by {d}");
            let d = sig_diff(&est.state_deviation.fixed_rows::<6>(0).into(), &new.fixed_rows::<6>(0).into(), &pnew);
            req!(d < 1e-2 * (1.0 + ratio), "deviation-updated", "estimate {k}: deviation off by {d} sigma, ratio {ratio}");
            // Follow the solution from here on: every step is checked from its own predecessor.
            p = est.covar;
            if c.ekf {
                x = x6(&est.state());
                let want = x6(&est.nominal_state) + est.state_deviation.fixed_rows::<6>(0);
                req!((x - want).norm() < 1e-9, "state", "estimate {k}: state is not the nominal state and its deviation");
            } else {
                dev = est.state_deviation;
            }
        }
        skipped = 0;
        win += 1;
        if win * M >= avail.len() {
            win = 0;
            next += 1;
        }
    }
    req!(win == 0, "window-missing", "last measurement is not used completely");
    for (j, m) in arc.measurements.iter().enumerate().skip(next) {
        let ok = !m.rejected
            && (!m.tracker.starts_with("stn") || {
                let i: usize = m.tracker[3..].parse().unwrap();
                let s = c.stn[i].site();
                let (margin, _) = s.margin(&s.aer(&orbit_of(&flow(&x, (m.epoch - at).to_seconds()), m.epoch)));
                margin < 1e-4
            });
        req!(ok, "not-processed", "measurement {j} at {} is not processed", m.epoch);
    }
    Ok(if used > 1 && (rej > 0 || n > 5) { Out::Hit } else { Out::Trivial })
}

// ---------------------------------------------------------------------------------------------
// Prediction
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pred {
    c: OdCase,
    dur: f64,
    by_epoch: bool,
}

fn preds() -> BoxedStrategy<Pred> {
    (od_cases(), prop_oneof![5 => 1.0..6000.0f64, 1 => 0.001..1.0f64, 1 => (1u32..6).prop_map(|k| -(k as f64))], any::<bool>())
        .prop_map(|(c, dur, by_epoch)| {
            // Negative: a multiple of the step
            let dur = if dur < 0.0 { -dur * c.max_step } else { rnd3(dur) };
            Pred { c, dur, by_epoch }
        })
        .boxed()
}

fn chk_predict(c: &Pred) -> R {
    let od = {
        let mut od = KalmanODProcess::<SpacecraftDynamics, Const<2>, Const<3>, GroundStation>::new(c.c.prop(), c.c.variant(), None, c.c.devices(), almanac());
        od.max_step = secs(c.c.max_step);
        for n in c.c.snc() {
            od = od.and_with_process_noise(n);
        }
        od
    };
    let mut e0 = c.c.initial();
    let f = fill(c.c.seed ^ 5, 9);
    if !c.c.ekf {
        for i in 0..6 {
            e0.state_deviation[i] = f[i] * e0.covar[(i, i)].sqrt();
        }
    }
    let dur = secs(c.dur);
    let end = e0.epoch() + dur;
    let sol = match if c.by_epoch { od.predict_until(e0, end) } else { od.predict_for(e0, dur) } {
        Ok(s) => s,
        Err(e) => return fail("error", format!("{e}")),
    };
    req!(sol.estimates[0] == e0, "first", "the first estimate is not the initial one");
    req!(sol.residuals.iter().all(|r| r.is_none()) && sol.residuals.len() == sol.estimates.len(), "residuals", "residuals without measurements");
    let last = sol.estimates.last().unwrap().epoch();
    req!(last == end, "end", "prediction until {end} ends at {last}");
    let mut x = x6(&e0.nominal_state);
    let mut p = e0.covar;
    let mut dev = e0.state_deviation;
    let mut at = e0.epoch();
    for (k, est) in sol.estimates.iter().enumerate().skip(1) {
        let e = est.epoch();
        let gap = (e - at).to_seconds();
        req!(gap > 0.0 && e - at <= secs(c.c.max_step), "gap", "estimates {gap} s apart with a maximum step of {} s", c.c.max_step);
        let f = phi9(&trans(&x, gap));
        let Some(q) = c.c.q((e - e0.epoch()).to_seconds(), gap) else { return Ok(Out::Discard) };
        x = flow(&x, gap);
        p = f * p * f.transpose() + q;
        dev = f * dev;
        at = e;
        req!(est.predicted, "predicted", "estimate {k} is not predicted");
        let d = sig_diff(&x6(&est.nominal_state), &x, &p);
        req!(d < 1e-3, "nominal", "estimate {k}: nominal state off by {d} sigma");
        let d = cov_rel(&p, &est.covar);
        req!(d < 1e-3, "covariance", "estimate {k}: covariance off by {d}");
        let d = sig_diff(&est.state_deviation.fixed_rows::<6>(0).into(), &dev.fixed_rows::<6>(0).into(), &p);
        req!(d < 1e-3, "deviation", "estimate {k}: deviation off by {d} sigma");
    }
    Ok(if sol.estimates.len() > 2 { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Poison {
    c: OdCase,
    which: usize,
    how: u8,
    /// The poisoned measurement is marked as rejected
    rejected: bool,
    /// Measurements kept
    keep: Option<usize>,
}

fn poisons() -> BoxedStrategy<Poison> {
    (od_cases(), any::<prop::sample::Index>(), 0u8..3, any::<bool>(), prop_oneof![2 => Just(None), 1 => (0usize..3).prop_map(Some)])
        .prop_map(|(mut c, w, how, rejected, keep)| {
            for s in c.stn.iter_mut() {
                s.all_sky = true;
            }
            for e in c.ev.iter_mut() {
                if e.trk == 9 {
                    e.trk = 0;
                }
                e.rejected = false;
            }
            Poison { which: w.index(c.ev.len()), c, how, rejected, keep }
        })
        .boxed()
}

/// A measurement which is not a number is reported, unless it is rejected; so is an arc of less than two measurements.
fn chk_poison(c: &Poison) -> R {
    let mut arc = c.c.arc();
    if let Some(k) = c.keep {
        arc.measurements.truncate(k);
        let ok = run_od::<2>(&c.c, &arc).is_ok();
        req!(ok == (k >= 2), "few", "{k} measurements processed: {ok}");
        return Ok(Out::Hit);
    }
    let m = &mut arc.measurements[c.which];
    for v in m.data.values_mut() {
        *v = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][c.how as usize];
    }
    m.rejected = c.rejected;
    match run_od::<2>(&c.c, &arc) {
        Err(e) => req!(!c.rejected, "rejected-error", "{e}"),
        Ok(s) => {
            req!(c.rejected, "accepted", "a measurement which is not a number is processed");
            req!(s.estimates.iter().all(|e| e.covar.iter().chain(e.state_deviation.iter()).all(|x| x.is_finite())), "spread", "a rejected measurement reaches the estimates");
        }
    }
    let mut od = c.c.clone();
    od.max_step = -od.max_step * (c.how as f64);
    req!(run_od::<2>(&od, &c.c.arc()).is_err(), "step", "a maximum step of {} s is accepted", od.max_step);
    Ok(Out::Hit)
}

fn p21() -> Prop {
    Prop {
        id: "P21",
        assumptions: &[
            "two-body dynamics and instantaneous ground station measurements (the dynamics and measurement models have their own properties)",
            "elevations below 80 degrees where angles are used; biased azimuths away from the north",
            "cases within 0.01 of the rejection threshold, or 1e-4 deg of the horizon, are set aside",
        ],
        subs: vec![
            sub("process", "at least two measurements used, with a rejection or more than five estimates", 25_000, 400_000, od_cases, chk_od),
            sub("guards", "every case", 6000, 60_000, poisons, chk_poison),
            sub("predict", "more than one prediction step", 20_000, 300_000, preds, chk_predict),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// P22
// ---------------------------------------------------------------------------------------------

fn smooth_cases() -> BoxedStrategy<OdCase> {
    od_cases()
        .prop_map(|mut c| {
            c.ekf = false;
            c.snc = None;
            c.force_reject = false;
            c
        })
        .boxed()
}

fn chk_smooth(c: &OdCase) -> R {
    match c.m {
        1 => chk_smooth_m::<1>(c),
        2 => chk_smooth_m::<2>(c),
        3 => chk_smooth_m::<3>(c),
        _ => chk_smooth_m::<4>(c),
    }
}

/// The smoothed estimates are the last one mapped back: the least squares of all of the data at every epoch.
fn chk_smooth_m<const M: usize>(c: &OdCase) -> R {
    let arc = c.arc();
    let sol = match run_od::<M>(c, &arc) {
        Ok(s) => s,
        Err(e) => return fail("error", format!("{e}")),
    };
    if sol.estimates.is_empty() {
        return Ok(Out::Discard);
    }
    let sm = match sol.clone().smooth(&almanac()) {
        Ok(s) => s,
        Err(e) => return fail("smooth-error", format!("{e}")),
    };
    let n = sol.estimates.len();
    req!(sm.estimates.len() == n && sm.residuals.len() == n && sm.gains.len() == n && sm.filter_smoother_ratios.len() == n, "lengths", "{n} estimates, {} smoothed", sm.estimates.len());
    req!(sm.gains.iter().all(|g| g.is_none()), "gains", "gains of a smoother run");
    req!(sm.is_smoother_run() == (n > 1) && !sm.is_filter_run(), "kind", "smoother {} filter {}", sm.is_smoother_run(), sm.is_filter_run());
    req!(sm.measurement_types == sol.measurement_types && sm.devices == sol.devices, "setup", "devices or types changed");
    let last = &sol.estimates[n - 1];
    req!(sm.estimates[n - 1] == *last, "last", "the last estimate is smoothed");
    let xl = x6(&last.nominal_state);
    let mut gained = false;
    for k in 0..n {
        let (f, s) = (&sol.estimates[k], &sm.estimates[k]);
        req!(s.epoch() == f.epoch() && x6(&s.nominal_state) == x6(&f.nominal_state), "nominal", "estimate {k}: nominal state changed");
        let phi = phi9(&trans(&xl, (f.epoch() - last.epoch()).to_seconds()));
        let want = phi * last.state_deviation;
        let p = phi * last.covar * phi.transpose();
        // Differences of a long back propagation: relative to the filter
        let d = sig_diff(&s.state_deviation.fixed_rows::<6>(0).into(), &want.fixed_rows::<6>(0).into(), &((p + f.covar) * 0.5));
        req!(d < 1e-2, "deviation", "estimate {k} of {n}: smoothed deviation off by {d} sigma");
        let mut w: f64 = 0.0;
        for i in 0..6 {
            let q = (p[(i, i)] - s.covar[(i, i)]).abs() / p[(i, i)].max(1e-6 * f.covar[(i, i)]);
            if !(q <= w) {
                w = q;
            }
        }
        req!(w < 1e-2, "covariance", "estimate {k} of {n}: smoothed covariance off by {w}");
        for i in 0..6 {
            req!(s.covar[(i, i)] <= f.covar[(i, i)] * (1.0 + 1e-6) + 1e-14, "larger", "estimate {k}: smoothing increases variance {i} from {:e} to {:e}", f.covar[(i, i)], s.covar[(i, i)]);
        }
        gained |= s.covar[(0, 0)] < 0.9 * f.covar[(0, 0)];
        match (&sol.residuals[k], &sm.residuals[k]) {
            (None, None) => {}
            (Some(rf), Some(rs)) => {
                req!(rf.epoch == rs.epoch && rf.tracker == rs.tracker && rf.msr_types == rs.msr_types && rf.prefit == rs.prefit && rf.rejected == rs.rejected, "residual", "estimate {k}: residual of {:?} at {} instead of {:?} at {}", rs.tracker, rs.epoch, rf.tracker, rf.epoch);
                if k == n - 1 {
                    continue;
                }
                let i: usize = rf.tracker.as_ref().unwrap()[3..].parse().unwrap();
                let stn = &c.stn[i];
                let x = x6(&s.state());
                let aer = stn.site().aer(&orbit_of(&x, s.epoch()));
                for (a, t) in rf.msr_types.iter().enumerate() {
                    if *t == MeasurementType::Azimuth && (!(5.0..355.0).contains(&aer.az) || aer.el.abs() > 80.0) {
                        continue;
                    }
                    let comp = aer.get(*t) + stn.bias(*t);
                    let tol = 1e-3 * stn.sigma(*t) + 1e-7;
                    req!((rs.computed_obs[a] - comp).abs() <= tol, "computed", "estimate {k}: computed {t:?} is {} instead of {comp}", rs.computed_obs[a]);
                    let post = rf.real_obs[a] - comp;
                    req!((rs.postfit[a] - post).abs() <= tol, "postfit", "estimate {k}: postfit of {t:?} is {} instead of {post}", rs.postfit[a]);
                }
            }
            (Some(rf), None) => {
                // Not visible any more
                let i: usize = rf.tracker.as_ref().unwrap()[3..].parse().unwrap();
                let s0 = c.stn[i].site();
                let (margin, _) = s0.margin(&s0.aer(&orbit_of(&x6(&s.state()), s.epoch())));
                req!(margin < 1e-4, "residual-lost", "estimate {k}: the smoothed residual is missing");
            }
            (None, Some(_)) => return fail("residual-extra", format!("estimate {k}: residual of a time update")),
        }
    }
    Ok(if gained { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bls {
    c: OdCase,
    lm: bool,
    /// The data starts at the epoch of the guess
    at_start: bool,
}

fn blses() -> BoxedStrategy<Bls> {
    (od_cases(), prop::collection::vec(evs(), 10..25), any::<bool>(), any::<bool>())
        .prop_map(|(mut c, ev, lm, at_start)| {
            c.ev = ev;
            for (i, e) in c.ev.iter_mut().enumerate() {
                e.outlier = false;
                e.dt = if e.dt > 0.0 { rnd3(60.0 + e.dt.min(840.0)) } else { 0.0 };
                if i == 0 && at_start {
                    e.dt = 0.0;
                }
            }
            for s in c.stn.iter_mut() {
                s.n = s.n.max(2);
                s.sig = s.sig.map(|x| x.min(0.5));
            }
            c.force_reject = false;
            // Guess within the linear domain
            c.p0 = [c.p0[0].min(0.0), c.p0[1].min(-3.0)];
            Bls { c, lm, at_start }
        })
        .boxed()
}

struct Normal {
    info: M6,
    rhs: V6,
    ssr: f64,
    count: usize,
    /// Too close to the horizon or to where an angle is not well defined
    unclear: bool,
}

/// Normal equations of the data about that state.
fn normal(c: &OdCase, arc: &TrackingDataArc, x0: &V6) -> Normal {
    let t0 = c.o.epoch();
    let mut out = Normal { info: M6::zeros(), rhs: V6::zeros(), ssr: 0.0, count: 0, unclear: false };
    for m in arc.measurements.iter().filter(|m| !m.rejected && m.tracker.starts_with("stn")) {
        let i: usize = m.tracker[3..].parse().unwrap();
        let stn = &c.stn[i];
        let s = stn.site();
        let dt = (m.epoch - t0).to_seconds();
        let x = flow(x0, dt);
        let aer = s.aer(&orbit_of(&x, m.epoch));
        let (margin, close_call) = s.margin(&aer);
        out.unclear |= close_call || margin.abs() < 1e-2;
        if margin < 0.0 {
            continue;
        }
        let phi = trans(x0, dt);
        for (t, v) in &m.data {
            if matches!(t, MeasurementType::Azimuth | MeasurementType::Elevation) && aer.el.abs() > 80.0 {
                out.unclear = true;
            }
            let comp = aer.get(*t) + stn.bias(*t);
            let mut d = v - comp;
            if *t == MeasurementType::Azimuth {
                d = wrap(d);
            }
            if let Some(md) = modulus(c, *t) {
                let kk = (d / md).round();
                out.unclear |= ((d / md - kk).abs() - 0.5).abs() < 0.05;
                d -= kk * md;
            }
            let h = nalgebra::RowVector6::from_row_slice(&partials(&s, &x, m.epoch, *t)) * phi;
            let w = stn.sigma(*t).powi(-2);
            out.info += h.transpose() * h * w;
            out.rhs += h.transpose() * d * w;
            out.ssr += w * d * d;
            out.count += 1;
        }
    }
    out
}

fn chk_bls(c: &Bls) -> R {
    let arc = c.c.arc();
    let guess = c.c.initial().nominal_state;
    let bls = BatchLeastSquares::builder()
        .prop(c.c.prop())
        .devices(c.c.devices())
        .almanac(almanac())
        .solver(if c.lm { BLSSolver::LevenbergMarquardt } else { BLSSolver::NormalEquations })
        .max_iterations(if c.lm { 40 } else { 20 })
        .max_step(secs(c.c.max_step))
        .tolerance_pos_km(1e-6)
        .build();
    let kept = arc.measurements.iter().filter(|m| !m.rejected).count();
    // Evaluation of any state
    let g = normal(&c.c, &arc, &x6(&guess));
    if g.unclear {
        return Ok(Out::Discard);
    }
    if kept == 0 {
        req!(bls.evaluate(guess, &arc).is_err(), "empty", "no error without measurements");
    } else {
        let rms = match bls.evaluate(guess, &arc) {
            Ok(r) => r,
            Err(e) => return fail("evaluate-error", format!("{e}")),
        };
        let want = (g.ssr / kept as f64).sqrt();
        req!(close(rms, want, 1e-3, 1e-2), "evaluate", "RMS {rms} instead of {want}");
    }
    let sol = match bls.estimate(guess, &arc) {
        Ok(s) => s,
        Err(e) => {
            req!(kept < 2, "estimate-error", "{e}");
            return Ok(Out::Trivial);
        }
    };
    req!(kept >= 2, "too-few", "{kept} measurements are enough");
    req!(sol.estimated_state.epoch() == guess.epoch(), "epoch", "estimate at {}", sol.estimated_state.epoch());
    // Well determined problems only: every standard deviation below 300 m and 1 m/s
    let n = normal(&c.c, &arc, &x6(&sol.estimated_state));
    if n.unclear || n.count < 8 {
        return Ok(Out::Discard);
    }
    let sc = V6::from_fn(|i, _| n.info[(i, i)].max(1e-300).sqrt());
    let unit = M6::from_fn(|i, j| n.info[(i, j)] / (sc[i] * sc[j]));
    let ev = unit.symmetric_eigenvalues();
    if ev.min() < 1e-9 {
        return Ok(Out::Trivial);
    }
    let Some(ui) = unit.try_inverse() else { return Ok(Out::Trivial) };
    let cov = M6::from_fn(|i, j| ui[(i, j)] / (sc[i] * sc[j]));
    if (0..6).any(|i| !(cov[(i, i)].sqrt() < if i < 3 { 0.3 } else { 1e-3 })) {
        return Ok(Out::Trivial);
    }
    if !sol.converged {
        req!(c.lm, "not-converged", "not converged in {} iterations, last correction {} km", sol.num_iterations, sol.final_corr_pos_km);
        return Ok(Out::Trivial);
    }
    req!(sol.final_corr_pos_km < 1e-6 && sol.num_iterations <= if c.lm { 40 } else { 20 }, "convergence", "{} km after {} iterations", sol.final_corr_pos_km, sol.num_iterations);
    // No correction is left
    let dx = cov * n.rhs;
    for i in 0..6 {
        let tol = 0.02 * cov[(i, i)].sqrt() + if i < 3 { 2e-6 } else { 2e-9 };
        req!(dx[i].abs() < tol, "minimum", "a correction of {:e} is left on component {i}, sigma {:e}", dx[i], cov[(i, i)].sqrt());
    }
    let rms = (n.ssr / kept as f64).sqrt();
    req!(close(sol.final_rms, rms, 1e-2, 1e-2), "rms", "RMS {} instead of {rms}", sol.final_rms);
    let d = {
        let mut w: f64 = 0.0;
        for i in 0..6 {
            for j in 0..6 {
                w = w.max((cov[(i, j)] - sol.covariance[(i, j)]).abs() / (cov[(i, i)] * cov[(j, j)]).sqrt());
            }
        }
        w
    };
    // It weighs the data against a prior of 1 km
    let prior = (0..3).map(|i| cov[(i, i)]).sum::<f64>();
    req!(d < 0.02 + 3.0 * prior, "covariance", "covariance off by {d}");
    Ok(Out::Hit)
}

fn p22() -> Prop {
    Prop {
        id: "P22",
        assumptions: &[
            "smoother: deviation tracking filter without process noise",
            "batch least squares: claims on the solution only when it reports convergence and every standard deviation is below 300 m and 1 m/s",
        ],
        subs: vec![
            sub("smoother", "the smoothed variance is below 0.9 times that of the filter at some epoch", 15_000, 300_000, smooth_cases, chk_smooth),
            sub("batch", "a well determined problem which converges", 2500, 60_000, blses, chk_bls),
        ],
    }
}
