//! P20 Kalman filter updates, P24 process noise.
use crate::fw::*;
use crate::req;
use crate::world::*;
use nalgebra::{Const, DMatrix, DVector, Matrix3, SMatrix, SVector};
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::od::estimate::Estimate;
use nyx_space::od::kalman::{KalmanFilter, KalmanVariant};
use nyx_space::od::prelude::{KfEstimate, Residual};
use nyx_space::od::process::SigmaRejection;
use nyx_space::od::snc::ProcessNoise3D;
use nyx_space::{Spacecraft, State};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const PROPS: &[fn() -> Prop] = &[p20, p24];

pub type M9 = SMatrix<f64, 9, 9>;
pub type V9 = SVector<f64, 9>;
type V3 = nalgebra::Vector3<f64>;

/// Typical magnitudes of the deviations: km, km/s, -, -, kg.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scale {
    pub pos: f64,
    pub vel: f64,
    pub cr: f64,
    pub cd: f64,
    pub mass: f64,
}

pub fn scales() -> BoxedStrategy<Scale> {
    (-3.0..2.0f64, -6.0..-1.0f64, -3.0..0.0f64, -3.0..0.0f64, -2.0..1.0f64)
        .prop_map(|(p, v, r, d, m)| Scale { pos: 10f64.powf(p), vel: 10f64.powf(v), cr: 10f64.powf(r), cd: 10f64.powf(d), mass: 10f64.powf(m) })
        .boxed()
}

impl Scale {
    pub fn v(&self) -> V9 {
        V9::from_column_slice(&[self.pos, self.pos, self.pos, self.vel, self.vel, self.vel, self.cr, self.cd, self.mass])
    }
}

/// Deterministic entries in [-1, 1] drawn from a seed: what is generated stays small to read and to shrink.
pub fn fill(seed: u64, n: usize) -> Vec<f64> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    (0..n)
        .map(|_| {
            s ^= s >> 12;
            s ^= s << 25;
            s ^= s >> 27;
            (s.wrapping_mul(0x2545F4914F6CDD1D) >> 11) as f64 / (1u64 << 52) as f64 - 1.0
        })
        .collect()
}

/// A correlated covariance of unit scale; its condition number is about 1/eps.
pub fn unit_cov(seed: u64, eps: f64) -> M9 {
    let a = M9::from_row_slice(&fill(seed, 81));
    let c = a * a.transpose() / 9.0 + M9::identity() * eps;
    (c + c.transpose()) * 0.5
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Op {
    /// 0: time update only, 1..=3: number of measurements
    m: usize,
    seed: u64,
    /// Seconds since the previous update
    dt: f64,
    /// How far the transition is from the identity
    phi: f64,
    /// log10 of the measurement noise over the scale of the state
    r: f64,
    /// Size of the prefit in the same unit
    y: f64,
    /// Whether R is full rather than diagonal
    full: bool,
    /// Threshold, as a multiple of the ratio that this measurement has (below one rejects)
    rej: Option<f64>,
}

fn ops(mmin: usize) -> BoxedStrategy<Op> {
    (
        mmin..4usize,
        any::<u64>(),
        prop_oneof![4 => 0.001..600.0f64, 1 => Just(0.0)],
        prop_oneof![1 => Just(0.0), 4 => 0.0..0.6f64],
        -3.0..2.0f64,
        prop_oneof![1 => Just(0.0), 5 => 0.0..10.0f64],
        any::<bool>(),
        prop_oneof![2 => Just(None), 1 => (0.2..0.99f64).prop_map(Some), 1 => (1.01..4.0f64).prop_map(Some)],
    )
        .prop_map(|(m, seed, dt, phi, r, y, full, rej)| Op { m, seed, dt: rnd3(dt), phi, r, y, full, rej })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    o: GenOrbit,
    sc: Scale,
    cov: u64,
    eps: f64,
    /// Initial deviation, in the scale of the state
    dev: f64,
    ekf: bool,
    ops: Vec<Op>,
}

fn hists(mmin: usize, n: std::ops::Range<usize>) -> BoxedStrategy<Hist> {
    (leo_to_geo(), scales(), any::<u64>(), prop_oneof![Just(1.0), Just(0.1), Just(0.01)], prop_oneof![Just(0.0), 0.0..2.0f64], any::<bool>(), prop::collection::vec(ops(mmin), n))
        .prop_map(|(o, sc, cov, eps, dev, ekf, ops)| Hist { o, sc, cov, eps, dev, ekf, ops })
        .boxed()
}

struct Msr {
    y: DVector<f64>,
    real: DVector<f64>,
    comp: DVector<f64>,
    h: DMatrix<f64>,
    r: DMatrix<f64>,
}

impl Op {
    fn phi(&self, d: &V9) -> M9 {
        let e = M9::from_row_slice(&fill(self.seed, 81)) * self.phi;
        let mut p = M9::identity() + e * 0.3;
        for i in 0..9 {
            for j in 0..9 {
                p[(i, j)] *= d[i] / d[j];
            }
        }
        p
    }
    fn msr(&self, d: &V9) -> Msr {
        let m = self.m;
        let f = fill(self.seed ^ 0xABCD, 100);
        // Units of each measurement
        let g: Vec<f64> = (0..m).map(|i| 10f64.powf(3.0 * f[60 + i])).collect();
        let h = DMatrix::from_fn(m, 9, |i, j| g[i] * f[i * 9 + j] / d[j]);
        let rho = 10f64.powf(self.r);
        let mut r = DMatrix::zeros(m, m);
        for i in 0..m {
            for j in 0..m {
                let c = if i == j {
                    1.0 + 0.8 * f[70 + i]
                } else if self.full {
                    0.3 * f[75 + i + j] * ((1.0 + 0.8 * f[70 + i]) * (1.0 + 0.8 * f[70 + j])).sqrt()
                } else {
                    0.0
                };
                r[(i, j)] = c * rho * rho * g[i] * g[j];
            }
        }
        let y = DVector::from_fn(m, |i, _| self.y * g[i] * f[80 + i]);
        let comp = DVector::from_fn(m, |i, _| 10.0 * g[i] * f[90 + i]);
        let real = &comp + &y;
        let y = &real - &comp;
        Msr { y, real, comp, h, r }
    }
}

type Step = (KfEstimate<Spacecraft>, Option<(RView, Option<DMatrix<f64>>)>);

struct RView {
    rejected: bool,
    ratio: f64,
    prefit: DVector<f64>,
    postfit: DVector<f64>,
    white: DVector<f64>,
    trend: DVector<f64>,
    real: DVector<f64>,
    comp: DVector<f64>,
    at: hifitime::Epoch,
}

fn view<const M: usize>(r: &Residual<Const<M>>) -> RView {
    let d = |v: &SVector<f64, M>| DVector::from_column_slice(v.as_slice());
    RView {
        rejected: r.rejected,
        ratio: r.ratio,
        prefit: d(&r.prefit),
        postfit: d(&r.postfit),
        white: d(&r.whitened_resid),
        trend: d(&r.tracker_msr_noise),
        real: d(&r.real_obs),
        comp: d(&r.computed_obs),
        at: r.epoch,
    }
}

fn upd<const M: usize>(kf: &mut KalmanFilter<Spacecraft, Const<3>>, nom: Spacecraft, m: &Msr, rej: Option<SigmaRejection>) -> Result<Step, Fail> {
    let v = |x: &DVector<f64>| SVector::<f64, M>::from_column_slice(x.as_slice());
    let r = SMatrix::<f64, M, M>::from_column_slice(m.r.as_slice());
    let h = SMatrix::<f64, M, 9>::from_column_slice(m.h.as_slice());
    match kf.measurement_update::<Const<M>>(nom, v(&m.real), v(&m.comp), r, h, rej) {
        Ok((e, r, k)) => Ok((e, Some((view::<M>(&r), k.map(|k| DMatrix::from_column_slice(9, M, k.as_slice())))))),
        Err(e) => fail("update-error", format!("{e}")),
    }
}

fn update(kf: &mut KalmanFilter<Spacecraft, Const<3>>, nom: Spacecraft, m: &Msr, rej: Option<SigmaRejection>) -> Result<Step, Fail> {
    match m.y.len() {
        1 => upd::<1>(kf, nom, m, rej),
        2 => upd::<2>(kf, nom, m, rej),
        _ => upd::<3>(kf, nom, m, rej),
    }
}

fn unscale(p: &M9, d: &V9) -> M9 {
    M9::from_fn(|i, j| p[(i, j)] / (d[i] * d[j]))
}

/// Largest difference between two covariances, entries being divided by the standard deviations of the first.
fn cov_diff(want: &M9, got: &M9) -> f64 {
    let mut w: f64 = 0.0;
    for i in 0..9 {
        for j in 0..9 {
            let s = (want[(i, i)] * want[(j, j)]).sqrt();
            let d = (want[(i, j)] - got[(i, j)]).abs() / s;
            if !(d <= w) {
                w = d;
            }
        }
    }
    w
}

fn vec_diff(want: &V9, got: &V9, p: &M9) -> f64 {
    let mut w: f64 = 0.0;
    for i in 0..9 {
        let d = (want[i] - got[i]).abs() / p[(i, i)].sqrt();
        if !(d <= w) {
            w = d;
        }
    }
    w
}

fn nominal(o: &GenOrbit, t: f64, stm: M9) -> Spacecraft {
    let (r, v) = o.rv(MU_EARTH);
    let (r, v) = kepler(r, v, MU_EARTH, t);
    let orb = anise::prelude::Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, o.epoch() + secs(t), eme2k());
    let mut s = spacecraft(orb, 500.0, 100.0, 2.0, 1.5, 2.0, 2.0);
    s.stm = Some(stm);
    s
}

/// Information form of the update: the oracle that shares no formula with the filter.
fn info_update(pbar: &M9, xbar: &V9, m: &Msr, d: &V9) -> (M9, V9) {
    let c = unscale(pbar, d);
    let ci = c.try_inverse().expect("well conditioned");
    let hs = DMatrix::from_fn(m.h.nrows(), 9, |i, j| m.h[(i, j)] * d[j]);
    let ri = m.r.clone().try_inverse().expect("R");
    let li = hs.transpose() * &ri * &hs;
    let lam = M9::from_fn(|i, j| ci[(i, j)] + li[(i, j)]);
    let pc = lam.try_inverse().expect("well conditioned");
    let innov = &m.y - &m.h * DVector::from_column_slice(xbar.as_slice());
    let b = hs.transpose() * ri * innov;
    let dx = pc * V9::from_column_slice(b.as_slice());
    let p = M9::from_fn(|i, j| pc[(i, j)] * d[i] * d[j]);
    (p, xbar + V9::from_fn(|i, _| dx[i] * d[i]))
}

fn start(c: &Hist) -> (V9, KfEstimate<Spacecraft>) {
    let d = c.sc.v();
    let u = unit_cov(c.cov, c.eps);
    let p0 = M9::from_fn(|i, j| u[(i, j)] * d[i] * d[j]);
    let mut e = KfEstimate::from_covar(nominal(&c.o, 0.0, M9::identity()), p0);
    if !c.ekf {
        let f = fill(c.cov ^ 77, 9);
        e.state_deviation = V9::from_fn(|i, _| c.dev * f[i] * d[i]);
    }
    (d, e)
}

fn psd(p: &M9, d: &V9) -> bool {
    let u = unscale(p, d);
    let s = u.trace();
    u.symmetric_eigenvalues().min() >= -1e-12 * s
}

/// Every step of a history of updates, and the history as a whole.
fn chk_history(c: &Hist) -> R {
    let (d, e0) = start(c);
    let variant = if c.ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking };
    let mut kf = KalmanFilter::<Spacecraft, Const<3>>::new(e0, variant);
    let mut t = 0.0;
    // The same history as one least squares problem at the initial epoch.
    let mut phi0 = M9::identity();
    let u0 = unit_cov(c.cov, c.eps);
    let mut lam = u0.try_inverse().unwrap();
    let mut rhs = lam * V9::from_fn(|i, _| e0.state_deviation[i] / d[i]);
    let (mut acc, mut rej) = (0, 0);
    for (k, op) in c.ops.iter().enumerate() {
        let prev = *kf.previous_estimate();
        t += op.dt;
        let phi = op.phi(&d);
        let nom = nominal(&c.o, t, phi);
        let pbar = phi * prev.covar * phi.transpose();
        let pbar = (pbar + pbar.transpose()) * 0.5;
        let xbar = if c.ekf { V9::zeros() } else { phi * prev.state_deviation };
        phi0 = phi * phi0;
        let m = op.msr(&d);
        let (est, res, mut reject) = if op.m == 0 {
            match kf.time_update(nom) {
                Ok(e) => (e, None, true),
                Err(e) => return fail("time-update-error", format!("{e}")),
            }
        } else {
            let hp = &m.h * DMatrix::from_column_slice(9, 9, pbar.as_slice()) * m.h.transpose();
            let s = &hp + &m.r;
            let si = s.clone().try_inverse().unwrap();
            let nis = (m.y.transpose() * &si * &m.y)[(0, 0)];
            let ratio = (nis / op.m as f64).sqrt();
            let crit = op.rej.map(|x| SigmaRejection { num_sigmas: x * ratio });
            let reject = op.rej.is_some_and(|x| x < 1.0) && ratio > 0.0;
            let (est, res) = update(&mut kf, nom, &m, crit)?;
            let (r, _) = res.as_ref().unwrap();
            req!(close(r.ratio, ratio, 1e-7, 1e-9), "ratio", "step {k}: ratio {} instead of {ratio}", r.ratio);
            req!(close(r.white.norm_squared(), nis, 1e-7, 1e-12), "whitened", "step {k}: whitened residual of norm {} instead of {}", r.white.norm(), nis.sqrt());
            for i in 0..op.m {
                let sg = s[(i, i)].sqrt();
                req!(close(r.trend[i], sg, 1e-9, 0.0), "innovation-sigma", "step {k} row {i}: {} instead of {sg}", r.trend[i]);
            }
            req!(r.prefit == m.y && r.real == m.real && r.comp == m.comp, "prefit", "step {k}: prefit {} real {} computed {}", r.prefit, r.real, r.comp);
            req!(r.at == nom.epoch(), "residual-epoch", "step {k}: residual at {}", r.at);
            (est, res, reject)
        };
        req!(*kf.previous_estimate() == est, "previous", "step {k}: the filter does not continue from what it returned");
        req!(est.nominal_state == nom && est.epoch() == nom.epoch(), "nominal", "step {k}: nominal state changed");
        req!(est.stm == phi, "stm", "step {k}: STM of the estimate");
        let dp = cov_diff(&pbar, &est.covar_bar);
        req!(dp < 1e-11, "predicted-covariance", "step {k}: off by {dp} of P bar");
        if let Some((r, gain)) = &res {
            req!(r.rejected == reject, "rejection", "step {k}: ratio {} threshold {:?}, rejected: {}", r.ratio, op.rej, r.rejected);
            req!(gain.is_none() == reject, "gain-rejected", "step {k}: gain of a rejected measurement");
            reject = r.rejected;
        }
        req!(est.predicted == reject, "predicted", "step {k}: predicted is {}", est.predicted);
        if reject {
            rej += (op.m > 0) as usize;
            let dp = cov_diff(&pbar, &est.covar);
            req!(dp < 1e-11, "time-update-covariance", "step {k}: off by {dp}");
            let dx = vec_diff(&xbar, &est.state_deviation, &pbar);
            req!(dx < 1e-9, "time-update-state", "step {k}: deviation off by {dx} sigma");
        } else {
            acc += 1;
            let (pw, xw) = info_update(&pbar, &xbar, &m, &d);
            let dp = cov_diff(&pw, &est.covar);
            req!(dp < 1e-6, "covariance", "step {k}: covariance off by {dp} of the information form");
            let dx = vec_diff(&xw, &est.state_deviation, &pw);
            req!(dx < 1e-6 * (1.0 + op.y / 10f64.powf(op.r)), "state", "step {k}: deviation off by {dx} sigma");
            req!(est.covar == est.covar.transpose(), "symmetry", "step {k}: covariance is not symmetric");
            req!(psd(&est.covar, &d), "positive", "step {k}: covariance is not positive");
            let red = unscale(&(pbar - est.covar), &d);
            let red = (red + red.transpose()) * 0.5;
            let worst = red.symmetric_eigenvalues().min();
            req!(worst >= -1e-10 * unscale(&pbar, &d).trace(), "information-loss", "step {k}: a measurement increases the covariance ({worst})");
            let (r, gain) = res.as_ref().unwrap();
            let gain = gain.as_ref().unwrap();
            // K = P H' R^-1
            let kw = DMatrix::from_column_slice(9, 9, pw.as_slice()) * m.h.transpose() * m.r.clone().try_inverse().unwrap();
            for j in 0..op.m {
                for i in 0..9 {
                    let sc = pw[(i, i)].sqrt() / m.r[(j, j)].sqrt();
                    req!((gain[(i, j)] - kw[(i, j)]).abs() <= 1e-6 * sc, "gain", "step {k}: K({i},{j}) = {} instead of {}", gain[(i, j)], kw[(i, j)]);
                }
            }
            if c.ekf {
                let post = &m.y - &m.h * DVector::from_column_slice(xw.as_slice());
                for j in 0..op.m {
                    req!(close(r.postfit[j], post[j], 1e-6, 1e-6 * (m.r[(j, j)].sqrt() + m.y[j].abs())), "postfit", "step {k}: postfit {} instead of {}", r.postfit[j], post[j]);
                }
            }
            // Add to the least squares problem
            let hs = DMatrix::from_fn(op.m, 9, |i, j| m.h[(i, j)] * d[j]);
            let ph = DMatrix::from_fn(9, 9, |i, j| phi0[(i, j)] * d[j] / d[i]);
            let a = hs * ph;
            let ri = m.r.clone().try_inverse().unwrap();
            let w = a.transpose() * &ri;
            let l = &w * &a;
            lam += M9::from_column_slice(l.as_slice());
            rhs += V9::from_column_slice((w * &m.y).as_slice());
        }
    }
    // History as a whole
    let fin = kf.previous_estimate();
    let pc = lam.try_inverse().unwrap();
    let x0 = pc * rhs;
    let x0 = V9::from_fn(|i, _| x0[i] * d[i]);
    let p0 = M9::from_fn(|i, j| pc[(i, j)] * d[i] * d[j]);
    let pn = phi0 * p0 * phi0.transpose();
    let cond = {
        let ev = unscale(&((pn + pn.transpose()) * 0.5), &d).symmetric_eigenvalues();
        ev.max() / ev.min().max(1e-300)
    };
    if cond < 1e7 {
        let dp = cov_diff(&pn, &fin.covar);
        req!(dp < 1e-4, "history-covariance", "covariance off by {dp} of that of the least squares of all the accepted measurements");
        if !c.ekf {
            let dx = vec_diff(&(phi0 * x0), &fin.state_deviation, &pn);
            req!(dx < 1e-3, "history-state", "deviation off by {dx} sigma of that of the least squares of all the accepted measurements");
        }
    }
    Ok(if acc > 1 && (rej > 0 || c.ops.len() > 2) { Out::Hit } else { Out::Trivial })
}

/// Uncorrelated measurements can be processed together or one after another.
fn chk_sequential(c: &Hist) -> R {
    let (d, e0) = start(c);
    let variant = if c.ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking };
    let mut op = c.ops[0].clone();
    op.full = false;
    let m = op.msr(&d);
    let phi = op.phi(&d);
    let mut joint = KalmanFilter::<Spacecraft, Const<3>>::new(e0, variant);
    let mut seq = joint.clone();
    let (je, _) = update(&mut joint, nominal(&c.o, op.dt, phi), &m, None)?;
    let mut total = V9::zeros();
    let mut last = e0;
    // In either order
    for k in 0..op.m {
        let i = if op.seed % 2 == 0 { k } else { op.m - 1 - k };
        let nom = nominal(&c.o, op.dt, if k == 0 { phi } else { M9::identity() });
        let h = DMatrix::from_fn(1, 9, |_, j| m.h[(i, j)]);
        // An EKF has already moved its reference
        let moved = (&h * DVector::from_column_slice(total.as_slice()))[0];
        let one = Msr {
            y: DVector::from_element(1, m.y[i] - moved),
            real: DVector::from_element(1, m.real[i]),
            comp: DVector::from_element(1, m.comp[i] + moved),
            h,
            r: DMatrix::from_element(1, 1, m.r[(i, i)]),
        };
        let (e, _) = update(&mut seq, nom, &one, None)?;
        if c.ekf {
            total += e.state_deviation;
        }
        last = e;
    }
    if !c.ekf {
        total = last.state_deviation;
    }
    let dp = cov_diff(&je.covar, &last.covar);
    req!(dp < 1e-6, "sequential-covariance", "processing together or in sequence differs by {dp}");
    let dx = vec_diff(&je.state_deviation, &total, &je.covar);
    req!(dx < 1e-5 * (1.0 + op.y / 10f64.powf(op.r)), "sequential-state", "processing together or in sequence differs by {dx} sigma");
    Ok(if op.m > 1 && op.y > 0.0 { Out::Hit } else { Out::Trivial })
}

fn p20() -> Prop {
    Prop {
        id: "P20",
        assumptions: &["well-conditioned covariances (condition number below 1e7 in units of the standard deviations)", "the ratio and the postfit of a deviation tracking filter with a non-zero deviation are those of its prefit as coded; only its state and covariance are claimed"],
        subs: vec![
            sub("history", "at least two accepted measurements among three updates, or with a rejection", 200_000, 3_000_000, || hists(0, 1..9), chk_history),
            sub("sequential", "several measurements, non-zero prefit", 100_000, 2_000_000, || hists(1, 1..2), chk_sequential),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// P24
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Noise {
    diag: [f64; 3],
    disable: f64,
    start: Option<f64>,
    decay: Option<[f64; 3]>,
    /// 0: none, 1: inertial, 2: RIC, 3: RCN, 4: VNC
    frame: u8,
}

fn noises(tmax: f64) -> BoxedStrategy<Noise> {
    (
        prop::array::uniform3(prop_oneof![1 => Just(0.0), 6 => (-18.0..-8.0f64).prop_map(|x| 10f64.powf(x))]),
        prop_oneof![2 => 1.0..600.0f64, 2 => 600.0..1e5f64],
        prop_oneof![1 => Just(None), 2 => (-100.0..tmax).prop_map(Some)],
        prop_oneof![1 => Just(None), 2 => prop::array::uniform3(prop_oneof![Just(0.0), (-6.0..-2.0f64).prop_map(|x| 10f64.powf(x))]).prop_map(Some)],
        0u8..5,
    )
        .prop_map(|(diag, disable, start, decay, frame)| Noise { diag, disable: rnd3(disable), start: start.map(rnd3), decay, frame })
        .boxed()
}

impl Noise {
    fn build(&self, t0: hifitime::Epoch) -> ProcessNoise3D {
        let lf = match self.frame {
            0 => None,
            1 => Some(LocalFrame::Inertial),
            2 => Some(LocalFrame::RIC),
            3 => Some(LocalFrame::RCN),
            _ => Some(LocalFrame::VNC),
        };
        let dis = secs(self.disable);
        let mut n = match (&self.decay, self.start, lf) {
            (Some(d), ..) => ProcessNoise3D::with_decay(&self.diag, dis, d, lf),
            (None, Some(s), None) => ProcessNoise3D::with_start_time(dis, &self.diag, t0 + secs(s)),
            _ => ProcessNoise3D::from_diagonal(&self.diag, dis, lf),
        };
        n.start_time = self.start.map(|s| t0 + secs(s));
        n
    }
    /// What it adds to the covariance after a gap, `t` seconds after the start of the filter.
    fn q(&self, t: f64, gap: f64, r: &V3, v: &V3) -> Option<M9> {
        if self.start.is_some_and(|s| s > t) || gap > self.disable {
            return None;
        }
        let mut a = V3::from_column_slice(&self.diag);
        if let Some(d) = &self.decay {
            for i in 0..3 {
                a[i] *= (-d[i] * t).exp();
            }
        }
        let h = r.cross(v).normalize();
        let b = match self.frame {
            2 | 3 => {
                let rh = r.normalize();
                Matrix3::from_columns(&[rh, h.cross(&rh), h])
            }
            4 => {
                let vh = v.normalize();
                Matrix3::from_columns(&[vh, h, vh.cross(&h)])
            }
            _ => Matrix3::identity(),
        };
        let mut q = M9::zeros();
        for i in 0..3 {
            // variance along the i-th inertial axis
            let s: f64 = (0..3).map(|k| b[(i, k)].powi(2) * a[k]).sum();
            q[(i, i)] = gap.powi(4) / 4.0 * s;
            q[(i, i + 3)] = gap.powi(3) / 2.0 * s;
            q[(i + 3, i)] = q[(i, i + 3)];
            q[(i + 3, i + 3)] = gap * gap * s;
        }
        Some(q)
    }
    /// Too close to one of its switches to tell.
    fn near(&self, t: f64, gap: f64) -> bool {
        self.start.is_some_and(|s| (s - t).abs() < 1e-6) || (gap - self.disable).abs() < 1e-6
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NoiseCase {
    o: GenOrbit,
    n: Noise,
    t: f64,
    gap: f64,
    prev: bool,
}

fn noise_cases() -> BoxedStrategy<NoiseCase> {
    (leo_to_geo(), noises(2000.0), prop_oneof![1 => Just(0.0), 6 => 0.0..2000.0f64], prop_oneof![1 => Just(0.0), 4 => 0.0..800.0f64], any::<bool>())
        .prop_map(|(o, n, t, gap, prev)| NoiseCase { o, n, t: rnd3(t), gap: rnd3(gap), prev })
        .boxed()
}

fn same_q(want: &M9, got: &M9) -> Option<(usize, usize)> {
    for i in 0..9 {
        for j in 0..9 {
            // Rounding of the rotation mixes the axes of a block
            let tr = want[(i % 3 + 3 * (i / 3), i % 3 + 3 * (i / 3))].abs().max((want[(0, 0)] + want[(1, 1)] + want[(2, 2)]) * if i < 3 && j < 3 { 1.0 } else { 0.0 });
            if !close(want[(i, j)], got[(i, j)], 1e-9, 1e-12 * tr) {
                return Some((i, j));
            }
        }
    }
    None
}

/// The process noise by itself.
fn chk_noise(c: &NoiseCase) -> R {
    let t0 = c.o.epoch();
    let mut n = c.n.build(t0);
    n.init_epoch = Some(t0);
    if c.prev {
        n.prev_epoch = Some(t0 + secs(c.t) - secs(c.gap));
    }
    if c.n.near(c.t, c.gap) {
        return Ok(Out::Discard);
    }
    let nom = nominal(&c.o, c.t, M9::identity());
    let (r, v) = (nom.orbit.radius_km, nom.orbit.velocity_km_s);
    let want = c.n.q(c.t, secs(c.gap).to_seconds(), &r, &v);
    let got = match n.propagate::<Const<9>>(nom.orbit, secs(c.gap)) {
        Ok(q) => q,
        Err(e) => return fail("error", format!("{e}")),
    };
    match (&want, &got) {
        (None, None) => {}
        (Some(w), Some(g)) => {
            if let Some((i, j)) = same_q(w, g) {
                return fail("value", format!("Q({i},{j}) is {:e} instead of {:e}", g[(i, j)], w[(i, j)]));
            }
        }
        _ => return fail("applicable", format!("process noise: {got:?}, expected {want:?}")),
    }
    // And its acceleration covariance, in its own frame.
    let m = n.to_matrix(nom.epoch());
    let expect_none = c.n.start.is_some_and(|s| s > c.t) || (c.prev && c.gap > c.n.disable);
    req!(m.is_none() == expect_none, "matrix-applicable", "matrix {m:?} {} s after the start and {} s after the previous", c.t, c.gap);
    if let Some(m) = m {
        for i in 0..3 {
            for j in 0..3 {
                let w = if i == j { c.n.diag[i] * c.n.decay.map_or(1.0, |d| (-d[i] * c.t).exp()) } else { 0.0 };
                req!(close(m[(i, j)], w, 1e-9, 0.0), "matrix", "entry ({i},{j}) is {:e} instead of {w:e}", m[(i, j)]);
            }
        }
    }
    Ok(if want.is_some() && c.gap > 0.0 { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NoiseHist {
    h: Hist,
    n: Vec<Noise>,
    /// How the list is given
    api: u8,
}

fn noise_hists() -> BoxedStrategy<NoiseHist> {
    (hists(0, 2..9), prop::collection::vec(noises(1500.0), 1..4), 0u8..2).prop_map(|(h, n, api)| NoiseHist { h, n, api }).boxed()
}

/// Process noises in a filter: the last of the list which applies, once per update.
fn chk_noise_filter(c: &NoiseHist) -> R {
    let (d, e0) = start(&c.h);
    let t0 = e0.epoch();
    let variant = if c.h.ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking };
    let mut kf = if c.api == 0 {
        // Replaced by the next call
        KalmanFilter::from_process_noise(e0, variant, ProcessNoise3D::from_diagonal(&[1.0; 3], secs(1e6), None)).with_process_noise(c.n[0].build(t0))
    } else {
        KalmanFilter::from_process_noise(e0, variant, c.n[0].build(t0))
    };
    for n in &c.n[1..] {
        kf = kf.and_with_process_noise(n.build(t0));
    }
    let mut t = 0.0;
    let mut applied = 0;
    for (k, op) in c.h.ops.iter().enumerate() {
        let prev = *kf.previous_estimate();
        t += op.dt;
        if c.n.iter().any(|n| n.near(t, op.dt)) {
            return Ok(Out::Discard);
        }
        let phi = op.phi(&d);
        let nom = nominal(&c.h.o, t, phi);
        let mut pbar = phi * prev.covar * phi.transpose();
        let gap = (nom.epoch() - prev.epoch()).to_seconds();
        let q = c.n.iter().rev().find_map(|n| n.q(t, gap, &nom.orbit.radius_km, &nom.orbit.velocity_km_s));
        if let Some(q) = &q {
            pbar += q;
            applied += (q[(0, 0)] > 1e-9 * pbar[(0, 0)]) as usize;
        }
        let m = op.msr(&d);
        let est = if op.m == 0 {
            match kf.time_update(nom) {
                Ok(e) => e,
                Err(e) => return fail("time-update-error", format!("{e}")),
            }
        } else {
            // Reject all or none
            let crit = op.rej.map(|x| SigmaRejection { num_sigmas: if x < 1.0 { 0.0 } else { 1e12 } });
            update(&mut kf, nom, &m, crit)?.0
        };
        let dp = cov_diff(&pbar, &est.covar_bar);
        req!(dp < 1e-9, "covariance", "step {k} ({} s): predicted covariance off by {dp}; with noise {q:?}", op.dt);
        let rejected = op.m == 0 || (op.rej.is_some_and(|x| x < 1.0) && m.y.norm() > 0.0);
        if rejected {
            let dp = cov_diff(&pbar, &est.covar);
            req!(dp < 1e-9, "covariance-time-update", "step {k}: covariance off by {dp}");
        }
    }
    Ok(if applied > 0 { Out::Hit } else { Out::Trivial })
}

fn p24() -> Prop {
    Prop {
        id: "P24",
        assumptions: &["three-dimensional process noise on a spacecraft", "gaps and start times more than 1 µs away from the switches of the noise", "the rotated noise keeps only its diagonal (documented in the code)"],
        subs: vec![
            sub("matrix", "the noise applies, over a non-zero gap", 300_000, 6_000_000, noise_cases, chk_noise),
            sub("filter", "at least one update where the noise weighs more than 1e-9 of the covariance", 150_000, 3_000_000, noise_hists, chk_noise_filter),
        ],
    }
}
