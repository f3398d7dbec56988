//! P30 ground assets: geometry, motion, estimation and export.
use crate::fw::*;
use crate::p_dyn::err;
use crate::p_msr::site;
use crate::pq;
use crate::req;
use crate::world::*;
use hifitime::Epoch;
use nalgebra::{Const, SMatrix, SVector, Vector3};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::io::ExportCfg;
use nyx_space::md::StateParameter;
use nyx_space::md::trajectory::{Interpolatable, Traj};
use nyx_space::od::TrackingDevice;
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::od::groundpnt::GroundAsset;
use nyx_space::od::groundpnt::ground_dynamics::GroundDynamics;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::kalman::KalmanVariant;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use nyx_space::od::noise::{StochasticNoise, WhiteNoise};
use nyx_space::od::process::KalmanODProcess;
use nyx_space::propagators::{IntegratorOptions, Propagator};
use anise::analysis::prelude::OrbitalElement;
use anise::prelude::Frame;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const PROPS: &[fn() -> Prop] = &[p30];

type V3 = Vector3<f64>;
type V6 = SVector<f64, 6>;
type M6 = SMatrix<f64, 6, 6>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asset {
    lat: f64,
    lon: f64,
    h: f64,
    rate: [f64; 3], // deg/s, deg/s, km/s
    t: f64,
    moon: bool,
}

impl Asset {
    fn frame(&self) -> Frame {
        if self.moon { iau_moon() } else { iau_earth() }
    }
    fn radii(&self) -> (f64, f64) {
        if self.moon { (1737.4, 1737.4) } else { (6378.1366, 6356.7519) }
    }
    fn build(&self) -> GroundAsset {
        let mut a = GroundAsset::from_fixed(self.lat, self.lon, self.h, ep(self.t), self.frame());
        a.latitude_rate_deg_s = self.rate[0];
        a.longitude_rate_deg_s = self.rate[1];
        a.height_rate_km_s = self.rate[2];
        a
    }
    fn x(&self) -> V6 {
        V6::new(self.lat, self.lon, self.h, self.rate[0], self.rate[1], self.rate[2])
    }
}

fn assets() -> BoxedStrategy<Asset> {
    (
        prop_oneof![6 => -89.0..89.0f64, 1 => Just(0.0), 1 => -89.9..-89.0f64],
        -180.0..360.0f64,
        prop_oneof![-1.0..10.0f64, Just(0.0), 0.0..400.0f64],
        (prop_oneof![-1e-4..1e-4f64, Just(0.0), -2e-2..2e-2f64], prop_oneof![-1e-4..1e-4f64, Just(0.0), -2e-2..2e-2f64], prop_oneof![-1e-3..1e-3f64, Just(0.0)]),
        0.0..2e6f64,
        prop::bool::weighted(0.3),
    )
        .prop_map(|(lat, lon, h, r, t, moon)| Asset { lat, lon, h, rate: [r.0, r.1, r.2], t, moon })
        .boxed()
}

/// Body fixed position and velocity of a moving geodetic point.
fn cart(x: &V6, (a, b): (f64, f64)) -> (V3, V3) {
    let (r, ax) = site(x[0], x[1], x[2], a, b);
    let (s, c) = x[0].to_radians().sin_cos();
    let e2 = 1.0 - (b / a).powi(2);
    let w = 1.0 - e2 * s * s;
    let n = a / w.sqrt();
    let m = a * (1.0 - e2) / w.powf(1.5);
    let v = -ax.column(0) * ((m + x[2]) * x[3].to_radians()) + ax.column(1) * ((n + x[2]) * c * x[4].to_radians()) + ax.column(2) * x[5];
    (r, v)
}

fn chk_geometry(c: &(Asset, Asset, [f64; 3])) -> R {
    let (g, g2, sez) = c;
    let a = g.build();
    let rad = g.radii();
    let (r, v) = cart(&g.x(), rad);
    let o = a.orbit();
    req!((o.radius_km - r).norm() < 1e-9, "orbit", "position {:?} instead of {r:?}", o.radius_km);
    req!(o.epoch == ep(g.t) && o.frame.orientation_id == g.frame().orientation_id && o.frame.ephemeris_id == g.frame().ephemeris_id, "orbit-tag", "{o}");
    let l = a.to_location();
    req!(l.latitude_deg == g.lat && l.longitude_deg == g.lon && l.height_km == g.h, "location", "{l:?} for {g:?}");
    for (e, w) in [(OrbitalElement::Latitude, g.lat), (OrbitalElement::Longitude, g.lon), (OrbitalElement::Height, g.h)] {
        let got = a.value(StateParameter::Element(e)).map_err(err)?;
        req!(got == w, "value", "{e:?} is {got} instead of {w}");
    }
    // Velocity along south, east and up
    let (_, ax) = site(g.lat, g.lon, g.h, rad.0, rad.1);
    let want = ax.transpose() * v * 1e3;
    let got = a.velocity_sez_m_s().map_err(err)?;
    let got = V3::new(got[0], got[1], got[2]);
    req!((got - want).norm() <= 1e-9 * want.norm() + 1e-12, "velocity", "velocity {got:?} m/s instead of {want:?}");
    let m = match a.with_velocity_sez_m_s(sez[0], sez[1], sez[2]) {
        Ok(m) => m,
        Err(e) => return fail("error", format!("{e}")),
    };
    let x = V6::new(m.latitude_deg, m.longitude_deg, m.height_km, m.latitude_rate_deg_s, m.longitude_rate_deg_s, m.height_rate_km_s);
    req!(x[0] == g.lat && x[1] == g.lon && x[2] == g.h && m.epoch == a.epoch, "moved", "{m:?} from {a:?}");
    let (_, mv) = cart(&x, rad);
    let got = ax.transpose() * mv * 1e3;
    let s = V3::new(sez[0], sez[1], sez[2]);
    req!((got - s).norm() <= 1e-9 * s.norm(), "rates", "asked to move at {s:?} m/s, moves at {got:?}");
    // Partials of the position and velocity
    let j = a.geodetic_to_cartesian_jacobian().map_err(err)?;
    for k in 0..6 {
        let h = [1e-2, 1e-2, 1.0, 1e-3, 1e-3, 1e-3][k];
        let at = |d: f64| {
            let mut x = g.x();
            x[k] += d * h;
            let (r, v) = cart(&x, rad);
            V6::new(r.x, r.y, r.z, v.x, v.y, v.z)
        };
        let w = (8.0 * (at(1.0) - at(-1.0)) - (at(2.0) - at(-2.0))) / (12.0 * h);
        for i in 0..6 {
            let unit = if k % 3 < 2 { 112.0 } else { 1.0 };
            let scale = if i < 3 || k >= 3 { unit } else { unit * v.norm() / rad.0 * 2.0 + unit * 1e-6 };
            req!((j[(i, k)] - w[i]).abs() <= 2e-9 * scale + 1e-13, "jacobian", "partial of {i} with respect to {k} is {} instead of {}", j[(i, k)], w[i]);
        }
    }
    // Distance along a great circle
    let u = |g: &Asset| {
        let (s, c) = g.lat.to_radians().sin_cos();
        let (t, k) = g.lon.to_radians().sin_cos();
        V3::new(c * k, c * t, s)
    };
    let (u1, u2) = (u(g), u(g2));
    let want = rad.0 * u1.cross(&u2).norm().atan2(u1.dot(&u2));
    let b = GroundAsset { frame: g.frame(), ..g2.build() };
    let d1 = a.great_circle_distance_km(&b).map_err(err)?;
    let d2 = b.great_circle_distance_km(&a).map_err(err)?;
    req!((d1 - want).abs() < 1e-4 && (d1 - d2).abs() < 1e-4, "great-circle", "{d1} km and {d2} km instead of {want}");
    req!(a.great_circle_distance_km(&a).map_err(err)? == 0.0, "great-circle-self", "not at zero distance from itself");
    Ok(if v.norm() > 0.0 { Out::Hit } else { Out::Trivial })
}

fn chk_state(c: &(Asset, Vec<f64>, f64, bool)) -> R {
    let (g, f, dt, with) = c;
    let mut a = g.build();
    req!(a.stm.is_none() && a.stm().is_err(), "no-stm", "a new asset has a transition matrix");
    if *with {
        a = a.with_stm();
        req!(a.stm().map_err(err)? == M6::identity(), "stm", "{:?}", a.stm);
    }
    let v = a.to_vector();
    for i in 0..6 {
        req!(v[i] == g.x()[i], "vector", "item {i} is {} instead of {}", v[i], g.x()[i]);
    }
    // Any vector set is read back as it is
    let mut w = v;
    for i in 0..6 {
        w[i] = f[i];
    }
    for i in 6..42 {
        w[i] = f[i];
    }
    let e = ep(g.t + dt);
    let mut b = a;
    b.set(e, &w);
    req!(b.epoch() == e && b.frame == a.frame, "set-tag", "{b:?}");
    let back = b.to_vector();
    for i in 0..42 {
        let want = if i < 6 || *with { w[i] } else { 0.0 };
        req!(back[i] == want, "set", "item {i} set to {want} is {}", back[i]);
    }
    if *with {
        let m = b.stm().map_err(err)?;
        req!(m == M6::from_column_slice(&f[6..42]), "set-stm", "{m}");
        b.reset_stm();
        req!(b.stm().map_err(err)? == M6::identity(), "reset", "{:?}", b.stm);
        b.unset_stm();
        req!(b.stm.is_none(), "unset", "{:?}", b.stm);
    }
    // Deviations add up item by item
    let d = V6::from_column_slice(&f[..6]);
    let p = a + d;
    let q = State::add(a, d);
    for i in 0..6 {
        req!(p.to_vector()[i] == g.x()[i] + d[i] && q.to_vector()[i] == p.to_vector()[i], "add", "item {i}: {} instead of {}", p.to_vector()[i], g.x()[i] + d[i]);
    }
    req!(p.epoch == a.epoch && p.frame == a.frame && p.stm == a.stm, "add-tag", "{p:?}");
    let mut s = a;
    s.set_epoch(e);
    req!(s.epoch == e && GroundAsset { epoch: a.epoch, ..s } == a, "set-epoch", "{s:?}");
    Ok(if *with { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Walk {
    a: Asset,
    dt: f64,
    step: Option<f64>,
    at: Vec<f64>,
    phi: Vec<f64>,
}

fn walks() -> BoxedStrategy<Walk> {
    (assets(), prop_oneof![1.0..2e4f64, -2e4..-1.0f64], prop::option::of(10.0..1000.0f64), prop::collection::vec(0.0..1.0f64, 1..6), prop::collection::vec(-1.0..1.0f64, 36))
        .prop_map(|(a, dt, step, at, phi)| Walk { a, dt, step, at, phi })
        .boxed()
}

/// An asset moves at constant rates of latitude, longitude and height, whatever the integrator does.
fn chk_walk(c: &Walk) -> R {
    let al = almanac();
    let mut a0 = c.a.build();
    let m0 = M6::from_column_slice(&c.phi);
    a0.stm = Some(m0);
    let opts = match c.step {
        Some(s) => IntegratorOptions::with_fixed_step_s(s),
        None => IntegratorOptions::default(),
    };
    let p = Propagator::rk89(GroundDynamics {}, opts);
    let dt = secs(c.dt);
    let (end, traj) = p.with(a0, al.clone()).quiet().for_duration_with_traj(dt).map_err(err)?;
    let tol = |x: f64| 1e-11 * (x.abs() + 1.0);
    let check = |what: &'static str, s: &GroundAsset, t: f64| -> Result<(), Fail> {
        let v = s.to_vector();
        for i in 0..6 {
            let w = if i < 3 { c.a.x()[i] + c.a.rate[i] * t } else { c.a.rate[i - 3] };
            if (v[i] - w).abs() > tol(w) {
                return fail(what, format!("after {t} s, item {i} is {} instead of {w}", v[i]));
            }
        }
        Ok(())
    };
    req!(end.epoch() == a0.epoch + dt, "epoch", "asked for {dt}, went {}", end.epoch() - a0.epoch);
    check("motion", &end, dt.to_seconds())?;
    // Transition: position deviations grow with the rate deviations
    let mut f = M6::identity();
    for i in 0..3 {
        f[(i, i + 3)] = dt.to_seconds();
    }
    let want = f * m0;
    let got = end.stm().map_err(err)?;
    req!((got - want).norm() <= 1e-10 * want.norm() + 1e-9, "stm", "transition over {dt}: {got} instead of {want}");
    let plain = p.with(c.a.build(), al.clone()).quiet().for_duration(dt).map_err(err)?;
    req!(plain.stm.is_none(), "stm-unset", "a transition matrix appeared");
    check("motion-plain", &plain, dt.to_seconds())?;
    for u in &c.at {
        let d = secs((c.dt * u * 1e3).trunc() / 1e3);
        let s = traj.at(a0.epoch + d).map_err(err)?;
        req!(s.epoch() == a0.epoch + d && s.frame() == a0.frame, "interp-tag", "{s:?}");
        let v = s.to_vector();
        // Rates come from epochs only resolved to a fraction of a microsecond.
        let gap = traj.states.windows(2).filter(|w| w[0].epoch() <= s.epoch() && s.epoch() <= w[1].epoch()).map(|w| (w[1].epoch() - w[0].epoch()).to_seconds()).fold(f64::INFINITY, f64::min);
        for i in 0..6 {
            let t = d.to_seconds();
            let w = if i < 3 { c.a.x()[i] + c.a.rate[i] * t } else { c.a.rate[i - 3] };
            req!((v[i] - w).abs() <= if i < 3 { 1e-8 } else { 1e-9 + 3e-7 * w.abs() / gap }, "interpolation", "at {t} s, item {i} is {} instead of {w}", v[i]);
        }
    }
    Ok(if c.a.rate.iter().any(|x| *x != 0.0) { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pnt {
    sats: Vec<GenOrbit>,
    off: [f64; 2],
    rate: [f64; 3],
    h: f64,
    gaps: Vec<(u16, u8)>,
    err0: [f64; 6],
    sig: [f64; 6],
    noise: f64,
    z: Vec<f64>,
    ckf: bool,
    max_step: f64,
    from: Option<u8>,
    to: Option<u8>,
}

fn pnts() -> BoxedStrategy<Pnt> {
    (
        prop::collection::vec(orbits(20000.0, 30000.0, 0.1), 1..4),
        prop::array::uniform2(-25.0..25.0f64),
        prop::array::uniform3(-1.0..1.0f64),
        0.0..5.0f64,
        prop::collection::vec((5u16..400, 0u8..3), 4..14),
        prop::array::uniform6(-1.0..1.0f64),
        (0.001..0.05f64, 0.001..0.05f64, 0.001..0.5f64, prop_oneof![Just(0.0), 1e-7..1e-5f64], prop_oneof![Just(0.0), 1e-7..1e-5f64], prop_oneof![Just(0.0), 1e-6..1e-4f64]),
        (1e-4..0.1f64, prop::collection::vec(-1.5..1.5f64, 14), prop::bool::weighted(0.3), 20.0..300.0f64),
        prop::option::weighted(0.4, 0u8..14),
        prop::option::weighted(0.4, 0u8..14),
    )
        .prop_map(|(mut sats, off, rate, h, gaps, err0, s, (noise, z, ckf, max_step), from, to)| {
            // All satellites start together, over the same side of the Earth.
            for i in 1..sats.len() {
                let k = i as f64;
                let (raan, aop, ta) = (sats[0].raan, sats[0].aop, sats[0].ta);
                sats[i].t0_s = sats[0].t0_s;
                sats[i].inc = (sats[0].inc + 12.0 * k).min(150.0);
                sats[i].raan = raan + 20.0 * k;
                sats[i].aop = aop;
                sats[i].ta = ta - 15.0 * k;
            }
            Pnt { sats, off, rate, h, gaps, err0, sig: [s.0, s.1, s.2, s.3, s.4, s.5], noise, z, ckf, max_step, from, to }
        })
        .boxed()
}

impl Pnt {
    fn t0(&self) -> Epoch {
        self.sats[0].epoch()
    }
    fn sat(&self, i: usize, t: f64) -> V3 {
        let o = self.sats[i].earth();
        let (r, v) = kepler(o.radius_km, o.velocity_km_s, MU_EARTH, t);
        let mut p = o;
        p.radius_km = r;
        p.velocity_km_s = v;
        p.epoch = self.t0() + secs(t);
        almanac().transform_to(p, iau_earth(), None).unwrap().radius_km
    }
    fn traj(&self, i: usize, end: f64) -> Traj<Spacecraft> {
        let o = self.sats[i].earth();
        let mut t = Traj::new();
        let n = (end / 60.0).ceil() as i64 + 14;
        for k in -14..n {
            let (r, v) = kepler(o.radius_km, o.velocity_km_s, MU_EARTH, 60.0 * k as f64);
            let mut p = o;
            p.radius_km = r;
            p.velocity_km_s = v;
            p.epoch = self.t0() + secs(60.0 * k as f64);
            t.states.push(spacecraft(p, 100.0, 0.0, 1.0, 1.0, 1.0, 2.0));
        }
        t.finalize();
        t.name = Some(format!("sat{i}"));
        t
    }
    fn truth0(&self) -> V6 {
        let r = self.sat(0, 0.0);
        let lat = ((r.z / r.norm()).asin().to_degrees() + self.off[0]).clamp(-80.0, 80.0);
        let lon = r.y.atan2(r.x).to_degrees() + self.off[1];
        let k = |i: usize| if self.sig[3 + i] > 0.0 { self.rate[i] * 10.0 * self.sig[3 + i] } else { self.rate[i] * 1e-5 };
        V6::new(lat, lon, self.h, k(0), k(1), k(2))
    }
    fn range_el(&self, x: &V6, i: usize, t: f64) -> (f64, f64) {
        let (r, ax) = site(x[0], x[1], x[2], 6378.1366, 6356.7519);
        let d = self.sat(i, t) - r;
        (d.norm(), (d.dot(&ax.column(2)) / d.norm()).asin().to_degrees())
    }
    fn device(&self, i: usize, end: f64, types: &[MeasurementType]) -> InterlinkTxSpacecraft {
        InterlinkTxSpacecraft {
            traj: self.traj(i, end),
            measurement_types: types.iter().cloned().collect(),
            integration_time: None,
            timestamp_noise_s: None,
            stochastic_noises: Some(types.iter().map(|t| (*t, StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: if *t == MeasurementType::Range { self.noise } else { 1e-3 * self.noise } }), bias: None })).collect()),
            ab_corr: None,
        }
    }
    /// Epochs (in seconds), satellites and measured ranges.
    fn msrs(&self) -> Vec<(f64, usize, f64)> {
        let mut t = 0.0;
        let mut v = Vec::new();
        for (k, (gap, who)) in self.gaps.iter().enumerate() {
            t += *gap as f64;
            let i = *who as usize % self.sats.len();
            let mut x = self.truth0();
            for j in 0..3 {
                x[j] += x[j + 3] * t;
            }
            let (r, el) = self.range_el(&x, i, t);
            if el > 4.0 {
                v.push((t, i, r + self.z[k % self.z.len()] * self.noise));
            }
        }
        v
    }
    fn initial(&self) -> KfEstimate<GroundAsset> {
        let t = self.truth0();
        let mut g = GroundAsset::from_fixed(0.0, 0.0, 0.0, self.t0(), iau_earth());
        let mut w = g.to_vector();
        for i in 0..6 {
            w[i] = t[i] + self.err0[i] * self.sig[i];
        }
        g.set(self.t0(), &w);
        KfEstimate::from_diag(g, V6::from_fn(|i, _| self.sig[i].powi(2)))
    }
    fn run<const M: usize>(&self, types: &[MeasurementType]) -> Result<Option<Solved<M>>, Fail> {
        let ms = self.msrs();
        if ms.len() < 2 {
            return Ok(None);
        }
        let end = ms.last().unwrap().0;
        let mut devs = BTreeMap::new();
        for i in 0..self.sats.len() {
            devs.insert(format!("trk{i}"), self.device(i, end, types));
        }
        let mut arc = TrackingDataArc { measurements: vec![], source: None, moduli: None, force_reject: false };
        for (k, (t, i, z)) in ms.iter().enumerate() {
            let mut m = Measurement::new(format!("trk{i}"), self.t0() + secs(*t));
            for ty in types {
                // A row may lack a type
                if *ty == MeasurementType::Doppler {
                    if k % 4 != 3 {
                        let mut x = self.truth0();
                        for j in 0..3 {
                            x[j] += x[j + 3] * t;
                        }
                        let g = GroundAsset::from_fixed(x[0], x[1], x[2], self.t0() + secs(*t), iau_earth());
                        let dev: &mut InterlinkTxSpacecraft = devs.get_mut(&format!("trk{i}")).unwrap();
                        if let Some(d) = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure_instantaneous(dev, g, None, &almanac()).map_err(err)? {
                            m.push(*ty, d.data[ty] + 1e-3 * self.noise * self.z[k % self.z.len()]);
                        }
                    }
                } else {
                    m.push(*ty, *z);
                }
            }
            arc.measurements.push(m);
        }
        let mut od = KalmanODProcess::<_, Const<M>, Const<3>, InterlinkTxSpacecraft>::new(
            Propagator::default(GroundDynamics {}),
            if self.ckf { KalmanVariant::DeviationTracking } else { KalmanVariant::ReferenceUpdate },
            None,
            devs,
            almanac(),
        );
        od.max_step = secs(self.max_step);
        match od.process_arc(self.initial(), &arc) {
            Ok(s) => Ok(Some(s)),
            Err(e) => fail("process-error", format!("{e}")),
        }
    }
}

type Solved<const M: usize> = nyx_space::od::process::ODSolution<GroundAsset, KfEstimate<GroundAsset>, Const<M>, InterlinkTxSpacecraft>;

/// Positioning from ranges, against a filter of our own.
fn chk_filter(c: &Pnt) -> R {
    let ms = c.msrs();
    let Some(sol) = c.run::<1>(&[MeasurementType::Range])? else { return Ok(Out::Discard) };
    let e0 = c.initial();
    let v0 = e0.nominal_state.to_vector();
    let mut x = V6::from_fn(|i, _| v0[i]);
    let mut dev = V6::zeros();
    let mut p = M6::from_diagonal(&V6::from_fn(|i, _| c.sig[i].powi(2)));
    let mut t = 0.0;
    let mut k_est = 0;
    let r = c.noise * c.noise;
    let f_of = |dt: f64| {
        let mut f = M6::identity();
        for i in 0..3 {
            f[(i, i + 3)] = dt;
        }
        f
    };
    for (tm, i, z) in &ms {
        // Time updates up to the measurement
        loop {
            req!(k_est < sol.estimates.len(), "missing", "no estimate for the measurement at {tm} s");
            let e = &sol.estimates[k_est];
            let te = (e.epoch() - c.t0()).to_seconds();
            req!(te > t - 1e-6 && te <= tm + 1e-6, "chronology", "estimate at {te} s between {t} s and {tm} s");
            let f = f_of(te - t);
            x = f * x;
            dev = f * dev;
            p = f * p * f.transpose();
            t = te;
            let upd = sol.residuals[k_est].is_some();
            if upd {
                req!((te - tm).abs() < 1e-6, "early", "updated at {te} s with the measurement of {tm} s");
                let (y, el) = c.range_el(&x, *i, t);
                if el < 1.0 {
                    return Ok(Out::Discard);
                }
                let mut h = SMatrix::<f64, 1, 6>::zeros();
                for j in 0..3 {
                    let s = if j < 2 { 1e-3 } else { 0.1 };
                    let at = |d: f64| {
                        let mut q = x;
                        q[j] += d * s;
                        c.range_el(&q, *i, t).0
                    };
                    h[j] = (at(1.0) - at(-1.0)) / (2.0 * s);
                }
                let s = (h * p * h.transpose())[0] + r;
                let k = p * h.transpose() / s;
                let pre = z - y;
                let res = sol.residuals[k_est].as_ref().unwrap();
                let got = res.prefit(MeasurementType::Range);
                let wp = if c.ckf { pre } else { pre };
                req!(got.is_some_and(|g| (g - wp).abs() < 1e-5 + 1e-6 * wp.abs()), "prefit", "prefit {got:?} instead of {wp} at {t} s");
                req!(res.tracker.as_deref() == Some(format!("sat{i}").as_str()), "tracker", "{:?}", res.tracker);
                if c.ckf {
                    dev += k * (pre - (h * dev)[0]);
                } else {
                    x += k * pre;
                }
                let a = M6::identity() - k * h;
                p = a * p * a.transpose() + k * r * k.transpose();
                p = (p + p.transpose()) * 0.5;
            }
            let tot = x + dev;
            let got = e.state().to_vector();
            for j in 0..6 {
                let lim = 1e-3 * p[(j, j)].sqrt() + [1e-7, 1e-7, 1e-5, 1e-11, 1e-11, 1e-9][j];
                req!((got[j] - tot[j]).abs() <= lim, "state", "at {t} s, item {j} of the estimate is {} instead of {} (sigma {:e}, updated {upd})", got[j], tot[j], p[(j, j)].sqrt());
                for l in 0..6 {
                    let s = (p[(j, j)] * p[(l, l)]).sqrt();
                    let floor = [1e-9, 1e-9, 1e-7, 1e-13, 1e-13, 1e-11];
                    req!((e.covar[(j, l)] - p[(j, l)]).abs() <= 1e-4 * s + floor[j] * floor[l], "covariance", "at {t} s, covariance ({j}, {l}) is {:e} instead of {:e} (sigmas {s:e}, updated {upd})", e.covar[(j, l)], p[(j, l)]);
                }
            }
            k_est += 1;
            if upd {
                break;
            }
        }
    }
    req!(k_est == sol.estimates.len(), "extra", "{} estimates instead of {k_est}", sol.estimates.len());
    Ok(if ms.len() >= 3 { Out::Hit } else { Out::Trivial })
}

/// The file holds the estimates of the requested span, line by line.
fn chk_export(c: &Pnt) -> R {
    let ty = [MeasurementType::Range, MeasurementType::Doppler];
    let Some(sol) = c.run::<2>(&ty)? else { return Ok(Out::Discard) };
    let pick = |k: u8| sol.estimates[k as usize * (sol.estimates.len() - 1) / 13].epoch();
    let (from, to) = (c.from.map(pick), c.to.map(pick));
    let keep: Vec<usize> = (0..sol.estimates.len())
        .filter(|i| {
            let e = sol.estimates[*i].epoch();
            from.is_none_or(|f| e >= f) && to.is_none_or(|t| e <= t)
        })
        .collect();
    let path = scratch_file("parquet");
    let cfg = ExportCfg { start_epoch: from, end_epoch: to, ..Default::default() };
    if let Err(e) = sol.to_parquet(&path, cfg) {
        return fail("export-error", format!("{} estimates, {} to keep: {e}", sol.estimates.len(), keep.len()));
    }
    let tab = match pq::read(&path) {
        Ok(t) => t,
        Err(e) => return fail("read-error", e),
    };
    let _ = std::fs::remove_file(&path);
    req!(tab.rows == keep.len(), "rows", "{} rows instead of {}", tab.rows, keep.len());
    let col = |pre: &str, i: usize| match tab.num.iter().find(|(k, _)| k.starts_with(pre)) {
        Some((_, v)) => Ok(v[i]),
        None => fail("column", format!("no column {pre}, only {:?}", tab.num.keys().collect::<Vec<_>>())),
    };
    for (row, &i) in keep.iter().enumerate() {
        let e = &sol.estimates[i];
        let v = e.state().to_vector();
        let ut = tab.txt.get("Epoch (UTC)").and_then(|v| v[row].clone()).unwrap_or_default();
        let te = ut.parse::<Epoch>().or_else(|_| format!("{ut} UTC").parse::<Epoch>()).map_err(err)?;
        req!((te - e.epoch()).abs() < secs(1e-5), "epoch", "row {row} at {ut} instead of {}", e.epoch());
        for (j, nm) in ["latitude", "longitude", "height"].iter().enumerate() {
            let g = tab.num.iter().find(|(k, _)| k.to_lowercase().starts_with(nm)).map(|(_, v)| v[row]);
            req!(g == Some(Some(v[j])), "value", "{nm} is {g:?} instead of {} in {:?}", v[j], tab.num.keys().collect::<Vec<_>>());
            let s = tab.num.iter().find(|(k, _)| k.to_lowercase().starts_with(&format!("sigma {nm}"))).map(|(_, v)| v[row]);
            let w = e.covar[(j, j)].sqrt();
            req!(s == Some(Some(w)), "sigma", "sigma of {nm} is {s:?} instead of {w}");
        }
        let nm = ["Latitude", "Longitude", "Altitude"];
        for a in 0..3 {
            for b in a..3 {
                let g = col(&format!("Covariance {}*{} ", nm[a], nm[b]), row)?;
                req!(g == Some(e.covar[(a, b)]), "covariance", "{}*{} is {g:?} instead of {}", nm[a], nm[b], e.covar[(a, b)]);
            }
            for (k, t) in ty.iter().enumerate() {
                let g = col(&format!("Gain {}*{t:?} ", nm[a]), row)?;
                let w = sol.gains[i].as_ref().map(|m| m[(a, k)]);
                req!(g == w, "gain", "gain of {} and {t:?} is {g:?} instead of {w:?}", nm[a]);
            }
            let g = col(&format!("Filter-smoother ratio {} ", nm[a]), row)?;
            let w = sol.filter_smoother_ratios[i].map(|m| m[a]);
            req!(g == w, "ratio", "ratio of {} is {g:?} instead of {w:?}", nm[a]);
        }
        let res = sol.residuals[i].as_ref();
        for t in &ty {
            for (lab, w) in [
                ("Prefit residual", res.and_then(|r| r.prefit(*t))),
                ("Postfit residual", res.and_then(|r| r.postfit(*t))),
                ("Measurement noise", res.and_then(|r| r.trk_noise(*t))),
                ("Real observation", res.and_then(|r| r.real_obs(*t))),
                ("Computed observation", res.and_then(|r| r.computed_obs(*t))),
            ] {
                let g = col(&format!("{lab}: {t:?} "), row)?;
                req!(g == w, "residual", "{lab} of {t:?} is {g:?} instead of {w:?}");
            }
        }
        let g = col("Residual ratio", row)?;
        req!(g == res.map(|r| r.ratio), "residual-ratio", "{g:?}");
        let g = tab.txt.get("Tracker").and_then(|v| v[row].clone());
        req!(g == res.and_then(|r| r.tracker.clone()), "tracker", "{g:?}");
    }
    Ok(if keep.len() > 2 { Out::Hit } else { Out::Trivial })
}

fn p30() -> Prop {
    Prop {
        id: "P30",
        assumptions: &[
            "frame transformations are taken from the ephemeris library, on a synthetic ephemeris",
            "the filter is compared on ranges only: the Doppler of a moving asset ignores the velocity of the asset",
        ],
        subs: vec![
            sub("geometry", "the asset moves", 20_000, 600_000, || (assets(), assets(), prop::array::uniform3(-500.0..500.0f64)), chk_geometry),
            sub("state", "with a transition matrix", 10_000, 300_000, || (assets(), prop::collection::vec(-1.0..1.0f64, 42), -1e5..1e5f64, prop::bool::weighted(0.7)), chk_state),
            sub("motion", "the asset moves", 8000, 60_000, walks, chk_walk),
            sub("filter", "three measurements or more", 8000, 60_000, pnts, chk_filter),
            sub("export", "three estimates or more in the file", 1500, 10_000, pnts, chk_export),
        ],
    }
}
