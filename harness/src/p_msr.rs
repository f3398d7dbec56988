//! P15 measurement geometry and visibility, P16 measurement sensitivities.
use crate::fw::*;
use crate::req;
use crate::world::*;
use anise::prelude::Aberration;
use anise::prelude::{Frame, Orbit};
use anise::astro::{Location, TerrainMask};
use hifitime::Duration;
use indexmap::IndexSet;
use nalgebra::{Matrix3, U1, U2, U3, U4};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::GroundStation;
use nyx_space::od::TrackingDevice;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::{Measurement, MeasurementType};
use nyx_space::od::groundpnt::GroundAsset;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::position::PositionDevice;
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, WhiteNoise};
use proptest::prelude::*;
use rand::SeedableRng;
use rand_pcg::Pcg64Mcg;
use serde::{Deserialize, Serialize};

pub const PROPS: &[fn() -> Prop] = &[p15, p16];

type V3 = nalgebra::Vector3<f64>;

pub const TYPES: [MeasurementType; 4] = [MeasurementType::Range, MeasurementType::Doppler, MeasurementType::Azimuth, MeasurementType::Elevation];
pub const UNSUPPORTED: [MeasurementType; 6] = [
    MeasurementType::ReceiveFrequency,
    MeasurementType::TransmitFrequency,
    MeasurementType::TransmitFrequencyRate,
    MeasurementType::X,
    MeasurementType::Y,
    MeasurementType::Z,
];

// ---------------------------------------------------------------------------------------------
// The reference: a point of an ellipsoid and its local vertical
// ---------------------------------------------------------------------------------------------

/// Position of a geodetic point in the body fixed frame, and its south, east, zenith axes.
pub fn site(lat: f64, lon: f64, h: f64, a: f64, b: f64) -> (V3, Matrix3<f64>) {
    let (sp, cp) = lat.to_radians().sin_cos();
    let (sl, cl) = lon.to_radians().sin_cos();
    let e2 = 1.0 - (b / a).powi(2);
    let n = a / (1.0 - e2 * sp * sp).sqrt();
    let r = V3::new((n + h) * cp * cl, (n + h) * cp * sl, (n * (1.0 - e2) + h) * sp);
    let z = V3::new(cp * cl, cp * sl, sp);
    let e = V3::new(-sl, cl, 0.0);
    let s = e.cross(&z);
    (r, Matrix3::from_columns(&[s, e, z]))
}

#[derive(Clone, Copy, Debug)]
pub struct Aer {
    pub az: f64,
    pub el: f64,
    pub range: f64,
    pub rate: f64,
}

impl Aer {
    pub fn get(&self, t: MeasurementType) -> f64 {
        match t {
            MeasurementType::Range => self.range,
            MeasurementType::Doppler => self.rate,
            MeasurementType::Azimuth => self.az,
            MeasurementType::Elevation => self.el,
            _ => unreachable!(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Site {
    /// On the Moon instead of the Earth
    pub moon: bool,
    pub lat: f64,
    pub lon: f64,
    pub h: f64,
    /// Azimuth and elevation of each step of the terrain mask
    pub mask: Vec<(f64, f64)>,
    pub ignore_mask: bool,
}

pub fn sites() -> BoxedStrategy<Site> {
    (
        prop::bool::weighted(0.2),
        -89.0..89.0f64,
        prop_oneof![3 => -180.0..180.0f64, 1 => 180.0..360.0f64],
        prop_oneof![3 => -0.4..5.0f64, 1 => 0.0..400.0f64],
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec((0.0..359.0f64, 0.0..40.0f64), 1..6)],
        prop::bool::weighted(0.3),
    )
        .prop_map(|(moon, lat, lon, h, mut mask, ignore_mask)| {
            mask.sort_by(|a, b| a.0.total_cmp(&b.0));
            for m in &mut mask {
                *m = (rnd3(m.0), rnd3(m.1));
            }
            mask.dedup_by(|a, b| a.0 == b.0);
            Site { moon, lat: rnd3(lat), lon: rnd3(lon), h: rnd3(h), mask, ignore_mask }
        })
        .boxed()
}

impl Site {
    pub fn frame(&self) -> Frame {
        if self.moon { iau_moon() } else { iau_earth() }
    }
    pub fn inertial(&self) -> Frame {
        if self.moon { moon_j2k() } else { eme2k() }
    }
    pub fn sez(&self) -> (V3, Matrix3<f64>) {
        if self.moon { site(self.lat, self.lon, self.h, 1737.4, 1737.4) } else { site(self.lat, self.lon, self.h, 6378.1366, 6356.7519) }
    }
    pub fn station(&self, name: &str) -> GroundStation {
        let mut gs = GroundStation::from_point(name.to_string(), self.lat, self.lon, self.h, self.frame());
        gs.location = Location {
            terrain_mask: self.mask.iter().map(|m| TerrainMask { azimuth_deg: m.0, elevation_mask_deg: m.1 }).collect(),
            terrain_mask_ignored: self.ignore_mask,
            ..gs.location
        };
        gs
    }
    /// What the station sees of that state, from the geometry alone.
    pub fn aer(&self, rx: &Orbit) -> Aer {
        self.aer_lt(rx, false)
    }
    /// The same, seen from where the receiver appears when light takes its time.
    fn aer_lt(&self, rx: &Orbit, lt: bool) -> Aer {
        let bf = almanac().transform_to(*rx, self.frame(), if lt { Aberration::LT } else { None }).unwrap();
        let (r, q) = self.sez();
        let rho = bf.radius_km - r;
        let l = q.transpose() * rho;
        let range = rho.norm();
        Aer {
            az: l.y.atan2(-l.x).to_degrees().rem_euclid(360.0),
            el: l.z.atan2(l.x.hypot(l.y)).to_degrees(),
            range,
            rate: rho.dot(&bf.velocity_km_s) / range,
        }
    }
    pub fn mask_at(&self, az: f64) -> f64 {
        if self.ignore_mask || self.mask.is_empty() {
            return 0.0;
        }
        self.mask.iter().filter(|m| m.0 <= az).next_back().unwrap_or(self.mask.last().unwrap()).1
    }
    /// Elevation above what hides the spacecraft, and whether it is too near a step of the mask to tell.
    pub fn margin(&self, a: &Aer) -> (f64, bool) {
        let m = a.el - self.mask_at(a.az);
        let near_step = !self.ignore_mask && (a.az < 1e-7 || a.az > 360.0 - 1e-7 || self.mask.iter().any(|s| (s.0 - a.az).abs() < 1e-7));
        (m, near_step || m.abs() < 1e-7)
    }
    /// A state seen at that azimuth, elevation and range, in the given frame.
    pub fn at(&self, t: f64, az: f64, el: f64, range: f64, v: [f64; 3], frame: Frame) -> Orbit {
        let (r, q) = self.sez();
        let (sa, ca) = az.to_radians().sin_cos();
        let (se, ce) = el.to_radians().sin_cos();
        let p = r + q * V3::new(-ce * ca, ce * sa, se) * range;
        let o = Orbit::new(p.x, p.y, p.z, v[0], v[1], v[2], ep(t), self.frame());
        almanac().transform_to(o, frame, None).unwrap()
    }
}

fn order(perm: &[u8], n: usize) -> Vec<MeasurementType> {
    let mut v: Vec<(u8, usize)> = perm.iter().cloned().zip(0..4).collect();
    v.sort();
    v.iter().map(|x| TYPES[x.1]).take(n).collect()
}

fn angdiff(a: f64, b: f64) -> f64 {
    ((a - b + 180.0).rem_euclid(360.0)) - 180.0
}

fn tol(t: MeasurementType, a: &Aer) -> f64 {
    match t {
        MeasurementType::Range => 1e-12 * a.range + 1e-8,
        MeasurementType::Doppler => 1e-9 + 1e-12 * a.rate.abs(),
        MeasurementType::Azimuth => 1e-7 / a.el.to_radians().cos().abs().max(1e-6),
        _ => 1e-7,
    }
}

// ---------------------------------------------------------------------------------------------
// P15
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Look {
    s: Site,
    t: f64,
    az: f64,
    el: f64,
    range: f64,
    v: [f64; 3],
    perm: [u8; 4],
    n: usize,
    /// 0: inertial frame of the body of the station, 1: its body fixed frame, 2: inertial frame of the other body
    fr: u8,
    #[serde(default)]
    lt: bool,
}

fn looks() -> BoxedStrategy<Look> {
    (
        sites(),
        0.0..3.0e8f64,
        0.0..360.0f64,
        prop_oneof![1 => -89.0..0.0f64, 2 => 0.0..45.0f64, 1 => 45.0..89.5f64],
        (2.0..5.5f64).prop_map(|x| 10f64.powf(x)),
        prop::array::uniform3(-8.0..8.0f64),
        any::<[u8; 4]>(),
        1usize..5,
        (0u8..3, prop::bool::weighted(0.3)),
    )
        .prop_map(|(s, t, az, el, range, v, perm, n, (fr, lt))| Look { s, t: rnd3(t), az, el, range, v, perm, n, fr, lt })
        .boxed()
}

impl Look {
    fn rx(&self) -> Spacecraft {
        let f = match self.fr {
            0 => self.s.inertial(),
            1 => self.s.frame(),
            _ => {
                if self.s.moon {
                    eme2k()
                } else {
                    moon_j2k()
                }
            }
        };
        Spacecraft::from(self.s.at(self.t, self.az, self.el, self.range, self.v, f))
    }
    fn types(&self) -> Vec<MeasurementType> {
        order(&self.perm, self.n)
    }
}

/// Distance from the centre of a body to the segment between two points (both relative to that centre).
fn seg_dist(a: V3, b: V3) -> f64 {
    let d = b - a;
    let t = (-a.dot(&d) / d.norm_squared()).clamp(0.0, 1.0);
    (a + d * t).norm()
}

/// Whether the central body of the receiver is in the way: Some(None) when too close to call.
fn hidden(s: &Site, rx: &Orbit, lt: bool) -> Option<bool> {
    if rx.frame.ephemeris_id == s.frame().ephemeris_id {
        return Some(false);
    }
    let alm = almanac();
    let (r, _) = s.sez();
    let tx = Orbit::new(r.x, r.y, r.z, 0.0, 0.0, 0.0, rx.epoch, s.frame());
    let tx = alm.transform_to(tx, rx.frame, None).unwrap();
    let rad = rx.frame.mean_equatorial_radius_km().unwrap();
    let d = seg_dist(tx.radius_km, rx.radius_km);
    // Light time moves the Moon by a kilometre or so.
    if (d - rad).abs() < if lt { 5.0 } else { 1e-3 } { None } else { Some(d < rad) }
}

fn chk_instant(c: &Look) -> R {
    let alm = almanac();
    let rx = c.rx();
    let a = c.s.aer_lt(&rx.orbit, c.lt);
    let (margin, close_call) = c.s.margin(&a);
    let hid = hidden(&c.s, &rx.orbit, c.lt);
    if close_call || hid.is_none() {
        return Ok(Out::Discard);
    }
    let visible = margin > 0.0 && !hid.unwrap();
    let types = c.types();
    let mut gs = c.s.station("site");
    gs.light_time_correction = c.lt;
    for t in &types {
        gs = gs.with_msr_type(*t, StochasticNoise::MIN);
    }
    let before = gs.clone();
    let got = match gs.measure_instantaneous(rx, None, &alm) {
        Ok(m) => m,
        Err(e) => return fail("error", format!("{e}")),
    };
    req!(gs == before, "device-changed", "measuring without noise changes the device");
    let Some(m) = got else {
        req!(!visible, "missed", "no measurement {margin} deg above the mask, hidden: {hid:?}");
        return Ok(if a.el > 0.0 { Out::Hit } else { Out::Trivial });
    };
    req!(visible, "hidden-measured", "measured {margin} deg above the mask, hidden: {hid:?}");
    req!(m.tracker == "site" && m.epoch == rx.epoch() && !m.rejected, "tag", "{m}");
    req!(m.data.keys().cloned().collect::<Vec<_>>() == types, "types", "{:?} instead of {types:?}", m.data);
    for t in &types {
        let x = m.data[t];
        let want = a.get(*t);
        let d = if *t == MeasurementType::Azimuth { angdiff(x, want) } else { x - want };
        req!(d.abs() <= tol(*t, &a) + if c.fr == 2 { 1e-7 } else { 0.0 }, "value", "{t:?} is {x} instead of {want}");
        req!(*t != MeasurementType::Azimuth || (0.0..=360.0).contains(&x), "azimuth-range", "azimuth {x}");
    }
    // The observation vector follows the requested types, zero where not available.
    let req_types: IndexSet<_> = TYPES.iter().cloned().collect();
    let obs = m.observation::<U4>(&req_types);
    let avail = m.availability(&req_types);
    for (i, t) in TYPES.iter().enumerate() {
        let has = types.contains(t);
        req!(avail[i] == has && obs[i] == if has { m.data[t] } else { 0.0 }, "observation", "row {i} of the observation of {m} is {}", obs[i]);
    }
    // Any other measurement type cannot be made by a ground station.
    let mut bad = before.with_msr_type(UNSUPPORTED[c.n % 6], StochasticNoise::MIN);
    req!(bad.measure_instantaneous(rx, None, &alm).is_err(), "unsupported", "a ground station measures {:?}", UNSUPPORTED[c.n % 6]);
    Ok(Out::Hit)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lunar {
    s: Site,
    o: GenOrbit,
    /// Rotate the position to be near the line between the station and the Moon, on this side (radii from the limb)
    offset: f64,
    depth: f64,
    clock: f64,
    #[serde(default)]
    lt: bool,
}

fn lunars() -> BoxedStrategy<Lunar> {
    (sites(), orbits(1800.0, 5000.0, 0.3), 0.0..3.0f64, -4.0..4.0f64, 0.0..360.0f64, prop::bool::weighted(0.4))
        .prop_map(|(mut s, o, offset, depth, clock, lt)| {
            s.moon = false;
            Lunar { s, o, offset, depth, clock, lt }
        })
        .boxed()
}

/// A lunar spacecraft behind the Moon is not measured.
fn chk_lunar(c: &Lunar) -> R {
    let alm = almanac();
    let o = c.o.orbit(moon_j2k());
    let e = o.epoch;
    let (r, _) = c.s.sez();
    let tx = alm.transform_to(Orbit::new(r.x, r.y, r.z, 0.0, 0.0, 0.0, e, c.s.frame()), moon_j2k(), None).unwrap().radius_km;
    let u = tx.normalize();
    let p = u.cross(&V3::new(0.3, -0.5, 0.8)).normalize();
    let w = u.cross(&p);
    let (sc, cc) = c.clock.to_radians().sin_cos();
    let pos = u * (c.depth * 1737.4) + (p * cc + w * sc) * (c.offset * 1737.4);
    if pos.norm() < 1738.0 {
        return Ok(Out::Discard);
    }
    let v = o.velocity_km_s;
    let rx = Spacecraft::from(Orbit::new(pos.x, pos.y, pos.z, v.x, v.y, v.z, e, moon_j2k()));
    let a = c.s.aer_lt(&rx.orbit, c.lt);
    let (margin, cc) = c.s.margin(&a);
    let Some(hid) = hidden(&c.s, &rx.orbit, c.lt) else { return Ok(Out::Discard) };
    if cc || margin < 0.0 {
        return Ok(Out::Discard);
    }
    let mut gs = c.s.station("site").with_msr_type(MeasurementType::Range, StochasticNoise::MIN).with_msr_type(MeasurementType::Doppler, StochasticNoise::MIN);
    gs.light_time_correction = c.lt;
    let m = match gs.measure_instantaneous(rx, None, &alm) {
        Ok(m) => m,
        Err(e) => return fail("error", format!("{e}")),
    };
    req!(m.is_some() != hid, "occultation", "measured: {}, hidden by the Moon: {hid}", m.is_some());
    if let Some(m) = m {
        req!((m.data[&MeasurementType::Range] - a.range).abs() < 1e-6 && (m.data[&MeasurementType::Doppler] - a.rate).abs() < 1e-8, "lunar-value", "{m} vs {a:?}");
    }
    // Through a trajectory with an integration time as well.
    let mut t = Traj::new();
    for k in -6..=6 {
        let dt = 20.0 * k as f64;
        let p = pos + v * dt;
        t.states.push(Spacecraft::from(Orbit::new(p.x, p.y, p.z, v.x, v.y, v.z, e + secs(dt), moon_j2k())));
    }
    t.finalize();
    gs.integration_time = Some(secs(60.0));
    let rx0 = t.at(e - secs(60.0)).unwrap();
    let a0 = c.s.aer_lt(&rx0.orbit, c.lt);
    let (margin0, cc0) = c.s.margin(&a0);
    let Some(hid0) = hidden(&c.s, &rx0.orbit, c.lt) else { return Ok(Out::Hit) };
    if cc0 || margin0 < 0.0 || rx0.orbit.radius_km.norm() < 1738.0 {
        return Ok(Out::Hit);
    }
    let m2 = match gs.measure(e, &t, None, &alm) {
        Ok(m) => m,
        Err(e) => return fail("error", format!("{e}")),
    };
    req!(m2.is_some() == (!hid && !hid0), "occultation-integrated", "measured: {}, hidden by the Moon: {hid0} then {hid}", m2.is_some());
    if let Some(m) = m2 {
        let (r, d) = (0.5 * (a0.range + a.range), 0.5 * (a0.rate + a.rate));
        req!((m.data[&MeasurementType::Range] - r).abs() < 1e-6 && (m.data[&MeasurementType::Doppler] - d).abs() < 1e-8, "lunar-integrated", "{m} instead of {r} km and {d} km/s");
    }
    Ok(Out::Hit)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TwoWay {
    s: Site,
    o: GenOrbit,
    step: f64,
    integ: Option<f64>,
    at: f64,
    perm: [u8; 4],
    n: usize,
    overhead: Option<(f64, f64)>,
}

fn two_ways() -> BoxedStrategy<TwoWay> {
    (
        sites(),
        orbits(6800.0, 30000.0, 0.3),
        5.0..60.0f64,
        prop_oneof![4 => (0.5..300.0f64).prop_map(Some), 1 => Just(None)],
        prop_oneof![8 => 0.0..1.0f64, 1 => -0.2..0.0f64, 1 => 1.0..1.2f64],
        any::<[u8; 4]>(),
        1usize..5,
        prop::option::weighted(0.7, (-30.0..30.0f64, -30.0..30.0f64)),
    )
        .prop_map(|(s, o, step, integ, at, perm, n, overhead)| TwoWay { s, o, step: rnd3(step), integ: integ.map(rnd3), at, perm, n, overhead })
        .boxed()
}

fn chk_two_way(c: &TwoWay) -> R {
    let alm = almanac();
    let mut s = c.s.clone();
    s.moon = false;
    let o = c.o.earth();
    let mut t = Traj::new();
    let n = 40;
    let (r, v) = (o.radius_km, o.velocity_km_s);
    for k in 0..n {
        let dt = c.step * k as f64;
        let (r, v) = kepler(r, v, MU_EARTH, dt);
        t.states.push(Spacecraft::from(Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, o.epoch + secs(dt), eme2k())));
    }
    t.finalize();
    let end = c.step * (n - 1) as f64;
    let e = o.epoch + secs(rnd3(c.at * end));
    if let Some((dlat, dlon)) = c.overhead {
        // Put the station near the ground track.
        let mid = alm.transform_to(t.at(o.epoch + secs(end * c.at.clamp(0.0, 1.0))).unwrap().orbit, iau_earth(), None).unwrap().radius_km;
        s.lat = rnd3(((mid.z / mid.norm()).asin().to_degrees() + dlat).clamp(-89.0, 89.0));
        s.lon = rnd3(mid.y.atan2(mid.x).to_degrees() + dlon);
    }
    let types = order(&c.perm, c.n);
    let mut gs = s.station("site").with_integration_time(c.integ.map(secs));
    for ty in &types {
        gs = gs.with_msr_type(*ty, StochasticNoise::MIN);
    }
    let got = gs.measure(e, &t, None, &alm);
    let inside = |e| e >= t.first().epoch() && e <= t.last().epoch();
    let Some(integ) = c.integ.map(secs) else {
        // Instantaneous
        if !inside(e) {
            req!(got.is_err() || matches!(got, Ok(None)), "outside", "measured outside of the trajectory");
            return Ok(Out::Trivial);
        }
        let want = gs.measure_instantaneous(t.at(e).unwrap(), None, &alm);
        req!(got.is_ok() && want.is_ok(), "error", "measuring fails");
        let (g, w) = (got.unwrap(), want.unwrap());
        req!(g == w, "instantaneous", "{g:?} vs {w:?}");
        return Ok(if g.is_some() { Out::Hit } else { Out::Trivial });
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("error", format!("{e}")),
    };
    if !inside(e) || !inside(e - integ) {
        req!(got.is_none(), "outside", "measured outside of the trajectory");
        return Ok(Out::Trivial);
    }
    let (a0, a1) = (s.aer(&t.at(e - integ).unwrap().orbit), s.aer(&t.at(e).unwrap().orbit));
    let ((m0, x0), (m1, x1)) = (s.margin(&a0), s.margin(&a1));
    if x0 || x1 {
        return Ok(Out::Discard);
    }
    let visible = m0 > 0.0 && m1 > 0.0;
    let Some(m) = got else {
        req!(!visible, "missed", "no measurement {m0} then {m1} deg above the mask");
        return Ok(if a0.el > 0.0 || a1.el > 0.0 { Out::Hit } else { Out::Trivial });
    };
    req!(visible, "hidden-measured", "measured {m0} then {m1} deg above the mask");
    req!(m.tracker == "site" && m.epoch == e, "tag", "{m}");
    req!(m.data.keys().cloned().collect::<Vec<_>>() == types, "types", "{:?} instead of {types:?}", m.data);
    for ty in &types {
        let x = m.data[ty];
        if *ty == MeasurementType::Azimuth {
            let d = angdiff(a1.az, a0.az);
            if d.abs() > 170.0 {
                continue;
            }
            let want = (a0.az + 0.5 * d).rem_euclid(360.0);
            req!(angdiff(x, want).abs() < 1e-6 && (0.0..=360.0).contains(&x), "two-way-azimuth", "azimuth {x} between {} and {}", a0.az, a1.az);
        } else {
            let want = 0.5 * (a0.get(*ty) + a1.get(*ty));
            req!((x - want).abs() < tol(*ty, &a1), "two-way", "{ty:?} is {x} instead of {want}");
        }
    }
    Ok(Out::Hit)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Noisy {
    l: Look,
    mean: [f64; 4],
    sigma: [f64; 4],
    bias: [Option<f64>; 4],
    ts: Option<f64>,
    integ: Option<f64>,
    seed: u64,
}

fn noisies() -> BoxedStrategy<Noisy> {
    (
        looks(),
        prop::array::uniform4(-1.0..1.0f64),
        prop::array::uniform4(1e-6..1.0f64),
        prop::array::uniform4(prop::option::of(-1.0..1.0f64)),
        prop::option::of(-1.0..1.0f64),
        prop::option::of(1.0..60.0f64),
        any::<u64>(),
    )
        .prop_map(|(mut l, mean, sigma, bias, ts, integ, seed)| {
            l.fr %= 2;
            l.lt = false;
            l.el = l.el.abs();
            l.s.ignore_mask = true;
            Noisy { l, mean, sigma, bias, ts: ts.map(|x| (x * 1e9).round() * 1e-9), integ, seed }
        })
        .boxed()
}

/// Noise: what the configuration says is added, and the covariance and bias reported are those of the configuration.
fn chk_noise(c: &Noisy) -> R {
    let alm = almanac();
    let rx = c.l.rx();
    let a = c.l.s.aer(&rx.orbit);
    if c.l.s.margin(&a).0 < 1e-6 {
        return Ok(Out::Discard);
    }
    let types = c.l.types();
    let e = rx.epoch();
    let base = c.l.s.station("site");
    let build = |sigma: bool| {
        let mut gs = base.clone();
        for (i, t) in types.iter().enumerate() {
            gs = gs.with_msr_type(*t, StochasticNoise { white_noise: Some(WhiteNoise { mean: c.mean[i], sigma: if sigma { c.sigma[i] } else { 0.0 } }), bias: None });
        }
        gs
    };
    let mut rng = Pcg64Mcg::new(c.seed as u128 | (1 << 100));
    // Deterministic offsets
    let mut gs = build(false);
    gs.timestamp_noise_s = c.ts.map(|mean| StochasticNoise { white_noise: Some(WhiteNoise { mean, sigma: 0.0 }), bias: None });
    let clean = gs.measure_instantaneous(rx, None, &alm).unwrap().unwrap();
    let m = gs.measure_instantaneous(rx, Some(&mut rng), &alm).unwrap().unwrap();
    for (i, t) in types.iter().enumerate() {
        req!(close(m.data[t] - clean.data[t], c.mean[i], 1e-9, 1e-9), "offset", "{t:?} is off by {} instead of {}", m.data[t] - clean.data[t], c.mean[i]);
    }
    let want = e + secs(c.ts.unwrap_or(0.0));
    req!((m.epoch - want).abs() <= Duration::from_nanoseconds(1.0), "timestamp", "timestamp {} instead of {want}", m.epoch);
    req!(clean.epoch == e, "timestamp", "noiseless timestamp {}", clean.epoch);
    // Two way: the noise is divided by sqrt(2).
    if let Some(integ) = c.integ {
        let mut t = Traj::new();
        let (r, v) = (rx.orbit.radius_km, rx.orbit.velocity_km_s);
        for k in -3..=1 {
            let dt = 30.0 * k as f64;
            let p = r + v * dt;
            t.states.push(Spacecraft::from(Orbit::new(p.x, p.y, p.z, v.x, v.y, v.z, e + secs(dt), rx.orbit.frame)));
        }
        t.finalize();
        gs.integration_time = Some(secs(integ));
        let clean = gs.measure(e, &t, None, &alm).unwrap();
        let m = gs.measure(e, &t, Some(&mut rng), &alm).unwrap();
        req!(clean.is_some() == m.is_some(), "noise-visibility", "noise changes the visibility");
        if let (Some(clean), Some(m)) = (clean, m) {
            for (i, t) in types.iter().enumerate() {
                req!(close(m.data[t] - clean.data[t], c.mean[i] / 2f64.sqrt(), 1e-9, 1e-9), "two-way-offset", "{t:?} is off by {} for a noise of {}", m.data[t] - clean.data[t], c.mean[i]);
            }
            req!((m.epoch - want).abs() <= Duration::from_nanoseconds(1.0), "timestamp", "timestamp {} instead of {want}", m.epoch);
        }
    }
    // Random noise: reproducible from the seed, centred and scaled.
    let mut gs = build(true);
    let (mut r1, mut r2) = (Pcg64Mcg::seed_from_u64(c.seed), Pcg64Mcg::seed_from_u64(c.seed));
    let mut gs2 = gs.clone();
    let k = 300;
    let mut sum = [0.0; 4];
    let mut sq = [0.0; 4];
    let mut cross = 0.0;
    for _ in 0..k {
        let m1 = gs.measure_instantaneous(rx, Some(&mut r1), &alm).unwrap().unwrap();
        let m2 = gs2.measure_instantaneous(rx, Some(&mut r2), &alm).unwrap().unwrap();
        let mut z = [0.0; 4];
        for (i, t) in types.iter().enumerate() {
            req!(m1.data[t] == m2.data[t], "seed", "{t:?} differs for the same seed");
            z[i] = (m1.data[t] - clean.data[t] - c.mean[i]) / c.sigma[i];
            sum[i] += z[i];
            sq[i] += z[i] * z[i];
        }
        if types.len() > 1 {
            cross += z[0] * z[1];
        }
    }
    let kf = k as f64;
    for i in 0..types.len() {
        // 8 sigma bounds
        req!(sum[i].abs() < 8.0 * kf.sqrt(), "mean", "mean of {:?} noise off by {} sigma", types[i], sum[i] / kf);
        req!((sq[i] / kf - 1.0).abs() < 8.0 * (2.0 / kf).sqrt(), "sigma", "variance of the {:?} noise is {} of the configured one", types[i], sq[i] / kf);
    }
    req!(cross.abs() < 8.0 * kf.sqrt(), "correlated", "noises of two measurement types correlate: {}", cross / kf);
    // Covariance and bias
    for (i, t) in types.iter().enumerate() {
        let cov = gs.measurement_covar(*t, e);
        req!(cov.is_ok() && close(*cov.as_ref().unwrap(), c.sigma[i].powi(2), 1e-12, 0.0), "covariance", "covariance of {t:?} is {cov:?} for a sigma of {}", c.sigma[i]);
        let b = gs.measurement_bias(*t, e);
        req!(matches!(b, Ok(0.0)), "no-bias", "bias of {t:?} is {b:?}");
        let gsb = match c.bias[i] {
            Some(b) => match gs.clone().with_msr_bias_constant(*t, b) {
                Ok(g) => g,
                Err(e) => return fail("error", format!("{e}")),
            },
            None => gs.clone(),
        };
        let b = gsb.measurement_bias(*t, e);
        req!(b.is_ok() && *b.as_ref().unwrap() == c.bias[i].unwrap_or(0.0), "bias", "bias of {t:?} is {b:?} instead of {:?}", c.bias[i]);
        // A constant bias is on every measurement.
        if let Some(bias) = c.bias[i] {
            let mut g = build(false).with_msr_bias_constant(*t, bias).unwrap();
            let m = g.measure_instantaneous(rx, Some(&mut r1), &alm).unwrap().unwrap();
            req!(close(m.data[t] - clean.data[t], c.mean[i] + bias, 1e-9, 1e-9), "biased", "{t:?} is off by {} instead of {} + {bias}", m.data[t] - clean.data[t], c.mean[i]);
            for (j, u) in types.iter().enumerate() {
                req!(j == i || close(m.data[u] - clean.data[u], c.mean[j], 1e-9, 1e-9), "biased", "a bias on {t:?} changes {u:?}");
            }
        }
    }
    for t in TYPES.iter().filter(|t| !types.contains(t)) {
        req!(gs.measurement_covar(*t, e).is_err() && gs.measurement_bias(*t, e).is_err(), "unconfigured", "{t:?} is not configured but has a covariance");
        req!(gs.clone().with_msr_bias_constant(*t, 1.0).is_err(), "unconfigured", "the bias of {t:?} is set but that type is not configured");
    }
    // Without one type: no such measurement.
    let mut less = gs.clone().without_msr_type(types[0]);
    let m = less.measure_instantaneous(rx, None, &alm).unwrap().unwrap();
    req!(!m.data.contains_key(&types[0]) && m.data.len() == types.len() - 1 && types[1..].iter().all(|t| m.data.get(t) == clean.data.get(t)), "without", "{m} without {:?}", types[0]);
    // Simulating noise needs noise models.
    if !types.is_empty() {
        let mut none = base.clone();
        none.measurement_types = types.iter().cloned().collect();
        req!(none.measure_instantaneous(rx, Some(&mut r1), &alm).is_err(), "no-noise-model", "noise without a model");
        req!(none.measure_instantaneous(rx, None, &alm).is_ok(), "no-noise-model", "the noiseless measurement needs a noise model");
    }
    Ok(Out::Hit)
}

// ---------------------------------------------------------------------------------------------
// Other devices
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Link {
    tx: GenOrbit,
    rx: GenOrbit,
    integ: Option<f64>,
    doppler_first: bool,
    n: usize,
    off: [f64; 2],
    mean: [f64; 2],
    drop: usize,
    site: Site,
    moon: bool,
}

fn links() -> BoxedStrategy<Link> {
    (
        orbits(6800.0, 30000.0, 0.3),
        orbits(6800.0, 30000.0, 0.3),
        prop::option::of(1.0..90.0f64),
        any::<bool>(),
        1usize..3,
        prop::array::uniform2(-100.0..100.0f64),
        prop::array::uniform2(-1.0..1.0f64),
        0usize..4,
        sites(),
        prop::bool::weighted(0.25),
    )
        .prop_map(|(tx, mut rx, integ, doppler_first, n, off, mean, drop, site, moon)| {
            rx.t0_s = tx.t0_s;
            Link { tx, rx, integ: integ.map(rnd3), doppler_first, n, off, mean, drop, site, moon }
        })
        .boxed()
}

fn two_body(o: &Orbit, name: &str) -> Traj<Spacecraft> {
    let mut t = Traj::new();
    t.name = Some(name.to_string());
    let mu = o.frame.mu_km3_s2().unwrap();
    for k in -8..=4 {
        let dt = 20.0 * k as f64;
        let (r, v) = kepler(o.radius_km, o.velocity_km_s, mu, dt);
        t.states.push(Spacecraft::from(Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, o.epoch + secs(dt), o.frame)));
    }
    t.finalize();
    t
}

impl Link {
    fn types(&self) -> Vec<MeasurementType> {
        let mut v = vec![MeasurementType::Range, MeasurementType::Doppler];
        if self.doppler_first {
            v.reverse();
        }
        v.truncate(self.n);
        v
    }
    /// The transmitter orbits the Earth and the receiver either the Earth or the Moon.
    fn rx(&self) -> Orbit {
        if self.moon {
            let mut o = self.rx.clone();
            o.rp_km = 1740.0 + (o.rp_km - 6800.0) / 10.0;
            o.orbit(moon_j2k())
        } else {
            self.rx.earth()
        }
    }
    fn device(&self) -> InterlinkTxSpacecraft {
        let types = self.types();
        InterlinkTxSpacecraft {
            traj: two_body(&self.tx.earth(), "tx"),
            measurement_types: types.iter().cloned().collect(),
            integration_time: self.integ.map(secs),
            timestamp_noise_s: None,
            stochastic_noises: Some(
                types
                    .iter()
                    .enumerate()
                    .map(|(i, t)| (*t, StochasticNoise { white_noise: Some(WhiteNoise { mean: self.mean[i], sigma: 0.0 }), bias: None }))
                    .collect(),
            ),
            ab_corr: None,
        }
    }
    /// Range, range rate, and whether the Earth hides the receiver (None: too close to call).
    fn geometry(&self, tx: &Orbit, rx: &Orbit) -> (f64, f64, Option<bool>) {
        let rx = almanac().transform_to(*rx, tx.frame, None).unwrap();
        let rho = rx.radius_km - tx.radius_km;
        let d = seg_dist(tx.radius_km, rx.radius_km);
        let rad = 6378.1366;
        (rho.norm(), rho.dot(&(rx.velocity_km_s - tx.velocity_km_s)) / rho.norm(), if (d - rad).abs() < 1e-2 { None } else { Some(d < rad) })
    }
}

/// Spacecraft to spacecraft links.
fn chk_interlink(c: &Link) -> R {
    let alm = almanac();
    let mut dev = c.device();
    let rx = two_body(&c.rx(), "rx");
    let e = c.rx().epoch;
    let types = c.types();
    let at = |e: hifitime::Epoch| {
        let (tx, rx) = (dev.traj.at(e).unwrap().orbit, rx.at(e).unwrap().orbit);
        c.geometry(&tx, &rx)
    };
    let (r1, d1, h1) = at(e);
    let (want, hid) = match c.integ {
        Some(i) => {
            let (r0, d0, h0) = at(e - secs(i));
            let (Some(h0), Some(h1)) = (h0, h1) else { return Ok(Out::Discard) };
            ([(r0 + r1) * 0.5, (d0 + d1) * 0.5], h0 || h1)
        }
        None => {
            let Some(h1) = h1 else { return Ok(Out::Discard) };
            ([r1, d1], h1)
        }
    };
    let got = match <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut dev, e, &rx, None, &alm) {
        Ok(g) => g,
        Err(e) => return fail("error", format!("{e}")),
    };
    req!(got.is_some() != hid, "link-visibility", "measured: {}, hidden by the Earth: {hid}", got.is_some());
    let Some(m) = got else { return Ok(Out::Hit) };
    req!(m.tracker == "tx" && m.epoch == e && m.data.keys().cloned().collect::<Vec<_>>() == types, "tag", "{m}");
    for t in &types {
        let w = if *t == MeasurementType::Range { want[0] } else { want[1] };
        req!((m.data[t] - w).abs() < if *t == MeasurementType::Range { 1e-6 } else { 1e-8 }, "link-value", "{t:?} is {} instead of {w}", m.data[t]);
    }
    let mut rng = Pcg64Mcg::new(7);
    let n = match <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut dev, e, &rx, Some(&mut rng), &alm) {
        Ok(Some(g)) => g,
        x => return fail("error", format!("{x:?}")),
    };
    for (i, t) in types.iter().enumerate() {
        let w = c.mean[i] / if c.integ.is_some() { 2f64.sqrt() } else { 1.0 };
        req!((n.data[t] - m.data[t] - w).abs() < 1e-9, "link-noise", "{t:?} is off by {} instead of {w}", n.data[t] - m.data[t]);
        let cov = <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measurement_covar(&dev, *t, e);
        req!(matches!(cov, Ok(0.0)), "link-covariance", "{cov:?}");
    }
    Ok(Out::Hit)
}

/// Positions of the spacecraft itself.
fn chk_position(c: &Link) -> R {
    let alm = almanac();
    let rx = Spacecraft::from(c.rx());
    let all = [MeasurementType::X, MeasurementType::Y, MeasurementType::Z];
    let mut dev = PositionDevice::new("pos".into());
    let mut want = vec![];
    for k in 0..3 {
        let i = (k * if c.doppler_first { 2 } else { 1 } + c.drop) % 3;
        if k > c.n {
            continue;
        }
        let bias = if c.moon { Some(GaussMarkov { constant: Some(c.off[0]), ..GaussMarkov::ZERO }) } else { None };
        dev = dev.with_noise(all[i], StochasticNoise { white_noise: Some(WhiteNoise { mean: c.mean[0] * k as f64, sigma: 0.0 }), bias });
        want.push((all[i], rx.orbit.radius_km[i], c.mean[0] * k as f64 + if c.moon { c.off[0] } else { 0.0 }));
    }
    let m = match dev.measure_instantaneous(rx, None, &alm) {
        Ok(Some(m)) => m,
        x => return fail("error", format!("{x:?}")),
    };
    let mut rng = Pcg64Mcg::new(7);
    let n = match dev.measure_instantaneous(rx, Some(&mut rng), &alm) {
        Ok(Some(m)) => m,
        x => return fail("error", format!("{x:?}")),
    };
    req!(m.epoch == rx.epoch() && m.tracker == "pos" && m.data.len() == want.len(), "tag", "{m}");
    for (t, x, noise) in &want {
        req!(m.data.get(t) == Some(x), "position", "{t:?} is {:?} instead of {x}", m.data.get(t));
        req!((n.data[t] - x - noise).abs() < 1e-9, "position-noise", "{t:?} is off by {} instead of {noise}", n.data[t] - x);
    }
    let set: IndexSet<_> = want.iter().map(|w| w.0).collect();
    let h = match dev.h_tilde::<U3>(&m, &set, &rx, &alm) {
        Ok(h) => h,
        Err(e) => return fail("error", format!("{e}")),
    };
    for k in 0..3 {
        for i in 0..9 {
            let w = if k < want.len() && all[i.min(2)] == want[k].0 && i < 3 { 1.0 } else { 0.0 };
            req!(h[(k, i)] == w, "position-sensitivity", "sensitivity {i} of row {k} is {}", h[(k, i)]);
        }
    }
    Ok(Out::Hit)
}

/// Sensitivities of spacecraft to spacecraft links.
fn chk_link_sens(c: &Link) -> R {
    let alm = almanac();
    let mut dev = c.device();
    dev.integration_time = None;
    let rx = Spacecraft::from(c.rx());
    let types = c.types();
    let tx = dev.traj.at(rx.epoch()).unwrap().orbit;
    let (range, rate, _) = c.geometry(&tx, &rx.orbit);
    if range < 10.0 {
        return Ok(Out::Discard);
    }
    let set: IndexSet<_> = types.iter().cloned().collect();
    let mut m = Measurement::new("tx".into(), rx.epoch());
    for (i, t) in types.iter().enumerate() {
        if i != c.drop {
            m.push(*t, if *t == MeasurementType::Range { range } else { rate } + c.off[i]);
        }
    }
    let h = match <InterlinkTxSpacecraft as TrackerSensitivity<Spacecraft, Spacecraft>>::h_tilde::<U2>(&dev, &m, &set, &rx, &alm) {
        Ok(h) => h,
        Err(e) => return fail("error", format!("{e}")),
    };
    // Analytic partials in the frame of the receiver (both inertial)
    let t = alm.transform_to(tx, rx.orbit.frame, None).unwrap();
    let (dr, dv) = (rx.orbit.radius_km - t.radius_km, rx.orbit.velocity_km_s - t.velocity_km_s);
    let u = dr / range;
    let w = dv / range - u * (rate / range);
    for k in 0..2 {
        for i in 0..9 {
            let want = if k >= types.len() || k == c.drop {
                0.0
            } else if types[k] == MeasurementType::Range {
                if i < 3 { u[i] } else { 0.0 }
            } else if i < 3 {
                w[i]
            } else if i < 6 {
                u[i - 3]
            } else {
                0.0
            };
            req!(close(h[(k, i)], want, 1e-9, 1e-10), "link-sensitivity", "sensitivity {i} of row {k} of {types:?} is {} instead of {want}", h[(k, i)]);
        }
    }
    for u in UNSUPPORTED {
        let um = Measurement::new("tx".into(), rx.epoch()).with(u, 1.0);
        let us: IndexSet<_> = [u].into_iter().collect();
        req!(<InterlinkTxSpacecraft as TrackerSensitivity<Spacecraft, Spacecraft>>::h_tilde::<U1>(&dev, &um, &us, &rx, &alm).is_err(), "unsupported", "{u:?} has a sensitivity for a link");
    }
    Ok(Out::Hit)
}

/// A fixed ground asset tracking a spacecraft: the spacecraft measures the asset as a station measures the spacecraft, and the partials
/// in latitude, longitude and height are the derivatives of that.
fn chk_asset(c: &Link) -> R {
    let alm = almanac();
    let mut s = c.site.clone();
    s.moon = false;
    s.mask.clear();
    s.ignore_mask = true;
    let e = c.tx.epoch();
    if c.drop < 3 {
        // Below the spacecraft
        let bf = alm.transform_to(c.tx.earth(), iau_earth(), None).unwrap().radius_km;
        s.lat = ((bf.z / bf.norm()).asin().to_degrees() + c.off[0] * 0.2).clamp(-89.0, 89.0);
        s.lon = bf.y.atan2(bf.x).to_degrees() + c.off[1] * 0.2;
    }
    let mut dev = c.device();
    dev.integration_time = None;
    let types = c.types();
    let asset = GroundAsset::from_fixed(s.lat, s.lon, s.h, e, iau_earth());
    let a = s.aer(&c.tx.earth());
    let (margin, cc) = s.margin(&a);
    if cc {
        return Ok(Out::Discard);
    }
    let got = match <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure_instantaneous(&mut dev, asset, None, &alm) {
        Ok(m) => m,
        Err(e) => return fail("error", format!("{e}")),
    };
    req!(got.is_some() == (margin > 0.0), "asset-visibility", "measured: {}, elevation {}", got.is_some(), a.el);
    let Some(mut m) = got else { return Ok(Out::Trivial) };
    req!(m.epoch == e && m.data.len() == types.len(), "tag", "{m}");
    for t in &types {
        req!((m.data[t] - a.get(*t)).abs() < 1e-8, "asset-value", "{t:?} is {} instead of {}", m.data[t], a.get(*t));
    }
    for (i, t) in types.iter().enumerate() {
        m.data[t] += c.off[i];
    }
    let set: IndexSet<_> = types.iter().cloned().collect();
    let h = match <InterlinkTxSpacecraft as TrackerSensitivity<GroundAsset, GroundAsset>>::h_tilde::<U2>(&dev, &m, &set, &asset, &alm) {
        Ok(h) => h,
        Err(e) => return fail("error", format!("{e}")),
    };
    for k in 0..2 {
        if k >= types.len() {
            req!(h.row(k).iter().all(|x| *x == 0.0), "asset-absent", "row {k}: {}", h.row(k));
            continue;
        }
        for i in 0..3 {
            let step = if i < 2 { 1e-3 } else { 0.1 };
            let at = |d: f64| {
                let mut s = s.clone();
                match i {
                    0 => s.lat += d,
                    1 => s.lon += d,
                    _ => s.h += d,
                }
                s.aer(&c.tx.earth()).get(types[k])
            };
            let want = (at(step) - at(-step)) / (2.0 * step);
            let scale = if i < 2 { 111.0 } else { 1.0 } * if types[k] == MeasurementType::Range { 1.0 } else { 10.0 / a.range };
            let curv = if i < 2 { (0.111 / a.range).powi(2) } else { (0.1 / a.range).powi(2) };
            req!((h[(k, i)] - want).abs() < scale * (1e-6 + curv), "asset-sensitivity", "sensitivity {i} of {:?} is {} instead of {want}", types[k], h[(k, i)]);
        }
    }
    Ok(Out::Hit)
}

fn p15() -> Prop {
    Prop {
        id: "P15",
        assumptions: &["Frame transformations of ANISE, over a synthetic ephemeris and IAU-style orientations, are taken as given."],
        subs: vec![
            sub("instant", "spacecraft above the horizon", 8000, 400_000, looks, chk_instant),
            sub("lunar", "lunar spacecraft above the terrain mask", 8000, 300_000, lunars, chk_lunar),
            sub("integrated", "above the horizon at an end of the integration", 6000, 300_000, two_ways, chk_two_way),
            sub("noise", "visible", 1500, 40_000, noisies, chk_noise),
            sub("interlink", "away from the limb of the Earth", 3000, 100_000, links, chk_interlink),
            sub("position", "all cases", 3000, 50_000, links, chk_position),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// P16
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sens {
    l: Look,
    /// What the measurement reports may be off (noise, ambiguity).
    off: [f64; 4],
    drop: usize,
}

fn senses() -> BoxedStrategy<Sens> {
    (looks(), prop::array::uniform4(-500.0..500.0f64), 0usize..8)
        .prop_map(|(mut l, off, drop)| {
            l.el = l.el.abs().clamp(2.0, 88.0);
            l.s.ignore_mask = true;
            Sens { l, off, drop }
        })
        .boxed()
}

fn chk_sens(c: &Sens) -> R {
    let alm = almanac();
    let rx = c.l.rx();
    let s = &c.l.s;
    let a = s.aer(&rx.orbit);
    if s.margin(&a).0 < 1e-3 || a.el > 88.5 || hidden(s, &rx.orbit, false) != Some(false) {
        return Ok(Out::Discard);
    }
    let types = c.l.types();
    let mut gs = s.station("site");
    for t in &types {
        gs = gs.with_msr_type(*t, StochasticNoise::MIN);
    }
    let set: IndexSet<_> = types.iter().cloned().collect();
    // Derivatives of what the station measures.
    let at = |i: usize, h: f64| -> Option<Aer> {
        let mut o = rx.orbit;
        if i < 3 {
            o.radius_km[i] += h;
        } else {
            o.velocity_km_s[i - 3] += h;
        }
        let mut all = s.station("x");
        for t in TYPES {
            all = all.with_msr_type(t, StochasticNoise::MIN);
        }
        let m = all.measure_instantaneous(Spacecraft::from(o), None, &alm).ok()??;
        Some(Aer { az: m.data[&TYPES[2]], el: m.data[&TYPES[3]], range: m.data[&TYPES[0]], rate: m.data[&TYPES[1]] })
    };
    let mut m = match gs.measure_instantaneous(rx, None, &alm) {
        Ok(Some(m)) => m,
        x => return fail("measure", format!("{x:?}")),
    };
    macro_rules! h {
        ($m:expr) => {{
            match types.len() {
                1 => gs.h_tilde::<U1>($m, &set, &rx, &alm).map(|h| h.row_iter().map(|r| r.iter().cloned().collect::<Vec<_>>()).collect::<Vec<_>>()),
                2 => gs.h_tilde::<U2>($m, &set, &rx, &alm).map(|h| h.row_iter().map(|r| r.iter().cloned().collect::<Vec<_>>()).collect::<Vec<_>>()),
                3 => gs.h_tilde::<U3>($m, &set, &rx, &alm).map(|h| h.row_iter().map(|r| r.iter().cloned().collect::<Vec<_>>()).collect::<Vec<_>>()),
                _ => gs.h_tilde::<U4>($m, &set, &rx, &alm).map(|h| h.row_iter().map(|r| r.iter().cloned().collect::<Vec<_>>()).collect::<Vec<_>>()),
            }
        }};
    }
    let h = match h!(&m) {
        Ok(h) => h,
        Err(e) => return fail("error", format!("{e}")),
    };
    req!(h.len() == types.len(), "rows", "{} rows", h.len());
    let hp = 1e-4 * a.range * a.el.to_radians().cos();
    let hv = 1e-2;
    // Rounding of positions (as large as the distance to the Moon) in the measurements
    let eps = 4e-16 * (rx.orbit.radius_km.norm() + a.range + 8000.0) * if c.l.fr == 2 || s.moon { 60.0 } else { 4.0 };
    for (k, t) in types.iter().enumerate() {
        for i in 0..9 {
            let want = if i < 6 {
                let step = if i < 3 { hp } else { hv };
                let (Some(p), Some(q)) = (at(i, step), at(i, -step)) else { return Ok(Out::Discard) };
                let d = p.get(*t) - q.get(*t);
                (if *t == MeasurementType::Azimuth { angdiff(d, 0.0) } else { d }) / (2.0 * step)
            } else {
                0.0
            };
            // Scale of the row, and error of the finite difference
            let spd = 20.0 + a.rate.abs();
            let (scale, noise) = match t {
                MeasurementType::Range => (if i < 3 { 1.0 } else { 0.0 }, if i < 3 { eps / hp } else { eps / hv }),
                MeasurementType::Doppler => {
                    let n = 4e-15 * spd + eps / a.range * spd;
                    (if i < 3 { spd / a.range } else { 1.0 }, if i < 3 { n / hp } else { n / hv })
                }
                _ => {
                    let sc = 1f64.to_degrees() / (a.range * a.el.to_radians().cos());
                    // asin near the zenith loses precision
                    let n = eps * sc * 2.0 + 1e-13;
                    (if i < 3 { sc } else { 0.0 }, if i < 3 { n / hp } else { n / hv })
                }
            };
            req!((h[k][i] - want).abs() <= 1e-6 * scale + 4.0 * noise, &format!("{t:?}"), "sensitivity {i} of {t:?} is {} instead of {want} (tolerance {})", h[k][i], 1e-6 * scale + 4.0 * noise);
        }
    }
    // The partials depend on the geometry, not on the values which are reported.
    for (k, t) in types.iter().enumerate() {
        m.data[t] += c.off[k];
    }
    let h2 = match h!(&m) {
        Ok(h) => h,
        Err(e) => return fail("error", format!("{e}")),
    };
    for k in 0..types.len() {
        for i in 0..9 {
            req!(close(h2[k][i], h[k][i], 1e-9, 1e-12), "reported", "sensitivity {i} of {:?} changes from {} to {} with the reported value", types[k], h[k][i], h2[k][i]);
        }
    }
    // No information from what was not measured.
    if c.drop < types.len() {
        let t = types[c.drop];
        m.data.swap_remove(&t);
        let h3 = match h!(&m) {
            Ok(h) => h,
            Err(e) => return fail("error", format!("{e}")),
        };
        for k in 0..types.len() {
            for i in 0..9 {
                let want = if k == c.drop { 0.0 } else { h[k][i] };
                req!(close(h3[k][i], want, 1e-9, 1e-12), "absent", "without {t:?}, sensitivity {i} of {:?} is {} instead of {want}", types[k], h3[k][i]);
            }
        }
    }
    // Unsupported types are refused.
    let u = UNSUPPORTED[c.drop % 6];
    let um = Measurement::new("site".into(), rx.epoch()).with(u, 1.0);
    let us: IndexSet<_> = [u].into_iter().collect();
    req!(gs.h_tilde::<U1>(&um, &us, &rx, &alm).is_err(), "unsupported", "{u:?} has a sensitivity for a ground station");
    Ok(Out::Hit)
}

fn p16() -> Prop {
    Prop {
        id: "P16",
        assumptions: &["Frame transformations of ANISE, over a synthetic ephemeris and IAU-style orientations, are taken as given."],
        subs: vec![
            sub("ground-station", "visible and below 88.5 deg of elevation", 20_000, 300_000, senses, chk_sens),
            sub("interlink", "spacecraft further than 10 km apart", 6000, 100_000, links, chk_link_sens),
            sub("ground-asset", "spacecraft visible from the asset", 6000, 100_000, links, chk_asset),
        ],
    }
}
