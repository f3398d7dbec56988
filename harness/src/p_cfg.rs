//! P26 configurations and encodings.
use crate::fw::*;
use crate::req;
use crate::world::*;
use anise::astro::{Aberration, Location, TerrainMask};
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME, MOON_J2000, SUN_J2000};
use anise::structure::spacecraft::{DragData, Mass, SRPData};
use der::{Decode, Encode};
use hifitime::{Duration, Epoch, TimeScale};
use indexmap::{IndexMap, IndexSet};
use nalgebra::Vector3;
use nyx_space::cosmic::eclipse::ShadowModel;
use nyx_space::cosmic::{GuidanceMode, Spacecraft};
use nyx_space::dynamics::guidance::{LocalFrame, Maneuver, MnvrRepr, ObjectiveEfficiency, ObjectiveWeight, Thruster, mnvr::ImpulsiveManeuver};
use nyx_space::dynamics::sequence::*;
use nyx_space::dynamics::{AtmDensity, Drag, PointMasses, SolarPressure, SolidTides, TidalPerturber};
use nyx_space::io::ConfigRepr;
use nyx_space::io::gravity::GravityFieldConfig;
use nyx_space::md::prelude::{Frame, Objective, Orbit};
use nyx_space::md::StateParameter;
use nyx_space::od::GroundStation;
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, WhiteNoise};
use nyx_space::od::prelude::SigmaRejection;
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrkConfig};
use nyx_space::polyfit::CommonPolynomial;
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions};
use proptest::prelude::*;
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub const PROPS: &[fn() -> Prop] = &[p26];

/// Finite numbers of all sizes, integers included.
fn num() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0),
        3 => (-1000i32..1000).prop_map(|x| x as f64),
        4 => -1e4f64..1e4,
        3 => (-1.0f64..1.0, -18i32..18).prop_map(|(m, e)| m * 10f64.powi(e)),
        1 => (-1.0f64..1.0, -280i32..280).prop_map(|(m, e)| m * 10f64.powi(e)),
    ]
    .boxed()
}

fn pos() -> BoxedStrategy<f64> {
    num().prop_map(|x| x.abs()).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Times {
    /// Nanoseconds since J2000, and time scale
    ns: i64,
    scale: u8,
    /// Durations in nanoseconds
    d: Vec<i64>,
}

const SCALES: [TimeScale; 6] = [TimeScale::TAI, TimeScale::TT, TimeScale::UTC, TimeScale::GPST, TimeScale::TDB, TimeScale::ET];

fn durations() -> BoxedStrategy<i64> {
    prop_oneof![
        2 => (1i64..100_000).prop_map(|s| s * 1_000_000_000),
        2 => (1i64..100_000_000).prop_map(|s| s * 1_000_000),
        2 => 1i64..200_000_000_000_000,
        1 => 1i64..2_000,
    ]
    .boxed()
}

fn times() -> BoxedStrategy<Times> {
    (prop_oneof![(-700_000i64..1_000_000).prop_map(|x| x * 1_000_000_000_000), -600_000_000_000_000_000i64..1_000_000_000_000_000_000], 0u8..6, proptest::collection::vec(durations(), 10))
        .prop_map(|(ns, scale, d)| Times { ns, scale, d })
        .boxed()
}

impl Times {
    fn dur(&self, i: usize) -> Duration {
        Duration::from_total_nanoseconds(self.d[i % self.d.len()] as i128)
    }
    fn epoch(&self, i: usize) -> Epoch {
        // A J2000 TAI reference; the scale is only that of the representation
        let e = Epoch::from_tai_duration(Duration::from_total_nanoseconds(self.ns as i128 + 3_155_716_800_000_000_000)) + self.dur(i);
        e.to_time_scale(SCALES[self.scale as usize])
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    t: Times,
    /// Numbers to pick from
    x: Vec<f64>,
    /// Choices
    b: Vec<u8>,
    names: Vec<String>,
}

fn cfgs() -> BoxedStrategy<Cfg> {
    (times(), proptest::collection::vec(num(), 40), proptest::collection::vec(any::<u8>(), 24), proptest::collection::vec(prop_oneof![4 => "[A-Za-z][A-Za-z0-9 _.-]{0,12}", 1 => "[ -~]{0,10}", 1 => "[a-zé€#:'\"]{1,6}", 1 => Just("null".to_string()), 1 => Just("1.5".to_string()), 1 => Just("no".to_string())], 4))
        .prop_map(|(t, x, b, names)| Cfg { t, x, b, names })
        .boxed()
}

/// Draws from the lists of a case, in order.
struct Draw<'a> {
    c: &'a Cfg,
    x: usize,
    b: usize,
    d: usize,
    n: usize,
}

impl<'a> Draw<'a> {
    fn new(c: &'a Cfg) -> Self {
        Draw { c, x: 0, b: 0, d: 0, n: 0 }
    }
    fn f(&mut self) -> f64 {
        self.x += 1;
        self.c.x[(self.x - 1) % self.c.x.len()]
    }
    fn p(&mut self) -> f64 {
        self.f().abs()
    }
    fn k(&mut self, n: u8) -> u8 {
        self.b += 1;
        let i = self.b - 1;
        (self.c.b[i % self.c.b.len()] as usize + 7 * (i / self.c.b.len())) as u8 % n
    }
    fn yes(&mut self) -> bool {
        self.k(2) == 0
    }
    fn dur(&mut self) -> Duration {
        self.d += 1;
        self.c.t.dur(self.d - 1)
    }
    fn epoch(&mut self) -> Epoch {
        self.d += 1;
        self.c.t.epoch(self.d - 1)
    }
    fn name(&mut self) -> String {
        self.n += 1;
        self.c.names[(self.n - 1) % self.c.names.len()].clone()
    }

    fn frame(&mut self) -> Frame {
        match self.k(5) {
            0 => EARTH_J2000,
            1 => eme2k(),
            2 => moon_j2k(),
            3 => iau_earth(),
            _ => MOON_J2000,
        }
    }
    fn white(&mut self) -> WhiteNoise {
        WhiteNoise { mean: self.f(), sigma: self.p() }
    }
    fn gm(&mut self) -> GaussMarkov {
        let mut g = GaussMarkov::new(self.dur(), self.p()).unwrap();
        if self.yes() {
            g.constant = Some(self.f());
        }
        g
    }
    fn noise(&mut self) -> StochasticNoise {
        StochasticNoise {
            white_noise: if self.yes() { Some(self.white()) } else { None },
            bias: if self.yes() { Some(self.gm()) } else { None },
        }
    }
    fn thruster(&mut self) -> Thruster {
        Thruster { thrust_N: self.p(), isp_s: self.p() }
    }
    fn sc(&mut self) -> Spacecraft {
        let r = [self.f(), self.f(), self.f(), self.f(), self.f(), self.f()];
        let orbit = Orbit::new(r[0], r[1], r[2], r[3], r[4], r[5], self.epoch(), self.frame());
        let mut sc = Spacecraft::builder()
            .orbit(orbit)
            .mass(Mass::from_dry_and_prop_masses(self.p(), self.p()))
            .srp(SRPData { area_m2: self.p(), coeff_reflectivity: self.p() })
            .drag(DragData { area_m2: self.p(), coeff_drag: self.p() })
            .mode([GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit][self.k(3) as usize])
            .build();
        sc.mass.extra_mass_kg = self.p();
        if self.yes() {
            sc.thruster = Some(self.thruster());
        }
        sc
    }
    fn cadence(&mut self) -> Cadence {
        if self.yes() { Cadence::Continuous } else { Cadence::Intermittent { on: self.dur(), off: self.dur() } }
    }
    fn handoff(&mut self) -> Handoff {
        [Handoff::Eager, Handoff::Greedy, Handoff::Overlap][self.k(3) as usize]
    }
    fn scheduler(&mut self) -> Scheduler {
        let mut s = Scheduler::builder().handoff(self.handoff()).cadence(self.cadence()).min_samples(self.k(200) as u32 * 7919).build();
        s.sample_alignment = if self.yes() { Some(self.dur()) } else { None };
        s
    }
    fn strand(&mut self) -> Strand {
        Strand { start: self.epoch(), end: self.epoch() }
    }
    fn trk(&mut self) -> TrkConfig {
        TrkConfig {
            scheduler: if self.yes() { Some(self.scheduler()) } else { None },
            sampling: self.dur(),
            strands: if self.yes() { Some((0..self.k(4)).map(|_| self.strand()).collect()) } else { None },
        }
    }
    fn station(&mut self) -> GroundStation {
        let all = [MeasurementType::Range, MeasurementType::Doppler, MeasurementType::Azimuth, MeasurementType::Elevation, MeasurementType::ReceiveFrequency, MeasurementType::TransmitFrequency, MeasurementType::TransmitFrequencyRate, MeasurementType::X, MeasurementType::Y, MeasurementType::Z];
        let mut types = IndexSet::new();
        let mut noises = IndexMap::new();
        for _ in 0..self.k(4) {
            let t = all[self.k(10) as usize];
            types.insert(t);
            noises.insert(t, self.noise());
        }
        GroundStation {
            name: self.name(),
            location: Location {
                latitude_deg: self.f() % 90.0,
                longitude_deg: self.f() % 360.0,
                height_km: self.f(),
                frame: if self.yes() { IAU_EARTH_FRAME.into() } else { iau_moon().into() },
                terrain_mask: (0..self.k(3)).map(|i| TerrainMask { azimuth_deg: 40.0 * i as f64, elevation_mask_deg: self.f() % 90.0 }).collect(),
                terrain_mask_ignored: self.yes(),
            },
            measurement_types: types,
            integration_time: if self.yes() { Some(self.dur()) } else { None },
            light_time_correction: self.yes(),
            timestamp_noise_s: if self.yes() { Some(self.noise()) } else { None },
            stochastic_noises: if self.yes() { Some(noises) } else { None },
        }
    }
}

/// The spacecraft exactly, unlike its PartialEq
fn same_sc(a: &Spacecraft, b: &Spacecraft) -> bool {
    a.orbit.radius_km == b.orbit.radius_km
        && a.orbit.velocity_km_s == b.orbit.velocity_km_s
        && a.orbit.epoch == b.orbit.epoch
        && a.orbit.frame == b.orbit.frame
        && a.mass == b.mass
        && a.srp == b.srp
        && a.drag == b.drag
        && a.thruster == b.thruster
        && a.mode == b.mode
}

fn der_trip<T: Encode + for<'a> Decode<'a> + Debug>(what: &str, x: &T, cut: u8, same: impl Fn(&T, &T) -> bool) -> Result<(), (String, String)> {
    let sig = format!("der-{what}");
    let buf = match guarded(|| x.to_der()) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return Err((sig, format!("{x:?} does not encode: {e}"))),
        Err(p) => return Err((sig, format!("panic encoding {x:?}: {p}"))),
    };
    match x.encoded_len() {
        Ok(l) if u32::from(l) as usize == buf.len() => {}
        o => return Err((sig, format!("announced {o:?}, encoded {} bytes: {x:?}", buf.len()))),
    }
    match guarded(|| T::from_der(&buf)) {
        Ok(Ok(y)) => {
            if !same(x, &y) {
                return Err((sig, format!("{x:?} decodes as {y:?}")));
            }
        }
        Ok(Err(e)) => return Err((sig, format!("{x:?} does not decode: {e}"))),
        Err(p) => return Err((sig, format!("panic decoding {x:?}: {p}"))),
    }
    // Truncated or extended: an error
    let n = cut as usize * buf.len() / 256;
    if let Err(p) | Ok(Ok(p)) = guarded(|| T::from_der(&buf[..n]).map(|y| format!("decodes as {y:?}"))) {
        return Err((format!("der-{what}-truncated"), format!("{n} of {} bytes of {x:?}: {p}", buf.len())));
    }
    let mut long = buf.clone();
    long.push(cut);
    if let Err(p) | Ok(Ok(p)) = guarded(|| T::from_der(&long).map(|y| format!("decodes as {y:?}"))) {
        return Err((format!("der-{what}-extended"), format!("{} bytes and another one of {x:?}: {p}", buf.len())));
    }
    Ok(())
}

macro_rules! tri {
    ($e:expr) => {
        if let Err((sig, msg)) = $e {
            return fail(&sig, msg);
        }
    };
}

fn chk_der(c: &Cfg) -> R {
    let mut d = Draw::new(c);
    let cut = c.b[23];
    tri!(der_trip("white", &d.white(), cut, |a, b| a == b));
    tri!(der_trip("gauss-markov", &d.gm(), cut, |a, b| a == b));
    let n = d.noise();
    let st = d.station();
    let sc = d.sc();
    let trk = d.trk();
    tri!(der_trip("noise", &n, cut, |a, b| a == b));
    tri!(der_trip("thruster", &d.thruster(), cut, |a, b| a == b));
    tri!(der_trip("spacecraft", &sc, cut, same_sc));
    tri!(der_trip("cadence", &d.cadence(), cut, |a, b| a == b));
    tri!(der_trip("handoff", &d.handoff(), cut, |a, b| a == b));
    tri!(der_trip("scheduler", &d.scheduler(), cut, |a, b| a == b));
    tri!(der_trip("strand", &d.strand(), cut, |a, b| a == b && a.start.time_scale == b.start.time_scale));
    tri!(der_trip("tracking-config", &trk, cut, |a, b| a == b));
    tri!(der_trip("ground-station", &st, cut, |a, b| a == b && a.measurement_types.iter().eq(b.measurement_types.iter())));
    Ok(if sc.thruster.is_some() && st.stochastic_noises.is_some() && (trk.scheduler.is_some() || trk.strands.is_some()) { Out::Hit } else { Out::Trivial })
}

fn yaml_trip<T: ConfigRepr + Clone>(what: &str, x: &T, names: &[String], same: impl Fn(&T, &T) -> bool) -> Result<(), (String, String)> {
    let sig = format!("yaml-{what}");
    let err = |m: String| Err((sig.clone(), m));
    let s = match serde_yml::to_string(x) {
        Ok(s) => s,
        Err(e) => return err(format!("{x:?} does not serialise: {e}")),
    };
    let f = scratch_file("yaml");
    let put = |s: &str| std::fs::write(&f, s).unwrap();
    put(&s);
    let one = T::load(&f);
    let list = serde_yml::to_string(&vec![x.clone(), x.clone()]).unwrap();
    put(&list);
    let many = T::load_many(&f);
    let many2 = T::loads_many(&list);
    let mut map: BTreeMap<String, T> = BTreeMap::new();
    for n in names {
        map.insert(n.clone(), x.clone());
    }
    let named = serde_yml::to_string(&map).unwrap();
    put(&named);
    let nm = T::load_named(&f);
    let nm2 = T::loads_named(&named);
    // Not that kind of configuration
    let wrong = T::load_many(&f);
    let _ = std::fs::remove_file(&f);
    let gone = T::load(&f);
    match one {
        Ok(y) if same(x, &y) => {}
        o => return err(format!("{x:?} reads as {o:?} from\n{s}")),
    }
    for m in [many, many2] {
        match m {
            Ok(v) if v.len() == 2 && v.iter().all(|y| same(x, y)) => {}
            o => return err(format!("a list of two {x:?} reads as {o:?} from\n{list}")),
        }
    }
    for m in [nm, nm2] {
        match m {
            Ok(v) if v.keys().eq(map.keys()) && v.values().all(|y| same(x, y)) => {}
            o => return err(format!("a map of {x:?} under {names:?} reads as {o:?} from\n{named}")),
        }
    }
    if wrong.is_ok() {
        return err("a map of configurations reads as a list".to_string());
    }
    if gone.is_ok() {
        return err("a missing file reads".to_string());
    }
    Ok(())
}

fn serde_trip<T: Serialize + DeserializeOwned + Debug>(what: &str, x: &T, same: impl Fn(&T, &T) -> bool) -> Result<(), (String, String)> {
    let s = serde_yml::to_string(x).map_err(|e| (format!("yaml-{what}"), format!("{x:?} does not serialise: {e}")))?;
    match serde_yml::from_str::<T>(&s) {
        Ok(y) if same(x, &y) => Ok(()),
        o => Err((format!("yaml-{what}"), format!("{x:?} reads as {o:?} from\n{s}"))),
    }
}

fn chk_yaml(c: &Cfg) -> R {
    let mut d = Draw::new(c);
    let n = &c.names;
    // Epochs in dynamical time scales are written as calendar dates, to the nanosecond in that scale
    let near = |a: Epoch, b: Epoch| (a - b).abs() <= if c.t.scale >= 4 { Duration::from_total_nanoseconds(40) } else { Duration::ZERO };
    tri!(yaml_trip("gauss-markov", &d.gm(), n, |a, b| a == b));
    tri!(yaml_trip("rejection", &SigmaRejection { num_sigmas: d.p() }, n, |a, b| a == b));
    let st = d.station();
    let sc = d.sc();
    let trk = d.trk();
    tri!(yaml_trip("ground-station", &st, n, |a, b| a == b && a.measurement_types.iter().eq(b.measurement_types.iter())));
    tri!(yaml_trip("spacecraft", &sc, n, |a, b| {
        let mut b = *b;
        if !near(a.orbit.epoch, b.orbit.epoch) {
            return false;
        }
        b.orbit.epoch = a.orbit.epoch;
        same_sc(a, &b)
    }));
    let same_strand = |a: &Strand, b: &Strand| near(a.start, b.start) && near(a.end, b.end);
    tri!(yaml_trip("tracking-config", &trk, n, |a, b| a.scheduler == b.scheduler
        && a.sampling == b.sampling
        && match (&a.strands, &b.strands) {
            (None, None) => true,
            (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_strand(a, b)),
            _ => false,
        }));
    tri!(serde_trip("noise", &d.noise(), |a, b| a == b));
    tri!(serde_trip("scheduler", &d.scheduler(), |a, b| a == b));
    tri!(serde_trip("cadence", &d.cadence(), |a, b| a == b));
    tri!(serde_trip("strand", &d.strand(), same_strand));
    tri!(serde_trip("options", &options(&mut d), |a, b| a == b));
    tri!(serde_trip("maneuver", &maneuver(&mut d), |a, b| near(a.start, b.start) && near(a.end, b.end) && a.thrust_prct == b.thrust_prct && a.representation == b.representation && a.frame == b.frame));
    // What is not a duration is refused
    let mut bad = d.scheduler();
    bad.sample_alignment = Some(Duration::from_seconds(10.0));
    let text = serde_yml::to_string(&bad).unwrap().replace("10 s", "10 parsecs");
    let got = serde_yml::from_str::<Scheduler>(&text);
    req!(got.is_err(), "yaml-bad-duration", "a sample alignment of `10 parsecs` reads as {got:?}");
    let text = serde_yml::to_string(&TrkConfig { scheduler: None, sampling: Duration::from_seconds(10.0), strands: None }).unwrap().replace("10 s", "10 parsecs");
    req!(text.parse::<TrkConfig>().is_err(), "yaml-bad-duration", "a sampling of `10 parsecs` is accepted");
    Ok(if sc.thruster.is_some() && st.stochastic_noises.is_some() && (trk.scheduler.is_some() || trk.strands.is_some()) { Out::Hit } else { Out::Trivial })
}

fn options(d: &mut Draw) -> IntegratorOptions {
    let mut o = IntegratorOptions::builder()
        .init_step(d.dur())
        .min_step(d.dur())
        .max_step(d.dur())
        .tolerance(d.p())
        .attempts(d.k(255))
        .fixed_step(d.yes())
        .error_ctrl([ErrorControl::RSSCartesianState, ErrorControl::RSSCartesianStep, ErrorControl::RSSState, ErrorControl::RSSStep, ErrorControl::LargestError, ErrorControl::LargestState, ErrorControl::LargestStep][d.k(7) as usize])
        .build();
    if d.yes() {
        o.integration_frame = Some(d.frame());
    }
    o
}

fn poly(d: &mut Draw) -> CommonPolynomial {
    match d.k(3) {
        0 => CommonPolynomial::Constant { a: d.f() },
        1 => CommonPolynomial::Linear { a: d.f(), b: d.f() },
        _ => CommonPolynomial::Quadratic { a: d.f(), b: d.f(), c: d.f() },
    }
}

fn local(d: &mut Draw) -> LocalFrame {
    [LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::VNC, LocalFrame::RCN][d.k(4) as usize]
}

fn maneuver(d: &mut Draw) -> Maneuver {
    Maneuver {
        start: d.epoch(),
        end: d.epoch(),
        thrust_prct: d.p(),
        representation: if d.yes() { MnvrRepr::Vector(Vector3::new(d.f(), d.f(), d.f())) } else { MnvrRepr::Angles { azimuth: poly(d), elevation: poly(d) } },
        frame: local(d),
    }
}

fn objective(d: &mut Draw) -> Objective {
    // Dhall does not hold parameters without an argument (serde_dhall: tuple variants), YAML does
    use nyx_space::md::prelude::OrbitalElement as E;
    let p = match d.k(6) {
        0 => StateParameter::Element(E::SemiMajorAxis),
        1 => StateParameter::Element(E::Inclination),
        2 => StateParameter::ThrustInPlane(local(d)),
        3 => StateParameter::ThrustOutOfPlane(local(d)),
        4 => StateParameter::Element(E::AoP),
        _ => StateParameter::Element(E::Eccentricity),
    };
    let mut o = Objective::within_tolerance(p, d.f(), d.p());
    o.multiplicative_factor = d.f();
    o.additive_factor = d.f();
    o
}

fn dynamics(d: &mut Draw) -> Dynamics {
    Dynamics {
        accel_models: AccelModels {
            point_masses: if d.yes() {
                Some(PointMasses {
                    celestial_objects: (0..d.k(3)).map(|i| [10, 301, 5][i as usize]).collect(),
                    correction: if d.yes() { Some(Aberration { converged: d.yes(), stellar: d.yes(), transmit_mode: d.yes() }) } else { None },
                })
            } else {
                None
            },
            gravity_field: if d.yes() {
                Some(GravityFieldConfig { degree: d.k(100) as usize, order: d.k(100) as usize, filepath: d.name().into(), gunzipped: d.yes(), frame: d.frame().into() })
            } else {
                None
            },
            solid_tides: if d.yes() {
                Some(SolidTides { frame: d.frame(), k2: d.f(), k3: d.f(), perturbers: (0..d.k(3)).map(|_| TidalPerturber { frame: d.frame(), compute_degree_3: d.yes() }).collect() })
            } else {
                None
            },
        },
        force_models: ForceModels {
            solar_pressure: if d.yes() {
                Some(SolarPressure { phi: d.p(), shadow_model: ShadowModel { light_source: SUN_J2000, shadow_bodies: (0..d.k(3)).map(|_| d.frame()).collect() }, estimate: d.yes() })
            } else {
                None
            },
            drag: if d.yes() {
                Some(Drag {
                    density: match d.k(3) {
                        0 => AtmDensity::Constant(d.p()),
                        1 => AtmDensity::Exponential { rho0: d.p(), r0: d.p(), ref_alt_m: d.p() },
                        _ => AtmDensity::StdAtm { max_alt_m: d.p() },
                    },
                    frame: d.frame(),
                    estimate: d.yes(),
                })
            } else {
                None
            },
        },
    }
}

fn properties(d: &mut Draw) -> Option<PhysicalProperties> {
    if d.yes() {
        return None;
    }
    Some(PhysicalProperties {
        mass: if d.yes() { Some(Mass::from_dry_and_prop_masses(d.p(), d.p())) } else { None },
        srp: if d.yes() { Some(SRPData { area_m2: d.p(), coeff_reflectivity: d.p() }) } else { None },
        drag: if d.yes() { Some(DragData { area_m2: d.p(), coeff_drag: d.p() }) } else { None },
    })
}

fn impulse(d: &mut Draw) -> Option<ImpulsiveManeuver> {
    if d.yes() { None } else { Some(ImpulsiveManeuver { local_frame: local(d), dv_km_s: Vector3::new(d.f(), d.f(), d.f()) }) }
}

fn sequence(d: &mut Draw) -> SpacecraftSequence {
    let mut s = SpacecraftSequence::default();
    for _ in 0..d.k(3) {
        let t = d.thruster();
        s.thruster_sets.insert(d.name(), t);
    }
    for _ in 0..1 + d.k(2) {
        let p = PropagatorConfig { dynamics: dynamics(d), method: [IntegratorMethod::RungeKutta89, IntegratorMethod::DormandPrince78, IntegratorMethod::RungeKutta4][d.k(3) as usize], options: options(d) };
        s.propagators.insert(d.name(), p);
    }
    for _ in 0..1 + d.k(3) {
        let phase = Phase::Activity {
            name: d.name(),
            propagator: d.name(),
            guidance: if d.yes() {
                Some(Box::new(GuidanceConfig {
                    thruster_model: d.name(),
                    disable_prop_mass: d.yes(),
                    law: match d.k(3) {
                        0 => SteeringLaw::FiniteBurn(maneuver(d)),
                        1 => SteeringLaw::Kluever { objectives: (0..d.k(3)).map(|_| ObjectiveWeight { objective: objective(d), weight: d.p() }).collect(), max_eclipse_prct: if d.yes() { Some(d.p()) } else { None } },
                        _ => SteeringLaw::Ruggiero { objectives: (0..d.k(3)).map(|_| ObjectiveEfficiency { objective: objective(d), efficiency: d.p() }).collect(), max_eclipse_prct: if d.yes() { Some(d.p()) } else { None } },
                    },
                }))
            } else {
                None
            },
            on_entry: match d.k(4) {
                0 => None,
                1 => Some(Box::new(DiscreteEvent::FrameSwap { new_frame: d.frame() })),
                2 => Some(Box::new(DiscreteEvent::Staging { impulsive_maneuver: impulse(d), decrement_properties: properties(d) })),
                _ => Some(Box::new(DiscreteEvent::Docking { impulsive_maneuver: impulse(d), increment_properties: properties(d) })),
            },
            disabled: d.yes(),
        };
        s.seq.insert(d.epoch(), phase);
    }
    s.seq.insert(d.epoch(), Phase::Terminate);
    s
}

/// A canonical text of a sequence, keys sorted
fn canon(s: &SpacecraftSequence) -> String {
    // A list of pairs or a map alike
    let mut v = serde_json::to_value(s).unwrap_or_default();
    for k in ["thruster_sets", "propagators"] {
        if let Some(x) = v.get_mut(k) {
            if let Some(l) = x.as_array() {
                *x = l.iter().map(|p| (p[0].as_str().unwrap_or_default().to_string(), p[1].clone())).collect::<serde_json::Map<_, _>>().into();
            }
        }
    }
    v.to_string()
}

fn chk_seq(c: &Cfg) -> R {
    // Numbers that a decimal text may hold
    let mut d = Draw::new(c);
    let s = sequence(&mut d);
    let want = canon(&s);
    let text = match serde_yml::to_string(&s) {
        Ok(t) => t,
        Err(e) => return fail("seq-yaml", format!("does not serialise: {e}")),
    };
    match serde_yml::from_str::<SpacecraftSequence>(&text) {
        Ok(y) => req!(canon(&y) == want, "seq-yaml", "{want}\nreads as\n{}", canon(&y)),
        Err(e) => return fail("seq-yaml", format!("{e}: {text}")),
    }
    // Parsing the Dhall text of a whole sequence takes the parser minutes: the value is typed, then read
    let ty = <SpacecraftSequence as serde_dhall::StaticType>::static_type();
    let value = match serde_dhall::ToDhall::to_dhall(&s, Some(&ty)) {
        Ok(v) => v,
        Err(e) => return fail("seq-dhall", format!("{want} is not of the type of a sequence: {}", e.to_string().chars().rev().take(600).collect::<String>().chars().rev().collect::<String>())),
    };
    match <SpacecraftSequence as serde_dhall::FromDhall>::from_dhall(&value) {
        Ok(y) => req!(canon(&y) == want, "seq-dhall", "{want}\nreads as\n{}", canon(&y)),
        Err(e) => return fail("seq-dhall", format!("{e}: {want}")),
    }
    let text = serde_dhall::serialize(&s).static_type_annotation().to_string();
    req!(text.is_ok(), "seq-dhall", "{:?}", text.err().map(|e| e.to_string()));
    // Names may be a list of pairs or a map
    let mut v = serde_json::from_str::<serde_json::Value>(&want).unwrap();
    let back: Result<SpacecraftSequence, _> = serde_json::from_value(v.clone());
    match back {
        Ok(y) => req!(canon(&y) == want, "seq-map", "{want}\nreads as\n{}", canon(&y)),
        Err(e) => return fail("seq-map", format!("{e}: {want}")),
    }
    v["seq"][0] = serde_json::Value::Null;
    req!(serde_json::from_value::<SpacecraftSequence>(v).is_err(), "seq-bad", "a phase is missing, the sequence reads");
    Ok(Out::Hit)
}

fn dhall_trip<T: Serialize + DeserializeOwned + Debug + serde_dhall::StaticType>(what: &str, x: &T) -> Result<(), (String, String)> {
    let err = |m: String| Err((format!("dhall-{what}"), m));
    let text = match serde_dhall::serialize(x).static_type_annotation().to_string() {
        Ok(t) => t,
        Err(e) => return err(format!("{x:?} does not serialise: {e}")),
    };
    match serde_dhall::from_str(&text).static_type_annotation().parse::<T>() {
        Ok(y) if format!("{y:?}") == format!("{x:?}") => Ok(()),
        Ok(y) => err(format!("{x:?} reads as {y:?} from {text}")),
        Err(e) => err(format!("{e}: {text}")),
    }
}

fn chk_dhall(c: &Cfg) -> R {
    let mut d = Draw::new(c);
    tri!(dhall_trip("thruster", &d.thruster()));
    tri!(dhall_trip("objective", &objective(&mut d)));
    tri!(dhall_trip("polynomial", &poly(&mut d)));
    tri!(dhall_trip("error-control", &options(&mut d).error_ctrl));
    tri!(dhall_trip("density", &AtmDensity::Exponential { rho0: d.p(), r0: d.p(), ref_alt_m: d.p() }));
    Ok(Out::Hit)
}

fn p26() -> Prop {
    Prop {
        id: "P26",
        assumptions: &[
            "the ASN.1 encoding of a spacecraft holds neither its thrust direction nor its STM",
            "epochs in TDB and ET are written as text to within 40 ns",
            "the state parameters without an argument are not generated for Dhall, which serde_dhall cannot hold",
            "a whole sequence is read from the typed Dhall value, because the third-party Dhall parser takes exponential time on its text",
        ],
        subs: vec![
            sub("der", "spacecraft with a thruster, station with noises, tracking with a scheduler or strands", 150_000, 3_000_000, cfgs, chk_der),
            sub("yaml", "spacecraft with a thruster, station with noises, tracking with a scheduler or strands", 15_000, 300_000, cfgs, chk_yaml),
            sub("dhall", "all", 5_000, 60_000, cfgs, chk_dhall),
            sub("sequence", "all", 10_000, 150_000, cfgs, chk_seq),
        ],
    }
}
