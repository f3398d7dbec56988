//! P17 tracking schedules and arc simulation, P18 tracking data operations, P19 tracking data files.
use crate::fw::*;
use crate::p_msr::{Site, TYPES, sites};
use crate::req;
use crate::world::*;
use anise::prelude::Orbit;
use anise::structure::LocationDataSet;
use hifitime::{Duration, Epoch, TimeScale};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::io::ExportCfg;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::GroundStation;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use nyx_space::od::noise::{StochasticNoise, WhiteNoise};
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrackingArcSim, TrkConfig};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::Bound;

pub const PROPS: &[fn() -> Prop] = &[p17, p18, p19];

const NAMES: [&str; 4] = ["Canberra", "Goldstone", "Madrid", "Atlantis station"];

// ---------------------------------------------------------------------------------------------
// P17
// ---------------------------------------------------------------------------------------------

/// States of a two-body orbit, every `step` seconds for `dur` seconds.
pub fn kepler_traj(o: &Orbit, dur: f64, step: f64) -> Traj<Spacecraft> {
    let mut t = Traj::new();
    let mu = o.frame.mu_km3_s2().unwrap();
    let n = (dur / step).ceil() as i64;
    for k in 0..=n {
        let dt = rnd3(dur * k as f64 / n as f64);
        let (r, v) = kepler(o.radius_km, o.velocity_km_s, mu, dt);
        t.states.push(Spacecraft::from(Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, o.epoch + secs(dt), o.frame)));
    }
    t.finalize();
    t
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dev {
    s: Site,
    /// Measurement types
    n: usize,
    sampling: f64,
    /// Start and duration of each strand, as fractions of the trajectory
    strands: Vec<(f64, f64)>,
    integ: Option<f64>,
    handoff: u8,
    on_off: Option<(f64, f64)>,
    min_samples: u32,
    align: Option<f64>,
    /// 0: no configuration for this device, otherwise configured
    cfg: u8,
    /// Uses fixed strands instead of a scheduler, in the schedule check
    fixed: bool,
}

fn devs() -> BoxedStrategy<Dev> {
    (
        sites(),
        1usize..5,
        prop_oneof![10.0..120.0f64, Just(60.0), Just(30.0)],
        prop::collection::vec((0.0..1.0f64, 0.0..1.0f64), 1..4),
        prop::option::weighted(0.25, 1.0..60.0f64),
        0u8..3,
        prop::option::weighted(0.35, (60.0..1800.0f64, 60.0..7200.0f64)),
        prop_oneof![Just(0u32), 1u32..20],
        prop_oneof![Just(None), Just(Some(1.0)), Just(Some(10.0)), Just(Some(60.0)), Just(Some(300.0))],
        0u8..10,
        prop::bool::weighted(0.15),
    )
        .prop_map(|(mut s, n, sampling, strands, integ, handoff, on_off, min_samples, align, cfg, fixed)| {
            s.moon = false;
            Dev {
                s,
                n,
                sampling: rnd3(sampling),
                strands,
                integ: integ.map(rnd3),
                handoff,
                on_off: on_off.map(|(a, b)| (rnd3(a), rnd3(b))),
                min_samples,
                align,
                cfg,
                fixed,
            }
        })
        .boxed()
}

impl Dev {
    fn device(&self, name: &str, noise: bool) -> GroundStation {
        let mut gs = self.s.station(name);
        for t in TYPES.iter().take(self.n) {
            let white_noise = if noise { Some(WhiteNoise { mean: 0.0, sigma: 1e-3 }) } else { None };
            gs = gs.with_msr_type(*t, StochasticNoise { white_noise, bias: None });
        }
        gs.integration_time = self.integ.map(secs);
        gs
    }
    fn strands(&self, t0: Epoch, dur: f64, over: f64) -> Vec<Strand> {
        self.strands
            .iter()
            .map(|(a, d)| {
                let start = rnd3(a * dur);
                // May end after the trajectory
                let len = rnd3(d * (dur * over - start)).max(self.sampling + 0.001);
                Strand { start: t0 + secs(start), end: t0 + secs(start) + secs(len) }
            })
            .collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sim {
    o: GenOrbit,
    dur: f64,
    devs: Vec<Dev>,
    seed: u64,
    noise: bool,
}

fn sims() -> BoxedStrategy<Sim> {
    (orbits(6900.0, 42000.0, 0.4), 0.2..2.5f64, prop::collection::vec(devs(), 1..5), any::<u64>(), prop::bool::weighted(0.3))
        .prop_map(|(o, revs, devs, seed, noise)| {
            let dur = rnd3((revs * o.period_s(MU_EARTH)).min(30_000.0));
            Sim { o, dur, devs, seed, noise }
        })
        .boxed()
}

impl Sim {
    fn traj(&self) -> Traj<Spacecraft> {
        let step = (self.o.period_s(MU_EARTH) / 120.0 * (1.0 - self.o.ecc)).min(120.0);
        kepler_traj(&self.o.earth(), self.dur, step)
    }
}

/// The measurements which these strands should give: device by device, in the order of the strands.
/// None marks a measurement too close to the limit of visibility to tell.
fn expected(c: &Sim, traj: &Traj<Spacecraft>, cfgs: &BTreeMap<String, TrkConfig>) -> BTreeMap<(Epoch, String), Option<Vec<(MeasurementType, f64)>>> {
    let mut out = BTreeMap::new();
    let last = traj.last().epoch();
    let first = traj.first().epoch();
    for (i, d) in c.devs.iter().enumerate() {
        let Some(cfg) = cfgs.get(NAMES[i]) else { continue };
        let Some(strands) = &cfg.strands else { continue };
        for s in strands {
            let mut k = 0i64;
            loop {
                let e = s.start + cfg.sampling * k;
                if e > s.end || e > last {
                    break;
                }
                k += 1;
                let ends: Vec<Epoch> = match d.integ {
                    None => vec![e],
                    Some(dt) => vec![e - secs(dt), e],
                };
                if ends[0] < first {
                    continue;
                }
                let aers: Vec<_> = ends.iter().map(|e| d.s.aer(&traj.at(*e).unwrap().orbit)).collect();
                let m: Vec<_> = aers.iter().map(|a| d.s.margin(a)).collect();
                if m.iter().all(|m| m.0 < 0.0 || m.1) || m.iter().any(|m| m.0 < 0.0 && !m.1) {
                    if !m.iter().any(|m| m.0 < 0.0 && !m.1) {
                        out.insert((e, NAMES[i].to_string()), None);
                    }
                    continue;
                }
                if m.iter().any(|m| m.1) {
                    out.insert((e, NAMES[i].to_string()), None);
                    continue;
                }
                let mut vals = Vec::new();
                for t in TYPES.iter().take(d.n) {
                    let v = if aers.len() == 1 {
                        aers[0].get(*t)
                    } else if *t == MeasurementType::Azimuth {
                        let da = (aers[1].az - aers[0].az + 180.0).rem_euclid(360.0) - 180.0;
                        (aers[0].az + da / 2.0).rem_euclid(360.0)
                    } else {
                        0.5 * (aers[0].get(*t) + aers[1].get(*t))
                    };
                    vals.push((*t, v));
                }
                out.insert((e, NAMES[i].to_string()), Some(vals));
            }
        }
    }
    out
}

fn chk_meas(c: &Sim, got: &TrackingDataArc, want: &BTreeMap<(Epoch, String), Option<Vec<(MeasurementType, f64)>>>) -> Result<usize, Fail> {
    let mut seen = 0;
    for w in got.measurements.windows(2) {
        req!(
            w[0].epoch < w[1].epoch || (w[0].epoch == w[1].epoch && w[0].tracker < w[1].tracker),
            "order",
            "{} then {}",
            w[0],
            w[1]
        );
    }
    for m in &got.measurements {
        let Some(w) = want.get(&(m.epoch, m.tracker.clone())) else {
            return fail("extra", format!("unexpected measurement {m}"));
        };
        req!(!m.rejected, "rejected", "{m} is rejected");
        seen += 1;
        if let Some(w) = w {
            req!(m.data.len() == w.len(), "types", "{m} instead of {w:?}");
            for (t, v) in w {
                let Some(g) = m.data.get(t) else { return fail("types", format!("{t:?} missing from {m}")) };
                let d = if *t == MeasurementType::Azimuth { ((g - v + 180.0).rem_euclid(360.0) - 180.0).abs() } else { (g - v).abs() };
                let el = w.iter().find(|x| x.0 == MeasurementType::Elevation).map(|x| x.1).unwrap_or(89.0f64).min(89.99);
                let tol = if c.noise { 0.02 } else { 2e-6 } + if *t == MeasurementType::Azimuth { 1e-6 / el.to_radians().cos() } else { 0.0 };
                req!(d < tol, "value", "{t:?} is {g} instead of {v} in {m}");
            }
        }
    }
    let have: BTreeSet<(Epoch, &str)> = got.measurements.iter().map(|m| (m.epoch, m.tracker.as_str())).collect();
    for (k, v) in want {
        if v.is_some() {
            req!(have.contains(&(k.0, k.1.as_str())), "missing", "no measurement of {} at {}", k.1, k.0);
        }
    }
    Ok(seen)
}

/// Fixed strands: every sample of the strands in view, and nothing else; reproducible.
fn chk_arc(c: &Sim) -> R {
    let alm = almanac();
    let traj = c.traj();
    let t0 = traj.first().epoch();
    let devices: BTreeMap<String, GroundStation> = c.devs.iter().enumerate().map(|(i, d)| (NAMES[i].to_string(), d.device(NAMES[i], c.noise))).collect();
    let mut cfgs = BTreeMap::new();
    for (i, d) in c.devs.iter().enumerate() {
        if d.cfg > 0 {
            let cfg = TrkConfig::builder().sampling(secs(d.sampling)).strands(d.strands(t0, c.dur, 1.3)).build();
            cfgs.insert(NAMES[i].to_string(), cfg);
        }
    }
    let sim = TrackingArcSim::<Spacecraft, GroundStation>::with_seed(devices.clone(), traj.clone(), cfgs.clone(), c.seed);
    if cfgs.is_empty() {
        req!(sim.is_err(), "no-config", "accepted a simulation without configuration");
        return Ok(Out::Trivial);
    }
    let mut sim = sim.unwrap();
    let arc = sim.generate_measurements(&alm).unwrap();
    let want = expected(c, &traj, &cfgs);
    let n = chk_meas(c, &arc, &want)?;
    // The same seed gives the same data, bit by bit.
    let mut other = TrackingArcSim::<Spacecraft, GroundStation>::with_seed(devices.clone(), traj.clone(), cfgs.clone(), c.seed).unwrap();
    let arc2 = other.generate_measurements(&alm).unwrap();
    req!(arc.len() == arc2.len(), "seed", "{} and {} measurements with the same seed", arc.len(), arc2.len());
    for (a, b) in arc.measurements.iter().zip(&arc2.measurements) {
        req!(a.epoch == b.epoch && a.tracker == b.tracker && a.data == b.data, "seed", "{a} then {b} with the same seed");
    }
    if c.noise && n > 0 {
        // Another seed, or another call, gives other noise at the same epochs.
        let mut other = TrackingArcSim::<Spacecraft, GroundStation>::with_seed(devices, traj, cfgs, c.seed ^ (0x5555 << (c.seed % 48))).unwrap();
        for arc2 in [other.generate_measurements(&alm).unwrap(), sim.generate_measurements(&alm).unwrap()] {
            req!(arc.len() == arc2.len(), "reseed", "{} and {} measurements", arc.len(), arc2.len());
            for (a, b) in arc.measurements.iter().zip(&arc2.measurements) {
                req!(a.epoch == b.epoch && a.tracker == b.tracker, "reseed", "{a} and {b}");
                req!(a.data.iter().all(|(k, v)| b.data[k] != *v), "reseed", "the same noise twice: {a}");
            }
        }
    }
    Ok(if n > 0 { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, PartialEq)]
struct Slot {
    name: usize,
    start: Epoch,
    end: Epoch,
}

/// Schedules: the passes, rounded, in cadence, and handed off from one station to the other.
fn chk_schedule(c: &Sim) -> R {
    let alm = almanac();
    let traj = c.traj();
    let t0 = traj.first().epoch();
    let devices: BTreeMap<String, GroundStation> = c.devs.iter().enumerate().map(|(i, d)| (NAMES[i].to_string(), d.device(NAMES[i], c.noise))).collect();
    let mut cfgs = BTreeMap::new();
    let mut slots: Vec<Slot> = Vec::new();
    let mut passes = 0;
    for (i, d) in c.devs.iter().enumerate() {
        if d.cfg == 0 {
            continue;
        }
        let mut cfg = TrkConfig::builder().sampling(secs(d.sampling)).build();
        if d.fixed {
            cfg.scheduler = None;
            let st = d.strands(t0, c.dur, 1.0);
            slots.extend(st.iter().map(|s| Slot { name: i, start: s.start, end: s.end }));
            cfg.strands = Some(st);
        } else {
            cfg.strands = None;
            cfg.scheduler = Some(Scheduler {
                handoff: [Handoff::Eager, Handoff::Greedy, Handoff::Overlap][d.handoff as usize],
                cadence: match d.on_off {
                    None => Cadence::Continuous,
                    Some((on, off)) => Cadence::Intermittent { on: secs(on), off: secs(off) },
                },
                min_samples: d.min_samples,
                sample_alignment: d.align.map(secs),
            });
            // The passes, from the event finder.
            let mut set = LocationDataSet::default();
            set.push(devices[NAMES[i]].location.clone(), Some(7), Some("here")).unwrap();
            let a2 = (*alm).clone().with_location_data(set);
            let arcs = match a2.report_visibility_arcs(&traj, 7, t0, traj.last().epoch(), secs(d.sampling), None) {
                Ok(a) => a,
                Err(_) => return Ok(Out::Discard),
            };
            let mut prev_end: Option<Epoch> = None;
            for a in &arcs {
                let (r, f) = (a.rise.orbit.epoch, a.fall.orbit.epoch);
                if f - r < secs(d.sampling) * i64::from(d.min_samples) {
                    continue;
                }
                passes += 1;
                let (mut s, mut e) = (r, f);
                if let Some(al) = d.align {
                    s = s.round(secs(al));
                    e = e.round(secs(al));
                }
                if let Some((on, off)) = d.on_off {
                    if let Some(p) = prev_end {
                        s = s.max(p + secs(off));
                    }
                    e = e.min(s + secs(on));
                    if s > e {
                        continue;
                    }
                }
                prev_end = Some(e);
                slots.push(Slot { name: i, start: s, end: e });
            }
        }
        cfgs.insert(NAMES[i].to_string(), cfg);
    }
    if cfgs.is_empty() {
        return Ok(Out::Trivial);
    }
    // A configuration without device is of no consequence.
    cfgs.insert("nobody".to_string(), TrkConfig::builder().strands(vec![Strand { start: t0, end: traj.last().epoch() }]).build());
    let mut sim = TrackingArcSim::<Spacecraft, GroundStation>::with_seed(devices, traj.clone(), cfgs.clone(), c.seed).unwrap();
    // Without a schedule there is nothing to simulate.
    let any_sched = c.devs.iter().any(|d| d.cfg > 0 && !d.fixed);
    req!(sim.generate_measurements(&alm).is_err() == any_sched, "unscheduled", "measurements before the schedule was built");
    let got = match sim.generate_schedule(&alm) {
        Ok(g) => g,
        Err(e) => return fail("failed", format!("{e}")),
    };
    // Handoffs, station by station in chronological order.
    let sampling = |s: &Slot| secs(c.devs[s.name].sampling);
    let rule = |s: &Slot| if c.devs[s.name].fixed { 2 } else { c.devs[s.name].handoff };
    let (mut handoffs, mut done): (usize, Vec<Slot>) = (0, Vec::new());
    let mut todo = slots.clone();
    let mut ties = false;
    while !todo.is_empty() {
        // Stable: devices by name, then strands in their order.
        let key = |s: &Slot| (s.start, NAMES[s.name]);
        todo.sort_by(|a, b| key(a).cmp(&key(b)));
        // Equal starts may be handed off in either order
        ties |= todo.windows(2).any(|w| w[0].start == w[1].start);
        let mut this = todo.remove(0);
        match rule(&this) {
            0 => {
                if let Some(next) = todo.first()
                    && next.start <= this.end
                {
                    handoffs += 1;
                    this.end = next.start - sampling(&this);
                    if this.end < this.start {
                        continue;
                    }
                }
            }
            1 => {
                for next in todo.iter_mut() {
                    if next.start <= this.end {
                        handoffs += 1;
                        next.start = this.end + sampling(next);
                    }
                }
                todo.retain(|s| s.start <= s.end);
            }
            _ => {}
        }
        done.push(this);
    }
    for (i, d) in c.devs.iter().enumerate() {
        if d.cfg == 0 {
            continue;
        }
        let g = &got[NAMES[i]];
        req!(g.scheduler.is_none(), "scheduler", "the scheduler of {} is still there", NAMES[i]);
        req!(g.sampling == secs(d.sampling), "sampling", "sampling of {} became {}", NAMES[i], g.sampling);
        let Some(strands) = &g.strands else { return fail("strands", format!("no strands for {}", NAMES[i])) };
        for s in strands {
            req!(s.start <= s.end, "reversed", "{} ends before it starts: {s}", NAMES[i]);
            req!(
                slots.iter().any(|w| w.name == i && w.start <= s.start && s.end <= w.end),
                "outside",
                "{} tracks on {s}, outside of its passes {:?}",
                NAMES[i],
                slots.iter().filter(|w| w.name == i).collect::<Vec<_>>()
            );
        }
        if !ties {
            let mut g: Vec<(Epoch, Epoch)> = strands.iter().map(|s| (s.start, s.end)).collect();
            let mut w: Vec<(Epoch, Epoch)> = done.iter().filter(|s| s.name == i).map(|s| (s.start, s.end)).collect();
            g.sort();
            w.sort();
            req!(g == w, "strands", "{} has {g:?} instead of {w:?}", NAMES[i]);
        }
    }
    // Nobody else tracks while a station tracks that does not allow it.
    let all: Vec<(usize, Strand)> =
        c.devs.iter().enumerate().filter(|(_, d)| d.cfg > 0).flat_map(|(i, _)| got[NAMES[i]].strands.clone().unwrap().into_iter().map(move |s| (i, s))).collect();
    for (i, a) in &all {
        for (j, b) in &all {
            let rule_of_first = if c.devs[*i].fixed { 2 } else { c.devs[*i].handoff };
            if i != j && rule_of_first != 2 && (a.start < b.start || (a.start == b.start && !ties)) {
                req!(b.start > a.end, "overlap", "{} on {a} and {} on {b}", NAMES[*i], NAMES[*j]);
            }
        }
    }
    req!(sim.generate_schedule(&alm).unwrap() == got, "deterministic", "the schedule changed");
    // And the measurements are those of the strands.
    sim.build_schedule(&alm).unwrap();
    let arc = sim.generate_measurements(&alm).unwrap();
    let early = all.iter().any(|(_, s)| s.start < t0);
    if !early {
        let want = expected(c, &traj, &got);
        chk_meas(c, &arc, &want)?;
    }
    Ok(if passes == 0 {
        Out::Trivial
    } else if handoffs > 0 || c.devs.iter().any(|d| d.on_off.is_some() || d.align.is_some()) {
        Out::Hit
    } else {
        Out::Trivial
    })
}

fn p17() -> Prop {
    Prop {
        id: "P17",
        assumptions: &[
            "passes are those found by the event finder of ANISE, which is a dependency",
            "samples within 1e-7 deg of the terrain mask are not judged",
            "strands start within the trajectory",
        ],
        subs: vec![
            sub("strands", "at least one measurement", 1500, 40_000, sims, chk_arc),
            sub("schedule", "passes with a handoff, a cadence or an alignment", 800, 20_000, sims, chk_schedule),
        ],
    }
}
// ---------------------------------------------------------------------------------------------
// P18
// ---------------------------------------------------------------------------------------------

const ALL: [MeasurementType; 10] = [
    MeasurementType::Range,
    MeasurementType::Doppler,
    MeasurementType::Azimuth,
    MeasurementType::Elevation,
    MeasurementType::X,
    MeasurementType::Y,
    MeasurementType::Z,
    MeasurementType::ReceiveFrequency,
    MeasurementType::TransmitFrequency,
    MeasurementType::TransmitFrequencyRate,
];
const SCALES: [TimeScale; 4] = [TimeScale::UTC, TimeScale::TAI, TimeScale::TDB, TimeScale::GPST];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rec {
    /// Milliseconds since the start of the arc
    t: i64,
    ns: i64,
    tracker: usize,
    /// Values, by type
    v: [Option<f64>; 10],
    rejected: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Data {
    t0: f64,
    scale: u8,
    recs: Vec<Rec>,
    modulus: Option<f64>,
}

fn recs(span: i64, ntypes: usize, nano: bool) -> BoxedStrategy<Rec> {
    let v = prop::array::uniform10(prop::option::weighted(0.6, prop_oneof![-1.0e3..1.0e3f64, 0.0..4.0e5f64, Just(0.0)]));
    (0..span, if nano { 0i64..1_000_000 } else { 0..1 }, 0usize..4, v, prop::bool::weighted(0.1))
        .prop_map(move |(t, ns, tracker, mut v, rejected)| {
            for x in v.iter_mut().skip(ntypes) {
                *x = None;
            }
            if v.iter().all(|x| x.is_none()) {
                v[0] = Some(1.5);
            }
            Rec { t, ns, tracker, v, rejected }
        })
        .boxed()
}

fn datas(max: usize, ntypes: usize, nano: bool) -> BoxedStrategy<Data> {
    prop_oneof![Just(20i64), Just(3000), Just(90_000_000)]
        .prop_flat_map(move |span| (0.0..5.0e8f64, 0u8..4, prop::collection::vec(recs(span, ntypes, nano), 0..max), prop::option::of(1.0..1.0e5f64)))
        .prop_map(|(t0, scale, recs, modulus)| Data { t0: rnd3(t0), scale, recs, modulus: modulus.map(rnd3) })
        .boxed()
}

impl Data {
    fn epoch(&self, r: &Rec) -> Epoch {
        ep(self.t0).to_time_scale(SCALES[self.scale as usize]) + Duration::from_milliseconds(r.t as f64) + Duration::from_total_nanoseconds(r.ns as i128)
    }
    /// Unsorted measurements, without two values of the same type at the same epoch and tracker
    fn list(&self) -> Vec<Measurement> {
        let mut seen: BTreeSet<(i64, i64, usize, usize)> = BTreeSet::new();
        self.recs
            .iter()
            .map(|r| {
                let mut m = Measurement::new(NAMES[r.tracker].to_string(), self.epoch(r));
                m.rejected = r.rejected;
                for (k, v) in r.v.iter().enumerate() {
                    if let Some(v) = v
                        && seen.insert((r.t, r.ns, r.tracker, k))
                    {
                        m.push(ALL[k], *v);
                    }
                }
                m
            })
            .collect()
    }
    fn arc(&self) -> TrackingDataArc {
        let mut a = TrackingDataArc { measurements: self.list(), source: None, moduli: None, force_reject: false };
        if let Some(m) = self.modulus {
            a.set_moduli(MeasurementType::Range, m);
        }
        a.sort();
        if self.modulus.is_some_and(|m| m as i64 % 2 == 0) { a.resid_vs_ref_check() } else { a }
    }
}

/// The content of an arc as a table.
type Table = BTreeMap<(Epoch, String), (BTreeMap<u8, f64>, bool)>;

fn table(m: &[Measurement]) -> Table {
    let mut t: Table = BTreeMap::new();
    for m in m {
        let e = t.entry((m.epoch, m.tracker.clone())).or_default();
        for (k, v) in &m.data {
            e.0.insert(*k as u8, *v);
        }
        e.1 |= m.rejected;
    }
    t
}

/// The arc is sorted, has one measurement per epoch and tracker, and holds exactly that.
fn holds(a: &TrackingDataArc, want: &Table, what: &str) -> Result<(), Fail> {
    for w in a.measurements.windows(2) {
        req!(w[0].epoch < w[1].epoch || (w[0].epoch == w[1].epoch && w[0].tracker < w[1].tracker), "order", "{what}: {} then {}", w[0], w[1]);
    }
    let got = table(&a.measurements);
    for (k, v) in want {
        let Some(g) = got.get(k) else { return fail("lost", format!("{what}: lost {k:?} {v:?}")) };
        req!(g == v, "changed", "{what}: {k:?} has {g:?} instead of {v:?}");
    }
    for (k, v) in &got {
        req!(want.contains_key(k), "extra", "{what}: should not have {k:?} {v:?}");
    }
    req!(a.len() == want.len() && a.is_empty() == want.is_empty(), "length", "{what}: {} measurements instead of {}", a.len(), want.len());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Epoch(u8, i64, i64),
    Offset(u8, i64, i64),
    Tracker(usize),
    Type(usize),
    NoTracker(usize),
    NoEpoch(u8, i64, i64),
    NoType(usize),
    RejectEpoch(u8, i64, i64),
    RejectTracker(usize),
    Chunk(i64, usize),
    Add(Vec<Rec>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    d: Data,
    ops: Vec<Op>,
}

fn hists() -> BoxedStrategy<Hist> {
    let bound = || (0u8..9, 0usize..40, 0usize..40, -2i64..3, -2i64..3);
    datas(40, 7, false)
        .prop_flat_map(move |d| {
            let times: Vec<i64> = if d.recs.is_empty() { vec![0] } else { d.recs.iter().map(|r| r.t).collect() };
            let t2 = times.clone();
            let span = *times.iter().max().unwrap() + 1;
            // Bounds at, just before or just after the epochs of the data
            let b = move || {
                let t = t2.clone();
                bound().prop_map(move |(k, i, j, di, dj)| {
                    let (a, b) = (t[i % t.len()] + di, t[j % t.len()] + dj);
                    (k, a, b)
                })
            };
            let op = prop_oneof![
                b().prop_map(|(k, a, z)| Op::Epoch(k, a, z)),
                b().prop_map(|(k, a, z)| Op::Offset(k, a, z)),
                (0usize..4).prop_map(Op::Tracker),
                (0usize..7).prop_map(Op::Type),
                (0usize..4).prop_map(Op::NoTracker),
                b().prop_map(|(k, a, z)| Op::NoEpoch(k, a, z)),
                (0usize..7).prop_map(Op::NoType),
                b().prop_map(|(k, a, z)| Op::RejectEpoch(k, a, z)),
                (0usize..4).prop_map(Op::RejectTracker),
                (-3i64..span.max(4), 0usize..5).prop_map(|(a, b)| Op::Chunk(a, b)),
                prop::collection::vec(recs(span, 7, false), 0..15).prop_map(Op::Add),
            ];
            prop::collection::vec(op, 0..6).prop_map(move |ops| Hist { d: d.clone(), ops })
        })
        .boxed()
}

fn ms(t: i64) -> Duration {
    Duration::from_milliseconds(t as f64)
}

/// The range of bounds number k from a to z: unbounded, included, excluded at either end.
fn bounds<T: Copy>(k: u8, a: T, z: T) -> (Bound<T>, Bound<T>) {
    let f = |k: u8, x: T| match k {
        0 => Bound::Unbounded,
        1 => Bound::Included(x),
        _ => Bound::Excluded(x),
    };
    (f(k % 3, a), f(k / 3, z))
}

fn within<T: PartialOrd + Copy>(b: &(Bound<T>, Bound<T>), x: T) -> bool {
    (match b.0 {
        Bound::Unbounded => true,
        Bound::Included(a) => x >= a,
        Bound::Excluded(a) => x > a,
    }) && (match b.1 {
        Bound::Unbounded => true,
        Bound::Included(z) => x <= z,
        Bound::Excluded(z) => x < z,
    })
}

/// Histories of operations against a table.
fn chk_ops(h: &Hist) -> R {
    let d = &h.d;
    let mut a = d.arc();
    let mut t = table(&d.list());
    holds(&a, &t, "sort")?;
    let t0 = ep(d.t0).to_time_scale(SCALES[d.scale as usize]);
    let mut any = false;
    for op in &h.ops {
        if t.is_empty() {
            break;
        }
        let n0 = t.len();
        let before_op = a.force_reject;
        let first = t.keys().next().unwrap().0;
        a = match op {
            Op::Epoch(k, x, z) => {
                let b = bounds(*k, t0 + ms(*x), t0 + ms(*z));
                t.retain(|e, _| within(&b, e.0));
                a.filter_by_epoch(b)
            }
            Op::Offset(k, x, z) => {
                let b = bounds(*k, ms(*x), ms(*z));
                t.retain(|e, _| within(&b, e.0 - first));
                a.filter_by_offset(b)
            }
            Op::Tracker(i) => {
                t.retain(|e, _| e.1 == NAMES[*i]);
                a.filter_by_tracker(NAMES[*i].to_string())
            }
            Op::NoTracker(i) => {
                t.retain(|e, _| e.1 != NAMES[*i]);
                a.exclude_tracker(NAMES[*i].to_string())
            }
            Op::Type(i) => {
                let ty = ALL[*i] as u8;
                for v in t.values_mut() {
                    v.0.retain(|k, _| *k == ty);
                }
                t.retain(|_, v| !v.0.is_empty());
                a.filter_by_measurement_type(ALL[*i])
            }
            Op::NoType(i) => {
                let ty = ALL[*i] as u8;
                for v in t.values_mut() {
                    v.0.retain(|k, _| *k != ty);
                }
                // Whether emptied measurements remain is not claimed
                let mut b = a.exclude_measurement_type(ALL[*i]);
                t.retain(|_, v| !v.0.is_empty());
                b.measurements.retain(|m| !m.data.is_empty());
                b
            }
            Op::NoEpoch(k, x, z) => {
                let b = bounds(*k, t0 + ms(*x), t0 + ms(*z));
                t.retain(|e, _| !within(&b, e.0));
                a.exclude_by_epoch(b)
            }
            Op::RejectEpoch(k, x, z) => {
                let b = bounds(*k, t0 + ms(*x), t0 + ms(*z));
                for (e, v) in t.iter_mut() {
                    v.1 |= within(&b, e.0);
                }
                a.reject_by_epoch(b)
            }
            Op::RejectTracker(i) => {
                for (e, v) in t.iter_mut() {
                    v.1 |= e.1 == NAMES[*i];
                }
                a.reject_by_tracker(NAMES[*i])
            }
            Op::Chunk(max, pick) => {
                let chunks = a.chunk(ms(*max));
                if *max <= 0 {
                    req!(chunks.is_empty(), "chunk", "chunks of {max} ms");
                    a
                } else {
                    let mut all = Vec::new();
                    for (i, c) in chunks.iter().enumerate() {
                        req!(!c.is_empty(), "chunk", "chunk {i} is empty");
                        req!(c.duration().unwrap() <= ms(*max), "chunk", "chunk {i} lasts {} instead of {}", c.duration().unwrap(), ms(*max));
                        req!(c.moduli == a.moduli, "chunk", "chunk {i} lost the moduli");
                        req!(c.force_reject == a.force_reject, "chunk", "chunk {i} lost the rejection flag");
                        if let Some(n) = chunks.get(i + 1) {
                            req!(n.start_epoch().unwrap() - c.start_epoch().unwrap() > ms(*max), "chunk", "chunk {i} could have been longer");
                        }
                        all.extend(c.measurements.clone());
                    }
                    let whole = TrackingDataArc { measurements: all, ..a.clone() };
                    holds(&whole, &t, "chunks")?;
                    let c = chunks[*pick % chunks.len()].clone();
                    let (s, e) = (c.start_epoch().unwrap(), c.end_epoch().unwrap());
                    t.retain(|k, _| k.0 >= s && k.0 <= e);
                    c
                }
            }
            Op::Add(r) => {
                // Only what does not contradict the arc
                let mut other = Data { recs: r.clone(), ..d.clone() }.list();
                for m in other.iter_mut() {
                    if let Some(v) = t.get(&(m.epoch, m.tracker.clone())) {
                        m.data.retain(|k, _| !v.0.contains_key(&(*k as u8)));
                    }
                }
                for (k, v) in table(&other) {
                    let e = t.entry(k).or_default();
                    e.0.extend(v.0);
                    e.1 |= v.1;
                }
                let o = TrackingDataArc { measurements: other, source: None, moduli: None, force_reject: false };
                if r.len() % 2 == 0 {
                    a + o
                } else {
                    a += o;
                    a
                }
            }
        };
        holds(&a, &t, &format!("{op:?}"))?;
        any |= t.len() != n0;
        // Summaries
        req!(a.start_epoch() == t.keys().next().map(|k| k.0), "start", "{op:?}: starts at {:?}", a.start_epoch());
        req!(a.end_epoch() == t.keys().next_back().map(|k| k.0), "end", "{op:?}: ends at {:?}", a.end_epoch());
        let (al, ty) = a.unique();
        let al: BTreeSet<String> = al.into_iter().collect();
        let ty: BTreeSet<u8> = ty.into_iter().map(|t| t as u8).collect();
        req!(al == t.keys().map(|k| k.1.clone()).collect(), "unique", "{op:?}: trackers {al:?}");
        req!(ty == t.values().flat_map(|v| v.0.keys().cloned()).collect(), "unique", "{op:?}: types {ty:?}");
        if t.len() > 1 {
            let es: Vec<Epoch> = t.keys().map(|k| k.0).collect();
            let want = es.windows(2).map(|w| w[1] - w[0]).min().unwrap();
            req!(a.min_duration_sep() == Some(want), "separation", "{op:?}: {:?} instead of {want}", a.min_duration_sep());
        }
        req!(a.moduli.as_ref().and_then(|m| m.get(&MeasurementType::Range)).cloned() == d.modulus, "moduli", "{op:?}: {:?}", a.moduli);
        // Whether residuals are only checked: kept by all but a merge
        req!(matches!(op, Op::Add(_)) || a.force_reject == before_op, "residuals-only", "{op:?}: {}", a.force_reject);
    }
    // Moduli
    let before = table(&a.measurements);
    let mut b = a.clone();
    b.apply_moduli();
    let after = table(&b.measurements);
    for (k, v) in &before {
        for (ty, x) in &v.0 {
            let y = after[k].0[ty];
            match d.modulus {
                Some(m) if *ty == MeasurementType::Range as u8 => {
                    let q = (x - y) / m;
                    req!(y.abs() < m && (q - q.round()).abs() < 1e-6 && y * x >= 0.0, "modulo", "{x} modulo {m} is {y}");
                }
                _ => req!(*x == y, "modulo", "{x} became {y}"),
            }
        }
    }
    Ok(if any { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: Rec,
    b: Rec,
    /// 0: same, 1: other tracker, 2: other epoch, 3: other value, 4: one type less, 5: tiny change, 6: unrelated
    how: u8,
    at: usize,
    order: [u8; 4],
    n: usize,
}

fn pairs() -> BoxedStrategy<Pair> {
    (recs(1000, 7, true), recs(1000, 7, true), 0u8..7, 0usize..10, any::<[u8; 4]>(), 1usize..5).prop_map(|(a, b, how, at, order, n)| Pair { a, b, how, at, order, n }).boxed()
}

/// Equality, observation vectors and availability.
fn chk_eq(p: &Pair) -> R {
    let d = Data { t0: 1.0e6, scale: 0, recs: vec![], modulus: None };
    let mut b = p.a.clone();
    let keys: Vec<usize> = (0..7).filter(|k| p.a.v[*k].is_some()).collect();
    let at = keys[p.at % keys.len()];
    let same = match p.how {
        0 => true,
        1 => {
            b.tracker = (b.tracker + 1) % 4;
            false
        }
        2 => {
            b.ns += 1;
            false
        }
        3 => {
            b.v[at] = Some(b.v[at].unwrap() + 1e-9 + b.v[at].unwrap().abs() * 1e-12);
            false
        }
        4 => {
            b.v[at] = None;
            false
        }
        5 => {
            // Below what tells two values apart
            b.v[at] = Some(b.v[at].unwrap() + 1e-11);
            true
        }
        _ => {
            b = p.b.clone();
            b == p.a.clone()
        }
    };
    let one = |r: &Rec| Data { recs: vec![r.clone()], ..d.clone() }.list().remove(0);
    let (x, y) = (one(&p.a), one(&b));
    req!((x == y) == same, "equal", "{x} == {y} is {}", x == y);
    req!((y == x) == same, "equal", "{y} == {x} is {}", y == x);
    let order: indexmap::IndexSet<MeasurementType> = p.order.iter().take(p.n).map(|o| ALL[*o as usize % 7]).collect();
    let obs = x.observation::<nalgebra::U4>(&order);
    let av = x.availability(&order);
    req!(av.len() == order.len(), "availability", "{av:?}");
    for (i, ty) in order.iter().enumerate() {
        req!(av[i] == x.data.contains_key(ty), "availability", "{ty:?} is {}", av[i]);
        req!(obs[i] == *x.data.get(ty).unwrap_or(&0.0), "observation", "{ty:?} is {}", obs[i]);
    }
    Ok(Out::Hit)
}
impl PartialEq for Rec {
    fn eq(&self, o: &Self) -> bool {
        self.t == o.t && self.ns == o.ns && self.tracker == o.tracker && self.v == o.v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Down {
    t0: f64,
    /// Per tracker: offset, step, number and whether the second type is there
    trk: Vec<(i64, i64, usize, bool)>,
    /// The second type is missing in one measurement out of that many
    #[serde(default)]
    gap: usize,
    /// Target step over the step of the first tracker
    ratio: f64,
    slope: [f64; 2],
    modulus: Option<f64>,
}

fn downs() -> BoxedStrategy<Down> {
    (
        0.0..5.0e8f64,
        prop::collection::vec((0i64..100_000, 100i64..60_000, 1usize..80, any::<bool>()), 1..4),
        prop_oneof![1.0..12.0f64, (2u32..12).prop_map(|x| x as f64)],
        prop::array::uniform2(-5.0..5.0f64),
        prop::option::of(1.0e5..1.0e6f64),
        0usize..6,
    )
        .prop_map(|(t0, trk, ratio, slope, modulus, gap)| Down { t0: rnd3(t0), trk, gap, ratio, slope, modulus })
        .boxed()
}

/// Downsampling: each tracker on its own, at its epochs, moving averages.
fn chk_down(c: &Down) -> R {
    let t0 = ep(c.t0);
    let mut arc = TrackingDataArc::default();
    if let Some(m) = c.modulus {
        arc.set_moduli(MeasurementType::Range, m);
    }
    let has = |k: usize| c.gap == 0 || k % (c.gap + 1) != 0;
    let val = |i: usize, t: i64, k: usize| 1000.0 * (i + 1) as f64 + c.slope[k] * t as f64 * 1e-3;
    for (i, (off, step, n, two)) in c.trk.iter().enumerate() {
        for k in 0..*n as i64 {
            let t = off + step * k;
            let mut m = Measurement::new(NAMES[i].to_string(), t0 + ms(t));
            m.push(MeasurementType::Range, val(i, t, 0));
            if *two && has(k as usize) {
                m.push(MeasurementType::Doppler, val(i, t, 1));
            }
            arc.measurements.push(m);
        }
    }
    arc.sort();
    let target = ms((c.trk[0].1 as f64 * c.ratio).round() as i64);
    let out = arc.downsample(target);
    req!(out.moduli == arc.moduli, "moduli", "{:?} instead of {:?}", out.moduli, arc.moduli);
    let mut hit = false;
    let mut total = 0;
    for (i, (off, step, n, two)) in c.trk.iter().enumerate() {
        let q = target.to_seconds() / (*step as f64 * 1e-3);
        let fr = (q - q.floor() - 0.5).abs();
        if fr < 1e-6 {
            return Ok(Out::Discard);
        }
        // As many as the target step allows; the only sample of a tracker stays
        let w = if *n < 2 || q <= 1.0 { 1 } else { (q.round() as usize).max(1) };
        let got = out.clone().filter_by_tracker(NAMES[i].to_string());
        let want: Vec<i64> = (0..*n).step_by(w).map(|k| off + step * k as i64).collect();
        total += want.len();
        req!(got.len() == want.len(), "count", "{} kept {} of {n} samples with one in {w}", NAMES[i], got.len());
        for (j, (m, t)) in got.measurements.iter().zip(&want).enumerate() {
            req!(m.epoch == t0 + ms(*t), "epoch", "{m} instead of {}", t0 + ms(*t));
            let k = j * w;
            let (lo, hi) = (k.saturating_sub(w / 2), (k + w / 2).min(n - 1));
            let seen: Vec<usize> = (lo..=hi).filter(|k| has(*k)).collect();
            req!(m.data.len() == 1 + (*two && !seen.is_empty()) as usize || (w == 1 && *two), "types", "{m}");
            for (ty, v) in &m.data {
                let s = *ty as usize;
                let (a, b) = (val(i, off + step * lo as i64, s), val(i, off + step * hi as i64, s));
                req!(*v >= a.min(b) - 1e-9 && *v <= a.max(b) + 1e-9, "average", "{m} is not between {a} and {b}");
                if k >= w / 2 && k + w / 2 < *n && s == 1 {
                    // The average of those that have this type
                    let want = seen.iter().map(|k| val(i, off + step * *k as i64, s)).sum::<f64>() / seen.len() as f64;
                    req!(close(*v, want, 1e-12, 1e-9), "average", "{m} instead of {want}");
                } else if k >= w / 2 && k + w / 2 < *n {
                    // The average of a straight line is its middle
                    req!(close(*v, val(i, *t, s), 1e-12, 1e-9), "average", "{m} instead of {}", val(i, *t, s));
                }
            }
            hit |= w > 1;
        }
    }
    req!(out.len() == total, "count", "{} measurements instead of {total}", out.len());
    Ok(if hit { Out::Hit } else { Out::Trivial })
}

fn p18() -> Prop {
    Prop {
        id: "P18",
        assumptions: &["two measurements of the same type, tracker and epoch never contradict each other", "average checked on straight lines"],
        subs: vec![
            sub("histories", "an operation removed or added measurements", 100_000, 1_000_000, hists, chk_ops),
            sub("equality", "all cases", 20_000, 300_000, pairs, chk_eq),
            sub("downsample", "a tracker was decimated", 60_000, 200_000, downs, chk_down),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// P19
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct File {
    d: Data,
    /// Start and end of the export, as a record and an offset in milliseconds
    from: Option<(usize, i64)>,
    to: Option<(usize, i64)>,
    alias: bool,
}

fn files(ntypes: usize, nano: bool) -> BoxedStrategy<File> {
    (datas(25, ntypes, nano), prop::option::weighted(0.4, (0usize..25, -2i64..3)), prop::option::weighted(0.4, (0usize..25, -2i64..3)), any::<bool>())
        .prop_map(|(d, from, to, alias)| File { d, from, to, alias })
        .boxed()
}

impl File {
    fn limit(&self, x: &Option<(usize, i64)>) -> Option<Epoch> {
        x.map(|(i, off)| self.d.epoch(&self.d.recs[i % self.d.recs.len()]) + ms(off))
    }
    fn cfg(&self) -> ExportCfg {
        let mut c = ExportCfg::default();
        if !self.d.recs.is_empty() {
            c.start_epoch = self.limit(&self.from);
            c.end_epoch = self.limit(&self.to);
        }
        c
    }
    fn kept(&self) -> Table {
        let mut t = table(&self.d.arc().measurements);
        let c = self.cfg();
        t.retain(|k, _| c.start_epoch.is_none_or(|s| k.0 >= s) && c.end_epoch.is_none_or(|e| k.0 <= e));
        // Rejections are not part of the files
        for v in t.values_mut() {
            v.1 = false;
        }
        t
    }
}

fn chk_parquet(f: &File) -> R {
    let a = f.d.arc();
    let path = scratch_file("parquet");
    let r = a.to_parquet(&path, f.cfg());
    if a.is_empty() {
        req!(r.is_err(), "empty", "wrote an empty arc");
        return Ok(Out::Trivial);
    }
    let out = r.unwrap();
    let b = TrackingDataArc::from_parquet(&out);
    std::fs::remove_file(&out).unwrap();
    let b = b.unwrap();
    let want = f.kept();
    // Epochs are stored to the microsecond
    req!(b.len() == want.len(), "count", "{} measurements instead of {}", b.len(), want.len());
    for (m, (k, v)) in b.measurements.iter().zip(&want) {
        req!((m.epoch - k.0).abs() <= Duration::from_microseconds(1.0) && m.tracker == k.1, "epoch", "{m} instead of {k:?}");
        let g: BTreeMap<u8, f64> = m.data.iter().map(|(k, v)| (*k as u8, *v)).collect();
        req!(g == v.0, "value", "{m} instead of {v:?}");
    }
    Ok(if want.is_empty() { Out::Trivial } else { Out::Hit })
}

fn near(got: &Table, want: &Table) -> Result<(), Fail> {
    for (k, v) in want {
        let Some(g) = got.get(k) else { return fail("lost", format!("lost {k:?} {v:?}, has {:?}", got.keys().take(5).collect::<Vec<_>>())) };
        req!(g.0.len() == v.0.len(), "types", "{k:?} has {g:?} instead of {v:?}");
        for (t, x) in &v.0 {
            let Some(y) = g.0.get(t) else { return fail("types", format!("{k:?} has {g:?} instead of {v:?}")) };
            req!(close(*x, *y, 1e-14, 1e-11), "value", "{k:?} has {y} instead of {x}");
        }
    }
    for (k, v) in got {
        req!(want.contains_key(k), "extra", "should not have {k:?} {v:?}");
    }
    Ok(())
}

/// TDM written and read back.
fn chk_tdm(f: &File) -> R {
    let a = f.d.arc();
    let path = scratch_file("tdm");
    let aliases: HashMap<String, String> = (0..2).map(|i| (NAMES[i].to_string(), format!("DSS {i}"))).collect();
    let back: HashMap<String, String> = aliases.iter().map(|(k, v)| (v.clone(), k.clone())).collect();
    let want = f.kept();
    let r = a.clone().to_tdm_file("MySat".to_string(), f.alias.then_some(aliases.clone()), &path, f.cfg());
    if a.is_empty() {
        req!(r.is_err(), "empty", "wrote an empty arc");
        return Ok(Out::Trivial);
    }
    let out = r.unwrap();
    let b = TrackingDataArc::from_tdm(&out, None);
    let c = TrackingDataArc::from_tdm(&out, Some(back));
    std::fs::remove_file(&out).unwrap();
    if want.is_empty() {
        req!(b.is_err(), "empty", "read something from an empty file");
        return Ok(Out::Trivial);
    }
    let (b, c) = (b.unwrap(), c.unwrap());
    near(&table(&c.measurements), &want)?;
    let mut named: Table = BTreeMap::new();
    for ((e, n), v) in &want {
        let n = if f.alias { aliases.get(n).unwrap_or(n).clone() } else { n.clone() };
        named.insert((*e, n), v.clone());
    }
    near(&table(&b.measurements), &named)?;
    for x in [&b, &c] {
        for w in x.measurements.windows(2) {
            req!(w[0].epoch <= w[1].epoch, "order", "{} then {}", w[0], w[1]);
        }
        let has_range = want.values().any(|v| v.0.contains_key(&(MeasurementType::Range as u8)));
        if has_range {
            let m = x.moduli.as_ref().and_then(|m| m.get(&MeasurementType::Range)).cloned();
            req!(m == f.d.modulus, "modulus", "{m:?} instead of {:?}", f.d.modulus);
        }
    }
    Ok(Out::Hit)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Kvn {
    t0: f64,
    scale: u8,
    two_way: bool,
    /// Seconds since the previous line, and values: range, Doppler, angles
    rows: Vec<(u32, [Option<f64>; 4])>,
    /// Ramps: transmit frequency, its rate; and range-rate of each receive frequency
    freq: Option<(f64, f64, i32, i32)>,
    sp: [u8; 4],
    names: [u8; 2],
    shuffle: bool,
    corr: [Option<f64>; 4],
    corr_flag: u8,
    turn_missing: bool,
}

fn kvns() -> BoxedStrategy<Kvn> {
    let row = (1u32..200, prop::array::uniform4(prop::option::weighted(0.6, -1.0e4..1.0e5f64)));
    (
        (0.0..5.0e8f64, 0u8..4, any::<bool>()),
        prop::collection::vec(row, 1..20),
        prop::option::weighted(0.5, (7.0e9..9.0e9f64, -10.0..10.0f64, 100i32..1000, 100i32..1000)),
        prop::array::uniform4(0u8..4),
        prop::array::uniform2(any::<u8>()),
        any::<bool>(),
        prop::array::uniform4(prop::option::weighted(0.3, -10.0..10.0f64)),
        0u8..4,
        prop::bool::weighted(0.1),
    )
        .prop_map(|((t0, scale, two_way), rows, freq, sp, names, shuffle, corr, corr_flag, turn_missing)| Kvn {
            t0: t0.round(),
            scale,
            two_way,
            rows,
            freq,
            sp,
            names,
            shuffle,
            corr,
            corr_flag,
            turn_missing,
        })
        .boxed()
}

/// Files of other producers: one section, any layout that the format allows.
fn chk_kvn(c: &Kvn) -> R {
    let ts = SCALES[c.scale as usize];
    let t0 = ep(c.t0).to_time_scale(ts);
    let sp = |k: usize| [" ", "  ", "\t", ""][c.sp[k] as usize];
    let eq = format!("{}={}", sp(0), sp(1));
    let ind = sp(2);
    let stamp = |e: Epoch| {
        let s = e.to_time_scale(ts).to_gregorian_str(ts);
        s.split_whitespace().next().unwrap().to_string()
    };
    let dop = if c.names[0] % 2 == 0 { "DOPPLER_INTEGRATED" } else { "DOPPLER_INSTANTANEOUS" };
    let suffix = ["", "_1", "_2", "_3", "_4", "_5"][c.names[1] as usize % 6];
    let mut txt = String::from("CCSDS_TDM_VERS = 2.0\nCOMMENT made here\nCREATION_DATE = 2024-01-01T00:00:00\nORIGINATOR = me\n");
    let push = |txt: &mut String, k: &str, v: &str| txt.push_str(&format!("{ind}{k}{eq}{v}\n"));
    txt.push_str("META_START\n");
    push(&mut txt, "TIME_SYSTEM", &format!("{ts}"));
    push(&mut txt, "PARTICIPANT_1", "DSS-34");
    push(&mut txt, "PARTICIPANT_2", "Sat");
    push(&mut txt, "MODE", "SEQUENTIAL");
    push(&mut txt, "PATH", if c.two_way { "1,2,1" } else { "2,1" });
    let flag = ["NO", "YES", "no", ""][c.corr_flag as usize];
    let names = ["RANGE", "DOPPLER_INTEGRATED", "ANGLE_1", "ANGLE_2"];
    if !c.two_way {
        for (k, x) in c.corr.iter().enumerate() {
            if let Some(x) = x {
                push(&mut txt, &format!("CORRECTION_{}", names[k]), &format!("{x:.9}"));
            }
        }
        if !flag.is_empty() {
            push(&mut txt, "CORRECTIONS_APPLIED", flag);
        }
    }
    let apply = !c.two_way && flag.eq_ignore_ascii_case("no");
    if let Some((_, _, n, d)) = c.freq
        && !c.turn_missing
    {
        push(&mut txt, "TURNAROUND_NUMERATOR", &n.to_string());
        push(&mut txt, "TURNAROUND_DENOMINATOR", &d.to_string());
    }
    txt.push_str("META_STOP\n\nDATA_START\nCOMMENT a = b and more\n\n");
    let mut lines: Vec<String> = Vec::new();
    let mut want: BTreeMap<Epoch, BTreeMap<u8, f64>> = BTreeMap::new();
    let mut t = t0;
    let div = if c.two_way { 2.0 } else { 1.0 };
    let mut tx: Option<(f64, f64, Epoch)> = None;
    const C: f64 = 299_792.458;
    for (i, (dt, v)) in c.rows.iter().enumerate() {
        t += secs(*dt as f64);
        let st = stamp(t);
        let mut block = Vec::new();
        if let Some((f, rate, n, d)) = c.freq {
            // The ramp starts with the first row and is updated every five rows.
            if i % 5 == 0 {
                let f = f + 1.0e3 * i as f64;
                let rate = if i % 2 == 0 { rate } else { -rate };
                block.push(format!("{ind}TRANSMIT_FREQ{suffix}{eq}{st} {f:.6}"));
                block.push(format!("{ind}TRANSMIT_FREQ_RATE{suffix}{eq}{st} {rate:.9}"));
                tx = Some((f, rate, t));
            }
            if let Some(rr) = v[1] {
                // Receive frequency of that range-rate
                let rr = rr * 1e-4;
                let (f, rate, e) = tx.unwrap();
                let fup = (f + rate * (t - e).to_seconds()) * n as f64 / d as f64;
                let rx = fup * (1.0 - 2.0 * rr / C);
                block.push(format!("{ind}RECEIVE_FREQ{suffix}{eq}{st}   {rx:.9}"));
                if !c.turn_missing {
                    want.entry(t).or_default().insert(MeasurementType::Doppler as u8, rr);
                }
            }
        } else if let Some(x) = v[1] {
            block.push(format!("{ind}{dop}{eq}{st} {x:.9}"));
            want.entry(t).or_default().insert(MeasurementType::Doppler as u8, x / div + if apply { c.corr[1].unwrap_or(0.0) } else { 0.0 });
        }
        for (k, name, ty, div) in
            [(0, "RANGE", MeasurementType::Range, div), (2, "ANGLE_1", MeasurementType::Azimuth, 1.0), (3, "ANGLE_2", MeasurementType::Elevation, 1.0)]
        {
            if let Some(x) = v[k] {
                block.push(format!("{ind}{name}{eq}{st} {x:.9}"));
                want.entry(t).or_default().insert(ty as u8, x / div + if apply { c.corr[k].unwrap_or(0.0) } else { 0.0 });
            }
        }
        if c.shuffle {
            block.reverse();
        }
        lines.extend(block);
    }
    // Later rows first: the format asks for chronological order, but the reader sorts. Ramps have to be in order.
    if c.shuffle && c.freq.is_none() {
        lines.reverse();
    }
    let nl = if c.sp[3] == 0 { "\r\n" } else { "\n" };
    txt.push_str(&lines.join(nl));
    txt.push_str("\nDATA_STOP\n");
    let path = scratch_file("tdm");
    std::fs::write(&path, &txt).unwrap();
    let arc = TrackingDataArc::from_tdm(&path, None);
    std::fs::remove_file(&path).unwrap();
    if want.is_empty() {
        req!(arc.is_err(), "empty", "read {:?} from\n{txt}", arc.unwrap());
        return Ok(Out::Trivial);
    }
    let arc = match arc {
        Ok(a) => a,
        Err(e) => return fail("refused", format!("{e} for\n{txt}")),
    };
    req!(arc.len() == want.len(), "count", "{} measurements instead of {} from\n{txt}", arc.len(), want.len());
    for (m, (e, v)) in arc.measurements.iter().zip(&want) {
        req!(m.epoch == *e, "epoch", "{} instead of {e} from\n{txt}", m.epoch);
        req!(m.tracker == "DSS-34" && m.data.len() == v.len(), "types", "{m} instead of {v:?} from\n{txt}");
        for (ty, x) in &m.data {
            let Some(w) = v.get(&(*ty as u8)) else { return fail("types", format!("{m} instead of {v:?} from\n{txt}")) };
            // Frequencies of 8 GHz have a resolution of 1e-6 Hz
            let tol = if c.freq.is_some() && *ty == MeasurementType::Doppler { 1e-9 } else { 1e-8 };
            req!((x - w).abs() < tol, "value", "{m} instead of {w} from\n{txt}");
        }
    }
    Ok(Out::Hit)
}

fn p19() -> Prop {
    Prop {
        id: "P19",
        assumptions: &["manual rejections and moduli are not part of the parquet file", "corrections are generated in one way files only"],
        subs: vec![
            sub("parquet", "something within the export", 40_000, 60_000, || files(10, false), chk_parquet),
            sub("tdm", "something within the export", 60_000, 150_000, || files(4, true), chk_tdm),
            sub("tdm-text", "a measurement to read", 80_000, 200_000, kvns, chk_kvn),
        ],
    }
}
