//! P25 noise models.
use crate::fw::*;
use crate::pq;
use crate::req;
use crate::world::*;
use nyx_space::od::noise::link_specific::{CN0, CarrierFreq, ChipRate, SN0};
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, Stochastics, WhiteNoise};
use proptest::prelude::*;
use rand::SeedableRng;
use rand_pcg::Pcg64Mcg;
use serde::{Deserialize, Serialize};

pub const PROPS: &[fn() -> Prop] = &[p25];

const C_KM_S: f64 = 299_792.458;

/// A white noise and a bias, either of which may be missing, sampled at a few epochs.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mdl {
    white: Option<(f64, f64)>,
    bias: Option<(f64, f64, Option<f64>)>,
    seed: u64,
    /// Gaps between samples, in seconds
    gaps: Vec<f64>,
    /// Scale, shift of the mean, shift of the epochs
    k: f64,
    shift: f64,
    days: f64,
}

impl Mdl {
    fn noise(&self) -> StochasticNoise {
        StochasticNoise {
            white_noise: self.white.map(|(mean, sigma)| WhiteNoise { mean, sigma }),
            bias: self.bias.map(|(tau_s, q, constant)| {
                let mut gm = GaussMarkov::new(secs(tau_s), q).unwrap();
                gm.constant = constant;
                gm
            }),
        }
    }
}

fn mdls() -> BoxedStrategy<Mdl> {
    let white = proptest::option::weighted(0.8, (prop_oneof![Just(0.0), -1e3f64..1e3], prop_oneof![1 => Just(0.0), 6 => (-8.0f64..3.0).prop_map(|x| 10f64.powf(x))]));
    let bias = proptest::option::weighted(
        0.6,
        (
            (0.0f64..5.0).prop_map(|x| 10f64.powf(x)),
            prop_oneof![2 => Just(0.0), 3 => (-8.0f64..2.0).prop_map(|x| 10f64.powf(x))],
            proptest::option::of(prop_oneof![Just(0.0), -50f64..50.0]),
        ),
    );
    (white, bias, any::<u64>(), proptest::collection::vec(prop_oneof![Just(0.0), 0.0f64..10.0, 0.0f64..1e5], 1..12), (-3.0f64..3.0).prop_map(|x| 10f64.powf(x)), -1e3f64..1e3, 0.0f64..3000.0)
        .prop_map(|(white, bias, seed, gaps, k, shift, days)| Mdl { white, bias, seed, gaps, k, shift, days })
        .boxed()
}

fn run(m: &StochasticNoise, c: &Mdl, t0: f64) -> Vec<f64> {
    let mut m = *m;
    let mut rng = Pcg64Mcg::seed_from_u64(c.seed);
    let mut t = t0;
    c.gaps
        .iter()
        .map(|g| {
            t += g;
            m.sample(ep(t), &mut rng)
        })
        .collect()
}

fn chk_law(c: &Mdl) -> R {
    let n = c.noise();
    let base = run(&n, c, 0.0);
    let scale = base.iter().fold(0.0f64, |a, b| a.max(b.abs())) + c.white.map_or(0.0, |w| w.0.abs()) + c.bias.map_or(0.0, |b| b.2.unwrap_or(0.0).abs());
    req!(base.iter().all(|x| x.is_finite()), "finite", "samples {base:?} of {n}");
    req!(run(&n, c, 0.0) == base, "determinism", "two runs of the same seed differ");
    // The variance is the sum of those of the parts, at any epoch, whatever was sampled before.
    let mut used = n;
    let mut rng = Pcg64Mcg::seed_from_u64(c.seed);
    let want = c.white.map_or(0.0, |w| w.1 * w.1) + c.bias.map_or(0.0, |b| b.1 * b.1);
    let mut t = 0.0;
    for g in &c.gaps {
        t += g;
        let got = used.covariance(ep(t));
        req!(close(got, want, 1e-13, 0.0), "variance", "variance {got} instead of {want}");
        used.sample(ep(t), &mut rng);
    }
    // Only elapsed times matter.
    let later = run(&n, c, c.days * 86_400.0);
    for (a, b) in base.iter().zip(&later) {
        req!(close(*a, *b, 1e-6, 1e-6 * scale), "time-shift", "sample {b} after {} days, {a} before", c.days);
    }
    // The mean and the constant only add to the samples, the sigmas only scale what is random.
    let dev: Vec<f64> = {
        let mut z = n;
        if let Some(w) = z.white_noise.as_mut() {
            w.mean = 0.0;
        }
        if let Some(b) = z.bias.as_mut() {
            b.constant = None;
        }
        run(&z, c, 0.0)
    };
    let offset = c.white.map_or(0.0, |w| w.0) + c.bias.map_or(0.0, |b| b.2.unwrap_or(0.0));
    for (x, d) in base.iter().zip(&dev) {
        req!(close(*x, d + offset, 1e-12, 1e-12 * scale), "offset", "sample {x} instead of {d} + {offset}");
    }
    let dmax = dev.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if let Some(w) = c.white {
        let mut z = n;
        z.white_noise.as_mut().unwrap().mean += c.shift;
        for (x, y) in base.iter().zip(run(&z, c, 0.0)) {
            req!(close(y, x + c.shift, 1e-12, 1e-12 * (scale + c.shift.abs())), "mean", "sample {y} instead of {x} + {}", c.shift);
        }
        req!(n.white_noise.unwrap().mean == w.0, "mean", "the mean changed");
    }
    {
        let mut z = n;
        if let Some(w) = z.white_noise.as_mut() {
            w.mean = 0.0;
        }
        if let Some(b) = z.bias.as_mut() {
            b.constant = None;
        }
        let scaled = z * c.k;
        let mut assigned = z;
        assigned *= c.k;
        req!(scaled == assigned, "scale", "*= and * differ");
        req!(close(scaled.covariance(ep(0.0)), want * c.k * c.k, 1e-12, 0.0), "scale", "variance {} instead of {}", scaled.covariance(ep(0.0)), want * c.k * c.k);
        for (x, d) in run(&scaled, c, 0.0).iter().zip(&dev) {
            req!(close(*x, d * c.k, 1e-12, 1e-12 * dmax * c.k), "scale", "sample {x} instead of {} times {d}", c.k);
        }
        if let Some(w) = n.white_noise {
            let s = w * c.k;
            req!(s.mean == w.mean && close(s.sigma, w.sigma * c.k, 1e-14, 0.0), "scale", "{w:?} times {} is {s:?}", c.k);
        }
    }
    // No sigma: nothing random. No noise at all: zero.
    if c.white.is_none_or(|w| w.1 == 0.0) && c.bias.is_none_or(|b| b.1 == 0.0) {
        for x in &base {
            req!(close(*x, offset, 1e-14, 0.0), "noiseless", "sample {x} of a noise without a sigma, of mean {offset}");
        }
    } else {
        // Otherwise the samples are, and differ with the seed.
        let mut o = c.clone();
        o.seed ^= 0x5555_5555;
        let other = run(&n, &o, 0.0);
        let random = c.white.is_some_and(|w| w.1 > 1e-9 * scale) || c.bias.is_some_and(|b| b.1 > 1e-9 * scale);
        req!(!random || other != base, "seed", "two seeds, same samples {base:?}");
    }
    Ok(if c.white.is_some() && c.bias.is_some() && dmax > 0.0 { Out::Hit } else { Out::Trivial })
}

/// Moments of many samples
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Moments {
    mean: f64,
    sigma: f64,
    tau: f64,
    gap: f64,
    seed: u64,
}

fn moments() -> BoxedStrategy<Moments> {
    (-100f64..100.0, (-6.0f64..2.0).prop_map(|x| 10f64.powf(x)), 0.5f64..30.0, 0.0f64..60.0, any::<u64>()).prop_map(|(mean, sigma, tau, gap, seed)| Moments { mean, sigma, tau, gap, seed }).boxed()
}

fn chk_moments(c: &Moments) -> R {
    const N: usize = 6000;
    let nf = N as f64;
    let mut rng = Pcg64Mcg::seed_from_u64(c.seed);
    let mut wn = WhiteNoise { mean: c.mean, sigma: c.sigma };
    let x: Vec<f64> = (0..N).map(|i| (wn.sample(ep(i as f64), &mut rng) - c.mean) / c.sigma).collect();
    let moments = |x: &[f64]| {
        let m = x.iter().sum::<f64>() / nf;
        let v = x.iter().map(|a| a * a).sum::<f64>() / nf;
        let sk = x.iter().map(|a| a.powi(3)).sum::<f64>() / nf;
        let ku = x.iter().map(|a| a.powi(4)).sum::<f64>() / nf;
        let ac = x.windows(2).map(|w| w[0] * w[1]).sum::<f64>() / nf;
        (m, v, sk, ku, ac)
    };
    // Seven standard deviations of each estimator
    let (m, v, sk, ku, ac) = moments(&x);
    let s = 7.0 / nf.sqrt();
    req!(m.abs() < s, "mean", "mean of {m} sigmas over {N} samples");
    req!((v - 1.0).abs() < s * 2f64.sqrt(), "sigma", "variance of {v} times sigma^2 over {N} samples");
    req!(sk.abs() < s * 15f64.sqrt() * 1.2, "normal", "third moment {sk}");
    req!((ku - 3.0).abs() < s * 96f64.sqrt() * 1.6, "normal", "fourth moment {ku}");
    req!(ac.abs() < s, "white", "correlation {ac} of consecutive samples");
    // First samples of a Gauss-Markov process: N(0, q); then they fade as exp(-dt / tau)
    let mut first = Vec::with_capacity(N);
    let mut pairs = Vec::with_capacity(N);
    for i in 0..N {
        let mut gm = GaussMarkov::new(secs(c.tau), c.sigma).unwrap();
        gm.constant = Some(c.mean * c.sigma);
        let mut rng = Pcg64Mcg::seed_from_u64(c.seed.wrapping_add(1 + i as u64));
        let t0 = i as f64;
        let a = gm.sample(ep(t0), &mut rng) / c.sigma - c.mean;
        let b = gm.sample(ep(t0 + c.gap), &mut rng) / c.sigma - c.mean;
        first.push(a);
        pairs.push((a, b));
    }
    let (m, v, _, _, _) = moments(&first);
    req!(m.abs() < s, "bias-mean", "mean of {m} sigmas over {N} first biases");
    req!((v - 1.0).abs() < s * 2f64.sqrt(), "bias-sigma", "variance of {v} times sigma^2 over {N} first biases");
    let sxx: f64 = pairs.iter().map(|p| p.0 * p.0).sum();
    let sxy: f64 = pairs.iter().map(|p| p.0 * p.1).sum();
    let slope = sxy / sxx;
    let res = (pairs.iter().map(|p| (p.1 - slope * p.0).powi(2)).sum::<f64>() / nf).sqrt();
    let fade = (-c.gap / c.tau).exp();
    req!((slope - fade).abs() < 7.0 * res / sxx.sqrt() + 1e-9, "fade", "a bias retains {slope} of itself after {} s, tau {} s: {fade} expected", c.gap, c.tau);
    Ok(if fade > 0.05 && fade < 0.95 { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Link {
    adev: f64,
    t_s: f64,
    chip: (u8, f64),
    freq: (u8, f64),
    sn: (u8, f64),
    cn: (u8, f64),
    q: f64,
}

fn links() -> BoxedStrategy<Link> {
    let lg = |a: f64, b: f64| (a..b).prop_map(|x: f64| 10f64.powf(x));
    (
        prop_oneof![1 => Just(0.0), 6 => lg(-16.0, -8.0)],
        (1u32..200_000).prop_map(|x| x as f64 / 100.0),
        (0u8..6, lg(2.0, 8.0)),
        (0u8..4, lg(8.0, 11.0)),
        (0u8..4, 5.0f64..90.0),
        (0u8..4, 5.0f64..90.0),
        -1.0f64..10.0,
    )
        .prop_map(|(adev, t_s, chip, freq, sn, cn, q)| Link { adev, t_s, chip, freq, sn, cn, q })
        .boxed()
}

fn chk_link(c: &Link) -> R {
    let tau = std::f64::consts::TAU;
    let (chip, chips) = match c.chip.0 {
        0 => (ChipRate::Lowest(), 1e3),
        1 => (ChipRate::Low(), 100e3),
        2 => (ChipRate::StandardT4B(), 1e6),
        3 => (ChipRate::High(), 10e6),
        4 => (ChipRate::VeryHigh(), 25e6),
        _ => (ChipRate::ManualHz(c.chip.1), c.chip.1),
    };
    let (freq, hz) = match c.freq.0 {
        0 => (CarrierFreq::SBand(), 2.2e9),
        1 => (CarrierFreq::XBand(), 8.4e9),
        2 => (CarrierFreq::KaBand(), 32e9),
        _ => (CarrierFreq::ManualHz(c.freq.1), c.freq.1),
    };
    let (sn0, sdb) = match c.sn.0 {
        0 => (SN0::Strong(), 65.0),
        1 => (SN0::Average(), 50.0),
        2 => (SN0::Poor(), 40.0),
        _ => (SN0::ManualDbHz(c.sn.1), c.sn.1),
    };
    let (cn0, cdb) = match c.cn.0 {
        0 => (CN0::Strong(), 70.0),
        1 => (CN0::Average(), 55.0),
        2 => (CN0::Poor(), 45.0),
        _ => (CN0::ManualDbHz(c.cn.1), c.cn.1),
    };
    let db = |x: f64| (x / 10.0 * 10f64.ln()).exp();
    let t = secs(c.t_s);
    let t_s = t.to_seconds();
    let got = StochasticNoise::from_hardware_range_km(c.adev, t, chip, sn0);
    let w = got.white_noise.unwrap_or_default();
    let (clock, thermal) = (C_KM_S * c.adev * t_s / 3f64.sqrt(), C_KM_S / (tau * chips * (2.0 * db(sdb)).sqrt()));
    req!(got.bias.is_none() && w.mean == 0.0, "range", "range noise {got}");
    req!(close(w.sigma, clock.hypot(thermal), 1e-11, 0.0), "range", "range sigma {} instead of the root sum square of {clock} (clock) and {thermal} (thermal)", w.sigma);
    let got = StochasticNoise::from_hardware_doppler_km_s(c.adev, t, freq, cn0);
    let w = got.white_noise.unwrap_or_default();
    let (clk, th) = (C_KM_S * c.adev, C_KM_S / (tau * hz * (2.0 * db(cdb) * t_s).sqrt()));
    req!(got.bias.is_none() && w.mean == 0.0, "doppler", "Doppler noise {got}");
    req!(close(w.sigma, clk.hypot(th), 1e-11, 0.0), "doppler", "Doppler sigma {} instead of the root sum square of {clk} (clock) and {th} (thermal)", w.sigma);
    // White noises
    let w = WhiteNoise::from_pr_n0(db(sdb), chips);
    req!(w.mean == 0.0 && close(w.sigma, C_KM_S / (2.0 * chips * db(sdb).sqrt()), 1e-11, 0.0), "pr-n0", "{w:?} from Pr/N0 of {sdb} dB and a bandwidth of {chips} Hz");
    match WhiteNoise::new(c.q, t) {
        Ok(w) => {
            req!(c.q >= 0.0, "white-new", "negative sigma {} accepted", c.q);
            req!(w.mean == 0.0 && close(w.sigma, c.q / t_s, 1e-13, 0.0), "white-new", "{w:?} from {} over {} s", c.q, c.t_s);
        }
        Err(_) => req!(c.q < 0.0, "white-new", "{} over {} s refused", c.q, c.t_s),
    }
    for bad in [secs(0.0), secs(-c.t_s)] {
        req!(WhiteNoise::new(c.q.abs(), bad).is_err(), "white-new", "integration time {bad} accepted");
        req!(GaussMarkov::new(bad, c.q.abs()).is_err(), "tau", "time constant {bad} accepted");
    }
    let w = WhiteNoise::constant_white_noise(c.q.abs());
    req!(w.mean == 0.0 && w.sigma == c.q.abs(), "white-new", "{w:?}");
    let g = GaussMarkov::new(t, c.q.abs());
    req!(matches!(g, Ok(g) if g.tau == t && g.process_noise == c.q.abs() && g.constant.is_none()), "tau", "{g:?}");
    Ok(if clock > 0.01 * thermal && thermal > 0.01 * clock || clk > 0.01 * th && th > 0.01 * clk { Out::Hit } else { Out::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sim {
    m: Mdl,
    runs: Option<u32>,
    unit: Option<String>,
}

fn sims() -> BoxedStrategy<Sim> {
    (mdls(), proptest::option::weighted(0.9, 0u32..4), proptest::option::of("[a-z]{1,8}")).prop_map(|(m, runs, unit)| Sim { m, runs, unit }).boxed()
}

fn chk_sim(c: &Sim) -> R {
    let n = c.m.noise();
    let f = scratch_file("parquet");
    let got = match n.simulate(&f, c.runs, c.unit.clone()) {
        Ok(g) => g,
        Err(e) => return fail("simulate", format!("{e}")),
    };
    let runs = c.runs.unwrap_or(25);
    req!(got.len() == 1082 * runs as usize, "count", "{} states for {runs} runs", got.len());
    let want = n.covariance(ep(0.0));
    let offset = c.m.white.map_or(0.0, |w| w.0) + c.m.bias.map_or(0.0, |b| b.2.unwrap_or(0.0));
    for (i, s) in got.iter().enumerate() {
        let k = i % 1082;
        let min = if k <= 360 { k } else { k + 359 };
        req!(s.run as usize == i / 1082, "run", "run {} of state {i}", s.run);
        req!(close(s.dt_s, 60.0 * min as f64, 0.0, 1e-6), "time", "state {i} at {} s instead of {} min", s.dt_s, min);
        req!(close(s.variance, want, 1e-13, 0.0), "variance", "variance {} instead of {want}", s.variance);
        req!(s.sample.is_finite(), "sample", "{}", s.sample);
    }
    let white_only = c.m.bias.is_none_or(|b| b.1 == 0.0);
    if white_only {
        let sg = c.m.white.map_or(0.0, |w| w.1);
        // A sample further than 8 sigma: never
        for s in &got {
            req!((s.sample - offset).abs() <= 8.0 * sg + 1e-12 * offset.abs(), "sample", "sample {} of mean {offset}, sigma {sg}", s.sample);
        }
    }
    // Runs are independent of one another
    if runs > 1 && want > 0.0 && want.sqrt() > 1e-9 * offset.abs() {
        req!((0..1082).any(|k| got[k].sample != got[1082 + k].sample), "runs", "both runs have the same samples");
    }
    let unit = c.unit.as_ref().map_or("(unitless)".to_string(), |u| format!("({u})"));
    let t = pq::read(&f);
    let _ = std::fs::remove_file(&f);
    let t = match t {
        Ok(t) => t,
        Err(e) => return fail("file", e),
    };
    for (name, what) in [("Delta Time (s)".to_string(), 0), (format!("Bias {unit}"), 1), (format!("Variance {unit}"), 2)] {
        if runs == 0 {
            continue;
        }
        let col = match t.num.get(&name) {
            Some(c) => c,
            None => return fail("file", format!("no column {name}")),
        };
        req!(col.len() == got.len(), "file", "{} rows for {} states", col.len(), got.len());
        for (x, s) in col.iter().zip(&got) {
            let y = [s.dt_s, s.sample, s.variance][what];
            req!(*x == Some(y), "file", "{name}: {x:?} in the file, {y} returned");
        }
    }
    Ok(if runs > 1 && want > 0.0 { Out::Hit } else { Out::Trivial })
}

fn p25() -> Prop {
    Prop {
        id: "P25",
        assumptions: &[
            "Gauss-Markov samples after the second are only checked for linearity, determinism and time invariance: their variance is pinned by a test of the repository and differs from the documented process",
            "statistical moments within seven standard deviations of their estimators, over 6000 samples",
        ],
        subs: vec![
            sub("law", "white noise and bias, with a random part", 150_000, 3_000_000, mdls, chk_law),
            sub("moments", "fading between 5% and 95%", 3000, 60_000, moments, chk_moments),
            sub("links", "clock and thermal noises within two orders of magnitude", 150_000, 3_000_000, links, chk_link),
            sub("simulate", "several runs with noise", 300, 5000, sims, chk_sim),
        ],
    }
}
