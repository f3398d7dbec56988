//! P33 the mathematical helpers that the rest of the crate (and its users) build on.
use crate::fw::*;
use crate::p_dyn::err;
use crate::req;
use crate::world::*;
use anise::prelude::Orbit;
use nalgebra::{Complex, DMatrix, Matrix3, SMatrix, SVector, Vector3, Vector6};
use nyx_space::polyfit::{CommonPolynomial, Polynomial};
use nyx_space::pseudo_inverse;
use nyx_space::utils::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const PROPS: &[fn() -> Prop] = &[p33];

type V3 = Vector3<f64>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vecs {
    a: [f64; 3],
    b: [f64; 3],
    c: [f64; 3],
    /// Powers of ten of the three
    s: [f64; 3],
    th: f64,
}

fn vecs() -> BoxedStrategy<Vecs> {
    let v = || {
        prop::array::uniform3(prop_oneof![5 => -1.0..1.0f64, 1 => Just(0.0), 1 => Just(1.0), 1 => Just(-1.0)]).prop_map(|x| if x == [0.0; 3] { [0.0, 0.0, 1.0] } else { x })
    };
    (v(), v(), v(), prop::array::uniform3(-2.0..6.0f64), prop_oneof![3 => -10.0..10.0f64, 1 => (-8i32..9).prop_map(|k| k as f64 * std::f64::consts::FRAC_PI_4)])
        .prop_map(|(a, b, c, s, th)| Vecs { a, b, c, s, th })
        .boxed()
}

fn unit(x: &V3) -> V3 {
    x / x.norm()
}

fn chk_vec(c: &Vecs) -> R {
    let (a, b, d) = (V3::from(c.a) * 10f64.powf(c.s[0]), V3::from(c.b) * 10f64.powf(c.s[1]), V3::from(c.c) * 10f64.powf(c.s[2]));
    let near = |x: V3, y: V3, scale: f64| (x - y).norm() <= 1e-12 * scale;
    let (na, nb) = (a.norm(), b.norm());
    req!(near(tilde_matrix(&a) * b, a.cross(&b), na * nb), "tilde", "{} x {}", a, b);
    // The rotations about the axes turn the frame: a vector along the next axis gets its component on the one after.
    for (k, m) in [r1(c.th), r2(c.th), r3(c.th)].iter().enumerate() {
        let mut ax = V3::zeros();
        ax[k] = 1.0;
        let want = a * c.th.cos() - ax.cross(&a) * c.th.sin() + ax * (a[k] * (1.0 - c.th.cos()));
        req!(near(m * a, want, na), "axis-rotation", "r{}({}) of {a} is {} instead of {want}", k + 1, c.th, m * a);
        req!(near(rotv(&a, &ax, -c.th), want, na), "frame-and-vector", "rotating the vector by the opposite angle gives {}", rotv(&a, &ax, -c.th));
    }
    // Rotating a vector about any axis
    let r = rotv(&a, &b, c.th);
    let k = unit(&b);
    let perp = a - k * a.dot(&k);
    let want = k * a.dot(&k) + perp * c.th.cos() + k.cross(&perp) * c.th.sin();
    req!(near(r, want, na), "rotv", "{r} instead of {want}");
    let back = rotv(&r, &(b * 3.0), -c.th);
    req!(near(back, a, na), "rotv-back", "{back} instead of {a}");
    // Parts along and across
    let (p, q) = (projv(&a, &b), perpv(&a, &b));
    req!(near(p + q, a, na), "parts", "{p} and {q} do not add up to {a}");
    req!(p.cross(&b).norm() <= 1e-12 * na * nb && q.dot(&b).abs() <= 1e-12 * na * nb, "along-across", "{p} and {q} of {a} on {b}");
    req!(perpv(&V3::zeros(), &b) == V3::zeros() && perpv(&a, &V3::zeros()) == a && projv(&a, &V3::zeros()) == V3::zeros(), "nil", "parts with nil vectors");
    let u = unitize(a);
    req!(near(u, a / na, 1.0) && unitize(V3::zeros()) == V3::zeros(), "unit", "{u}");
    // Spherical
    let (rho, f, t) = cartesian_to_spherical(&a);
    req!(close(rho, na, 1e-13, 0.0), "range", "{rho} instead of {na}");
    let s = spherical_to_cartesian(rho, f, t);
    req!(near(s, a, 5e4 * na), "spherical", "{s} instead of {a}");
    req!((t.cos() - a.z / na).abs() < 1e-9 && (-1e-12..=std::f64::consts::PI + 1e-12).contains(&t), "polar-angle", "{t} for {a}");
    req!((f.sin() * a.x - f.cos() * a.y).abs() <= 1e-12 * na, "azimuth", "{f} for {a}");
    // Errors
    let (x, y) = (Vector6::new(a.x, a.y, a.z, b.x, b.y, b.z), Vector6::new(d.x, d.y, d.z, a.y, a.z, a.x));
    let e = V3::new(a.y, a.z, a.x);
    let (er, ev) = ((a - d).norm(), (b - e).norm());
    req!(close(rss_errors(&x, &y), (er * er + ev * ev).sqrt(), 1e-12, 0.0), "rss", "{}", rss_errors(&x, &y));
    let (gr, gv) = rss_orbit_vec_errors(&x, &y);
    req!(close(gr, er, 1e-12, 0.0) && close(gv, ev, 1e-12, 0.0), "rss-vectors", "{gr} and {gv} instead of {er} and {ev}");
    let o = |x: &Vector6<f64>| Orbit::new(x[0], x[1], x[2], x[3], x[4], x[5], ep(0.0), eme2k());
    let (gr, gv) = rss_orbit_errors(&o(&x), &o(&y));
    req!(close(gr, er, 1e-12, 0.0) && close(gv, ev, 1e-12, 0.0), "rss-orbits", "{gr} and {gv} instead of {er} and {ev}");
    // Diagonal
    let mut m = Matrix3::from_diagonal(&a);
    req!(is_diagonal(&m), "diagonal", "{m}");
    let (i, j) = ((c.th.abs() * 1e4) as usize % 3, (c.th.abs() * 1e6) as usize % 2);
    m[(i, (i + 1 + j) % 3)] = b.amax() * if c.th > 0.0 { 1.0 } else { -1.0 };
    req!(!is_diagonal(&m), "not-diagonal", "{m}");
    Ok(Out::Hit)
}

fn chk_angle(c: &(f64, f64, f64, f64)) -> R {
    let (a, x, lo, w) = *c;
    let same = |p: f64, q: f64, turn: f64| {
        let k = (p - q) / turn;
        (k - k.round()).abs() * turn <= 1e-12 * (p.abs() + turn)
    };
    let b = between_0_360(a);
    req!((0.0..=360.0).contains(&b) && same(a, b, 360.0), "circle", "{a} becomes {b}");
    let b = between_pm_180(a);
    req!((-180.0..=180.0).contains(&b) && same(a, b, 360.0), "half-circle", "{a} becomes {b}");
    let b = between_pm_x(a, x);
    req!((-x..=x).contains(&b) && same(a, b, 2.0 * x), "plus-minus", "{a} becomes {b} within {x}");
    if (-180.0..180.0).contains(&a) {
        req!(between_pm_180(a) == a, "inside", "{a} becomes {}", between_pm_180(a));
    }
    if (0.0..360.0).contains(&a) {
        req!(between_0_360(a) == a, "inside", "{a} becomes {}", between_0_360(a));
    }
    // Normalized values
    let hi = lo + w;
    let v = lo + w * (a / 1e3);
    let n = normalize(v, lo, hi);
    let (ok_lo, ok_hi) = (normalize(lo, lo, hi) == -1.0, close(normalize(hi, lo, hi), 1.0, 1e-12, 0.0));
    req!(ok_lo && ok_hi, "ends", "the ends become {} and {}", normalize(lo, lo, hi), normalize(hi, lo, hi));
    req!(close(denormalize(n, lo, hi), v, 0.0, 1e-11 * (v.abs() + lo.abs() + w)), "normalized", "{v} comes back as {}", denormalize(n, lo, hi));
    req!(close(denormalize(0.0, lo, hi), (lo + hi) / 2.0, 0.0, 1e-12 * (lo.abs() + w)), "middle", "{}", denormalize(0.0, lo, hi));
    req!(kronecker(a, a) == 1.0 && kronecker(a, a + 1e-3 * (1.0 + a.abs())) == 0.0, "kronecker", "{a}");
    let s = 10f64.powi((x as i32) % 12 - 6) * (1.0 + (w % 8.9));
    req!(mag_order(s) == (x as i32) % 12 - 6 && mag_order(-s) == mag_order(s), "order", "{s} is of order {}", mag_order(s));
    let st = |z: f64| are_eigenvalues_stable(&SVector::<Complex<f64>, 3>::new(Complex::new(-1.0, a), Complex::new(z, x), Complex::new(-w, 0.0)));
    req!(st(-x) && st(0.0) && !st(x), "stable", "{x}");
    Ok(Out::Hit)
}

fn pseudo<const M: usize, const N: usize>(v: &[f64]) -> R {
    let m = SMatrix::<f64, M, N>::from_fn(|i, j| v[i * 6 + j]);
    let d = DMatrix::from_fn(M, N, |i, j| m[(i, j)]);
    let sv = d.clone().svd(false, false).singular_values;
    if sv.min() < 1e-3 * sv.max() {
        return Ok(Out::Trivial);
    }
    // (by the normal equations: the condition number squared)
    let tol = 1e-9 + 1e-13 * (sv.max() / sv.min()).powi(3);
    let got: Result<_, nyx_space::md::TargetingError> = pseudo_inverse!(&m);
    let got = got.map_err(err)?;
    let gd: Result<DMatrix<f64>, nyx_space::md::TargetingError> = pseudo_inverse!(&d);
    let gd = gd.map_err(err)?;
    // The four conditions that only the pseudo-inverse meets
    for g in [DMatrix::from_fn(N, M, |i, j| got[(i, j)]), gd] {
        let (l, r) = (&d * &g, &g * &d);
        let bad = [(&l * &d - &d).amax() / sv.max(), (&r * &g - &g).amax() * sv.min(), (&l - l.transpose()).amax(), (&r - r.transpose()).amax()];
        req!(bad.iter().all(|x| *x <= tol), "pseudo-inverse", "{M}x{N}: {g} is off by {bad:?}");
    }
    Ok(Out::Hit)
}

fn chk_pinv(c: &(u8, Vec<f64>)) -> R {
    let v = &c.1;
    match c.0 {
        0 => pseudo::<1, 3>(v),
        1 => pseudo::<2, 3>(v),
        2 => pseudo::<3, 3>(v),
        3 => pseudo::<4, 3>(v),
        4 => pseudo::<6, 2>(v),
        5 => pseudo::<3, 6>(v),
        6 => pseudo::<6, 6>(v),
        _ => {
            // Singular: refused
            let mut m = SMatrix::<f64, 3, 3>::from_fn(|i, j| (v[i * 6 + j] * 4.0).round());
            let r = m.row(0).into_owned();
            m.set_row(2, &(r * 2.0));
            m.set_row(1, &(r * -1.0));
            let got: Result<_, nyx_space::md::TargetingError> = pseudo_inverse!(&m);
            req!(got.is_err(), "singular", "inverted {m}");
            Ok(Out::Hit)
        }
    }
}

fn poly<const N: usize>(k: &[f64], x: f64) -> R {
    let mut co = [0.0; N];
    co.copy_from_slice(&k[..N]);
    let p = Polynomial::<N> { coefficients: co };
    let (mut v, mut d, mut scale, mut ds) = (0.0, 0.0, 0.0, 0.0);
    for (i, c) in co.iter().enumerate() {
        v += c * x.powi(i as i32);
        scale += (c * x.powi(i as i32)).abs();
        if i > 0 {
            d += i as f64 * c * x.powi(i as i32 - 1);
            ds += (i as f64 * c * x.powi(i as i32 - 1)).abs();
        }
    }
    let near = |a: f64, b: f64, s: f64| (a - b).abs() <= 1e-12 * s + 1e-300;
    req!(near(p.eval(x), v, scale) && p.eval_n_deriv(x).0 == p.eval(x), "eval", "{p} at {x} is {} instead of {v}", p.eval(x));
    req!(near(p.deriv(x), d, ds) && p.eval_n_deriv(x).1 == p.deriv(x), "deriv", "derivative of {p} at {x} is {} instead of {d}", p.deriv(x));
    let mut rev = co;
    rev.reverse();
    req!(Polynomial::<N>::from_most_significant(rev) == p && p.order() == N - 1, "order", "{p}");
    req!(near((p * 3.0).eval(x), 3.0 * v, 3.0 * scale) && near((&p * -2.0).eval(x), -2.0 * v, 2.0 * scale) && near((0.5 * p).eval(x), 0.5 * v, scale), "scaled", "{p} at {x}");
    let mut q = p;
    q += 7.0;
    req!(near(q.eval(x), v + 7.0, scale + 7.0) && near(q.deriv(x), d, ds), "plus-constant", "{q} at {x}");
    let o = Polynomial::<N>::from_most_significant(co);
    let (ov, os) = (o.eval(x), rev.iter().enumerate().map(|(i, c)| (c * x.powi(i as i32)).abs()).sum::<f64>());
    req!(near((p + o).eval(x), v + ov, scale + os) && near((p - o).eval(x), v - ov, scale + os), "sum", "{p} and {o} at {x}");
    // With a shorter one
    let c0 = Polynomial::<1> { coefficients: [k[5]] };
    req!(near((c0 + p).eval(x), v + k[5], scale + k[5].abs()) && near((p - c0).eval(x), v - k[5], scale + k[5].abs()), "short", "{p} and {c0} at {x}");
    for i in 0..N + 2 {
        let mut z = p;
        z.zero_power(i);
        for j in 0..N {
            req!(z.coefficients[j] == if j == i { 0.0 } else { co[j] }, "zero-power", "{p} without power {i} is {z}");
        }
    }
    let tol = k[6].abs();
    let mut z = p;
    z.zero_below_tolerance(tol);
    for j in 0..N {
        req!(z.coefficients[j] == if co[j].abs() < tol { 0.0 } else { co[j] }, "zero-below", "{p} above {tol} is {z}");
    }
    req!(!p.is_nan() && Polynomial::<N>::zeros().eval(x) == 0.0, "nan", "{p}");
    let mut n = p;
    n.coefficients[N - 1] = f64::NAN;
    req!(n.is_nan(), "nan", "{n}");
    Ok(Out::Hit)
}

fn chk_poly(c: &(u8, Vec<f64>, f64)) -> R {
    let (n, k, x) = (c.0, &c.1, c.2);
    let (a, b, q) = (k[0], k[1], k[2]);
    let all = [CommonPolynomial::Constant { a }, CommonPolynomial::Linear { a, b }, CommonPolynomial::Quadratic { a, b, c: q }];
    let want = [vec![a], vec![b, a], vec![q, b, a]];
    for (p, w) in all.iter().zip(want) {
        let (mut v, mut d, mut s) = (0.0, 0.0, 0.0);
        for (i, c) in w.iter().enumerate() {
            v += c * x.powi(i as i32);
            s += (c * x.powi(i as i32)).abs() + if i > 0 { (i as f64 * c * x.powi(i as i32 - 1)).abs() } else { 0.0 };
            d += if i > 0 { i as f64 * c * x.powi(i as i32 - 1) } else { 0.0 };
            req!(p.coeff_in_order(i).map_err(err)? == *c, "coefficient", "coefficient {i} of {p}");
        }
        req!(p.coeff_in_order(w.len()).is_err(), "no-coefficient", "{p}");
        req!((p.eval(x) - v).abs() <= 1e-12 * s && (p.deriv(x) - d).abs() <= 1e-12 * s, "common", "{p} at {x}: {} and {} instead of {v} and {d}", p.eval(x), p.deriv(x));
    }
    match n {
        1 => poly::<1>(k, x),
        2 => poly::<2>(k, x),
        3 => poly::<3>(k, x),
        4 => poly::<4>(k, x),
        _ => poly::<5>(k, x),
    }
}

fn p33() -> Prop {
    Prop {
        id: "P33",
        assumptions: &["vectors between 1e-2 and 1e6 (or nil where handled)", "matrices of condition below 1e3 for the pseudo-inverse", "the order in which with_val_in_order and add_val_in_order count coefficients is not claimed"],
        subs: vec![
            sub("vectors", "always", 400_000, 10_000_000, vecs, chk_vec),
            sub("scalars", "always", 40_000, 1_000_000, || {
                (
                    prop_oneof![4 => -1e3..1e3f64, 2 => (-24i32..25).prop_map(|k| k as f64 * 90.0), 1 => -1e6..1e6f64, 2 => (-6i32..7, -1e-9..1e-9f64).prop_map(|(k, e)| k as f64 * 180.0 + e)],
                    0.5..500.0f64,
                    -1e3..1e3f64,
                    1e-2..1e4f64,
                )
            }, chk_angle),
            sub("pseudo-inverse", "well conditioned, or singular and refused", 20_000, 500_000, || (0u8..8, prop::collection::vec(-1.0..1.0f64, 36)), chk_pinv),
            sub("polynomials", "always", 40_000, 1_000_000, || (1u8..6, prop::collection::vec(prop_oneof![4 => -100.0..100.0f64, 1 => Just(0.0)], 7), prop_oneof![4 => -20.0..20.0f64, 1 => Just(0.0), 1 => -1e-3..1e-3f64]), chk_poly),
        ],
    }
}
