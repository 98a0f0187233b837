//! C23: numeric helpers, reached through the guarded `verif_hooks` module.
use super::{Prop, MIRI};
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use adhoc_audio::verif_hooks::*;

// ------------------------------------------------------------------ C23

pub static C23: Prop = Prop {
    id: "C23",
    quick: 240000,
    thorough: 19200000,
    run: c23,
    rule: "Each case evaluates one helper on random, extreme and degenerate arguments (lengths 0 to 3000, in 1 case of 1000 up to 500000, magnitudes 1e-30 to 1e30, kernels longer than the signal, resampling by factors from 1/500 to 500) and compares with the double-precision definition within a tolerance derived from single-precision rounding; noise sequences of 30000 values are checked for range, reproducibility, mean and shape. Distinct by arguments.",
    assume: &["finite inputs", "noise: seeds below 2^40 other than the fixed point of the generator", "resampling to at least 2 points from at least 1; Gaussian of at least 2 taps"],
    require: &[("parabola", 24000), ("noise_values", 30000000), ("convolve", 24000), ("kernel_longer_than_signal", 3000), ("scale", 24000), ("scale_lines", 6000), ("gaussian", 15000), ("mse", 15000), ("long_arguments", 100)],
};
const EPS: f64 = 1.2e-7;
fn mag(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => 1.0,
        1 => 10f64.powf(r.sym() * 30.0),
        2 => 32768.0,
        _ => 10f64.powf(r.sym() * 4.0),
    }
}
fn vecf(r: &mut Rng, n: usize) -> Vec<f32> {
    let a = mag(r).min(1e15);
    let k = r.below(5);
    (0..n)
        .map(|i| {
            (a * match k {
                0 => r.sym(),
                1 => (i as f64 * 0.1).sin(),
                2 => {
                    if r.chance(1, 9) {
                        r.sym()
                    } else {
                        0.0
                    }
                }
                3 => 1.0,
                _ => (r.below(3) as f64) - 1.0,
            }) as f32
        })
        .collect()
}
pub fn c23(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    match idx % 6 {
        0 => parabola(c, r),
        1 => {
            if idx % 12 == 1 {
                noise(c, r)
            } else {
                mse(c, r)
            }
        }
        2 => convolve(c, r),
        3 => scale(c, r),
        4 => gauss(c, r),
        _ => {
            if r.chance(1, 2) {
                scale(c, r)
            } else {
                convolve(c, r)
            }
        }
    }
}
pub fn parabola(c: &mut Ctx, r: &mut Rng) -> Res {
    let a = mag(r);
    let f: [f32; 3] = match r.below(4) {
        0 => [(a * r.sym()) as f32; 3],
        1 => {
            let (u, v) = (a * r.sym(), a * r.sym());
            [u as f32, (u + v) as f32, (u + 2.0 * v) as f32]
        }
        2 => [r.i64(-32768, 32767) as f32, r.i64(-32768, 32767) as f32, r.i64(-32768, 32767) as f32],
        _ => [(a * r.sym()) as f32, (a * r.sym()) as f32, (a * r.sym()) as f32],
    };
    let mut p = if r.chance(1, 2) {
        FixedParabola::from_samples(f)
    } else {
        // a reused object must not remember earlier points
        let mut p = FixedParabola::from_samples([r.sym() as f32, 3.0, -7.0]);
        p.compute_coefs();
        p.f = f;
        p
    };
    p.compute_coefs();
    let m = f.iter().fold(0f64, |m, x| m.max(x.abs() as f64));
    let (f0, f1, f2) = (f[0] as f64, f[1] as f64, f[2] as f64);
    let at = |x: f64| f0 + (f1 - f0) * x + (f2 - 2.0 * f1 + f0) * x * (x - 1.0) / 2.0;
    let mut xs = vec![0.0f64, 1.0, 2.0, 3.0, -1.0];
    xs.push((r.sym() * 20.0) as f32 as f64);
    for x in xs {
        let got = p.eval(x as f32) as f64;
        let tol = 12.0 * EPS * m * (1.0 + x.abs() + x * x) + 1e-37;
        ensure!((got - at(x)).abs() <= tol, "parabola through {:?}: value at {} is {} instead of {}", f, x, got, at(x));
    }
    // integers in the 16-bit range are exact in single precision
    if f.iter().all(|x| x.fract() == 0.0 && x.abs() <= 32768.0) {
        ensure!(p.eval(3.0) as f64 == at(3.0), "parabola through {:?}: extrapolation {} instead of exactly {}", f, p.eval(3.0), at(3.0));
    }
    c.count("parabola", 1);
    c.d(format!("parabola {:?}", f));
    c.sig(hash_f32s(&f));
    Ok(())
}
pub fn noise(c: &mut Ctx, r: &mut Rng) -> Res {
    let seed = match r.below(5) {
        0 => *r.pick(&[0u64, 1, 123, 314, 507960, 507961]),
        1 => r.below(1 << 40),
        _ => r.below(600_000),
    };
    if seed % 507961 == 455685 {
        return Ok(());
    }
    const N: usize = 30_000;
    let tri = r.chance(1, 2);
    let gen = |n: usize| -> Vec<f32> {
        let mut p = PseudoRandom::new(seed);
        if tri {
            p.triangle().take(n).collect()
        } else {
            p.uniform().take(n).collect()
        }
    };
    let v = gen(N);
    ensure!(v == gen(N), "the noise from seed {} is not reproducible", seed);
    // taking it in pieces continues the same sequence
    let mut p = PseudoRandom::new(seed);
    let k = r.usize(0, 500);
    let mut w: Vec<f32> = if tri { p.triangle().take(k).collect() } else { p.uniform().take(k).collect() };
    w.extend(if tri { p.triangle().take(500 - k).collect::<Vec<_>>() } else { p.uniform().take(500 - k).collect() });
    ensure!(w[..] == v[..500], "the noise from seed {} changes when taken in pieces", seed);
    let mut sum = 0.0;
    let mut hist = [0usize; 10];
    for &x in &v {
        ensure!((-1.0..=1.0).contains(&x), "noise value {} from seed {}", x, seed);
        sum += x as f64;
        hist[(((x as f64 + 1.0) * 5.0) as usize).min(9)] += 1;
    }
    let mean = sum / N as f64;
    ensure!(mean.abs() < 0.02, "mean of the noise from seed {} is {}", seed, mean);
    for (b, &n) in hist.iter().enumerate() {
        let (lo, hi) = (b as f64 / 5.0 - 1.0, (b + 1) as f64 / 5.0 - 1.0);
        let cdf = |x: f64| if tri { if x < 0.0 { (1.0 + x) * (1.0 + x) / 2.0 } else { 1.0 - (1.0 - x) * (1.0 - x) / 2.0 } } else { (x + 1.0) / 2.0 };
        let want = cdf(hi) - cdf(lo);
        let got = n as f64 / N as f64;
        ensure!((got - want).abs() < 0.015, "{} noise from seed {}: {:.4} of the values in {:.1}..{:.1} instead of {:.4}", if tri { "triangular" } else { "uniform" }, seed, got, lo, hi, want);
    }
    c.count("noise_values", N as u64);
    if r.chance(1, 20) {
        let s = if tri { NoiseDistribution::<f32, 4000>::triangle().to_string() } else { NoiseDistribution::<f32, 4000>::uniform().to_string() };
        let stars = s.matches('*').count();
        ensure!(s.lines().count() == 20 && (275..=300).contains(&stars), "histogram of {} lines and {} stars", s.lines().count(), stars);
    }
    c.d(format!("noise seed {} triangular {}", seed, tri));
    c.sig(seed * 2 + tri as u64);
    Ok(())
}
pub fn mse(c: &mut Ctx, r: &mut Rng) -> Res {
    let n = if !MIRI && r.chance(1, 300) { c.count("long_arguments", 1); r.usize(60_000, 500_000) } else { r.logsize(1, 2000) };
    let extra = r.usize(0, 3);
    let (mut a, mut b) = (vecf(r, n), vecf(r, n));
    if r.chance(1, 8) {
        b = a.clone()
    }
    if r.chance(1, 2) {
        a.extend(vec![1e9; extra])
    } else {
        b.extend(vec![1e9; extra])
    }
    let mut s = 0.0f64;
    for i in 0..n {
        let d = (a[i] - b[i]) as f64;
        s += d * d
    }
    let want = s / n as f64;
    let got = compute_mse(&a, &b) as f64;
    ensure!((got - want).abs() <= EPS * (n as f64 + 8.0) * want + 1e-36, "mean squared error of {} values is {} instead of {}", n, got, want);
    ensure!(compute_mse(&b, &a) as f64 == got, "mean squared error is not symmetric");
    c.count("mse", 1);
    c.d(format!("mse of {}", n));
    c.sig(hash_f32s(&a) ^ hash_f32s(&b).rotate_left(1));
    Ok(())
}
pub fn convolve(c: &mut Ctx, r: &mut Rng) -> Res {
    let big = r.chance(1, 10) && !MIRI;
    let n = r.logsize(0, if MIRI { 12 } else if big { 1500 } else { 60 });
    let big = r.chance(1, 10) && !MIRI;
    let k = r.logsize(0, if big { 200 } else { 24 });
    let (n, k) = if !MIRI && r.chance(1, 1000) {
        c.count("long_arguments", 1);
        match r.below(3) {
            0 => (r.usize(60_000, 140_000), r.usize(0, 9)),
            1 => (r.usize(0, 9), r.usize(60_000, 140_000)),
            _ => (r.usize(200, 3000), r.usize(200, 3000)),
        }
    } else {
        (n, k)
    };
    let (s, f) = (vecf(r, n), vecf(r, k));
    let extra = r.usize(0, 3);
    let (mut o1, mut o2) = (vec![777.0f32; n + extra], vec![777.0f32; n + extra]);
    convolve_1d(&s, &f, &mut o1);
    convolve_1d_branchless(&s, &f, &mut o2);
    for i in 0..n {
        let (mut want, mut abs) = (0.0f64, 0.0f64);
        for j in 0..k {
            let x = i as i64 + j as i64 - (k / 2) as i64;
            if x >= 0 && x < n as i64 {
                let t = s[x as usize] as f64 * f[j] as f64;
                want += t;
                abs += t.abs()
            }
        }
        let tol = EPS * (k as f64 + 4.0) * abs + 1e-36;
        ensure!((o1[i] as f64 - want).abs() <= tol, "convolution of {} with {} taps: element {} is {} instead of {}", n, k, i, o1[i], want);
        ensure!((o2[i] as f64 - want).abs() <= tol, "branchless convolution of {} with {} taps: element {} is {} instead of {}", n, k, i, o2[i], want);
    }
    ensure!(o1[n..].iter().chain(&o2[n..]).all(|&x| x == 777.0), "convolution of {} values writes beyond", n);
    c.count("convolve", 1);
    c.count("kernel_longer_than_signal", (k > n) as u64);
    c.d(format!("convolve {} with {}", n, k));
    c.sig(hash_f32s(&s) ^ hash_f32s(&f).rotate_left(1));
    Ok(())
}
pub fn scale(c: &mut Ctx, r: &mut Rng) -> Res {
    let big = r.chance(1, 10) && !MIRI;
    let n = r.logsize(1, if MIRI { 12 } else if big { 3000 } else { 60 });
    let big = r.chance(1, 10) && !MIRI;
    let d = if r.chance(1, 8) { n.max(2) } else { r.logsize(2, if MIRI { 20 } else if big { 3000 } else { 100 }) };
    let (n, d) = if !MIRI && r.chance(1, 1000) {
        c.count("long_arguments", 1);
        (r.logsize(1, 140_000), r.logsize(2, 140_000))
    } else {
        (n, d)
    };
    let line = r.chance(1, 3);
    let a = mag(r).min(1e15);
    let (u, v) = (a * r.sym(), a * r.sym() / n as f64);
    let s: Vec<f32> = if line { (0..n).map(|i| (u + v * i as f64) as f32).collect() } else { vecf(r, n) };
    let mut out = vec![777.0f32; d + r.usize(0, 3)];
    let len = scale_signal(&s, d, &mut out).len();
    ensure!(len == d, "resampling to {} points returns {}", d, len);
    ensure!(out[d..].iter().all(|&x| x == 777.0), "resampling writes beyond {} points", d);
    let (lo, hi) = s.iter().fold((f64::MAX, f64::MIN), |(a, b), &x| (a.min(x as f64), b.max(x as f64)));
    let m = lo.abs().max(hi.abs());
    let slope = s.windows(2).fold(0f64, |x, w| x.max((w[1] as f64 - w[0] as f64).abs()));
    for i in 0..d {
        let pos = i as f64 * (n - 1) as f64 / (d - 1) as f64;
        let w0 = (pos.floor() as usize).min(n - 1);
        let w1 = (w0 + 1).min(n - 1);
        let t = pos - w0 as f64;
        let want = s[w0] as f64 * (1.0 - t) + s[w1] as f64 * t;
        let tol = slope * pos * 4.0 * EPS + 4.0 * EPS * m + 1e-36;
        let got = out[i] as f64;
        ensure!((got - want).abs() <= tol, "resampling {} to {} points: point {} is {} instead of {}", n, d, i, got, want);
        ensure!(got >= lo - 2.0 * EPS * m && got <= hi + 2.0 * EPS * m, "resampling {} to {} points: point {} = {} outside {}..{}", n, d, i, got, lo, hi);
        if line {
            let want = u + v * pos;
            ensure!((got - want).abs() <= tol + 2.0 * EPS * m, "resampling a line of {} to {} points: point {} is {} instead of {}", n, d, i, got, want);
        }
    }
    ensure!(out[0] == s[0], "resampling {} to {} points: first point {} instead of {}", n, d, out[0], s[0]);
    if d == n {
        // same length: identity up to rounding of the positions
        for i in 0..n {
            ensure!(out[i] == s[i], "resampling {} to the same length changes point {} from {} to {}", n, i, s[i], out[i]);
        }
    }
    c.count("scale", 1);
    c.count("scale_lines", line as u64);
    c.d(format!("scale {} to {}", n, d));
    c.sig(hash_f32s(&s) ^ (d as u64).rotate_left(32));
    Ok(())
}
pub fn gauss_n<const N: usize>(c: &mut Ctx, r: &mut Rng) -> Res {
    let sigma = 10f64.powf(r.sym() * 2.0) as f32;
    let ratio = r.unit() * 7.9 + 0.1;
    let rad = (sigma as f64 * ratio) as f32;
    let g = gaussian_filter::<N>(sigma, rad);
    for k in 0..N {
        let x = (k as f64 / (N - 1) as f64 * 2.0 - 1.0) * rad as f64 / sigma as f64;
        let want = (-0.5 * x * x).exp() / (sigma as f64 * (2.0 * std::f64::consts::PI).sqrt());
        ensure!(g[k] > 0.0, "Gaussian of {} taps (sigma {}, radius {}): tap {} is {}", N, sigma, rad, k, g[k]);
        ensure!((g[k] as f64 - want).abs() <= 1e-3 * want, "Gaussian of {} taps (sigma {}, radius {}): tap {} is {} instead of {}", N, sigma, rad, k, g[k], want);
        let (a, b) = (g[k] as f64, g[N - 1 - k] as f64);
        ensure!((a - b).abs() <= 1e-4 * a, "Gaussian of {} taps (sigma {}, radius {}): taps {} and {} differ: {} {}", N, sigma, rad, k, N - 1 - k, a, b);
        ensure!(g[k] as f64 <= g[N / 2] as f64 * (1.0 + 1e-4), "Gaussian of {} taps does not peak in the middle", N);
        if k > 0 && k <= N / 2 {
            ensure!(g[k] as f64 >= g[k - 1] as f64 * (1.0 - 1e-4), "Gaussian of {} taps falls before the middle", N);
        }
    }
    c.count("gaussian", 1);
    c.d(format!("gaussian {} {} {}", N, sigma, rad));
    c.sig(hash_f32s(&g));
    Ok(())
}
pub fn gauss(c: &mut Ctx, r: &mut Rng) -> Res {
    match r.below(8) {
        0 => gauss_n::<2>(c, r),
        1 => gauss_n::<3>(c, r),
        2 => gauss_n::<4>(c, r),
        3 => gauss_n::<5>(c, r),
        4 => gauss_n::<9>(c, r),
        5 => gauss_n::<16>(c, r),
        6 => gauss_n::<31>(c, r),
        7 if !MIRI && r.chance(1, 8) => gauss_n::<1000>(c, r),
        7 if !MIRI && r.chance(1, 8) => gauss_n::<5000>(c, r),
        7 if !MIRI => gauss_n::<128>(c, r),
        _ => gauss_n::<7>(c, r),
    }
}
