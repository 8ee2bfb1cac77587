//! C36 ground assets located by spacecraft.
use anise::prelude::*;
use arrow::array::{Array, Float64Array};
use hifitime::{Epoch, Unit};
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Const, Matrix3, SMatrix, SVector, Vector6};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::io::ExportCfg;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::TrackingDevice;
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::od::groundpnt::GroundAsset;
use nyx_space::dynamics::Dynamics as _;
use nyx_space::od::groundpnt::ground_dynamics::GroundDynamics;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::kalman::KalmanVariant;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use nyx_space::od::noise::{StochasticNoise, WhiteNoise};
use nyx_space::od::process::KalmanODProcess;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use nyxmon::alm::*;
use nyxmon::gens::*;
use nyxmon::math::*;
use nyxmon::mon::*;
use nyxmon::ok;
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use rand_pcg::Pcg64Mcg;
use std::collections::BTreeMap;
use MeasurementType as MT;

type X6 = Vector6<f64>;

fn shape(f: &Frame) -> (f64, f64) {
    let s = f.shape.unwrap();
    let (a, b) = (s.semi_major_equatorial_radius_km, s.polar_radius_km);
    (a, 1.0 - (b * b) / (a * a))
}
/// Body fixed position of a geodetic point.
fn point(f: &Frame, lat: f64, lon: f64, h: f64) -> V3 {
    let (a, e2) = shape(f);
    let (sp, cp) = lat.to_radians().sin_cos();
    let (sl, cl) = lon.to_radians().sin_cos();
    let n = a / (1.0 - e2 * sp * sp).sqrt();
    V3::new((n + h) * cp * cl, (n + h) * cp * sl, (n * (1.0 - e2) + h) * sp)
}
/// Rows S, E, Z in body fixed axes.
fn sez(lat: f64, lon: f64) -> Matrix3<f64> {
    let (sp, cp) = lat.to_radians().sin_cos();
    let (sl, cl) = lon.to_radians().sin_cos();
    Matrix3::new(sp * cl, sp * sl, -cp, -sl, cl, 0.0, cp * cl, cp * sl, sp)
}
/// Body fixed position and velocity of an asset: the velocity is the derivative of the position along its rates.
fn cart(f: &Frame, x: &X6) -> (V3, V3) {
    let r = point(f, x[0], x[1], x[2]);
    let p = |t: f64| point(f, x[0] + t * x[3], x[1] + t * x[4], x[2] + t * x[5]);
    // At most a hundred meters away.
    let speed = (x[3].abs().max(x[4].abs()).to_radians() * r.norm()).max(x[5].abs());
    let h = if speed > 0.0 { 1.0 / speed } else { 1.0 };
    let d = |h: f64| (p(h) - p(-h)) / (2.0 * h);
    (r, richardson(&d, h))
}
fn richardson(d: &dyn Fn(f64) -> V3, h: f64) -> V3 {
    (d(h) * 4.0 - d(2.0 * h)) / 3.0
}
fn vec6(a: &GroundAsset) -> X6 {
    X6::new(a.latitude_deg, a.longitude_deg, a.height_km, a.latitude_rate_deg_s, a.longitude_rate_deg_s, a.height_rate_km_s)
}
fn asset(c: &mut Case, frame: Frame, e: Epoch, moving: bool) -> GroundAsset {
    // Those which move stay on their side of the pole.
    asset_from(c, frame, e, moving, if moving { 4.0 } else { 0.1 })
}
fn asset_from(c: &mut Case, frame: Frame, e: Epoch, moving: bool, pole: f64) -> GroundAsset {
    let lat = if c.b(0.1) { c.f(-1.0, 1.0).signum() * (90.0 - c.logu(pole, 10.0)) } else { c.f(-80.0, 80.0) };
    let lon = if c.b(0.5) { c.f(0.0, 360.0) } else { c.f(-180.0, 180.0) };
    let h = c.f(-0.3, 10.0);
    let mut a = GroundAsset::from_fixed(lat, lon, h, e, frame);
    if moving {
        // Up to an aircraft.
        let v = c.logu(1e-3, 0.3);
        let k = 180.0 / std::f64::consts::PI / point(&frame, lat, lon, h).norm();
        a.latitude_rate_deg_s = v * k * c.gauss();
        a.longitude_rate_deg_s = v * k * c.gauss() / lat.to_radians().cos();
        a.height_rate_km_s = 0.1 * v * c.gauss();
    }
    c.p("asset", format!("{:?}", vec6(&a)));
    a
}
fn bodies(c: &mut Case) -> (Frame, Frame) {
    c.pick(&[(iau_earth(), eme2k()), (iau_moon(), moonj2k())])
}
/// A trajectory on a Keplerian orbit, dense enough for the interpolation to be exact here.
fn kep_traj(o: Orbit, s: &Spacecraft, before: f64, after: f64, name: &str) -> Traj<Spacecraft> {
    let mu = o.frame.mu_km3_s2().unwrap();
    let h = (period_s(&o) / 200.0 * (1.0 - o.ecc().unwrap()).powf(1.5)).clamp(5.0, 1200.0).floor();
    let (n0, n1) = ((before / h).ceil() as i64 + 8, (after / h).ceil() as i64 + 8);
    let mut t = Traj::new();
    t.name = Some(name.to_string());
    for k in -n0..=n1 {
        let dt = k as f64 * h;
        let (r, v) = kepler(mu, o.radius_km, o.velocity_km_s, dt);
        let mut s = *s;
        s.orbit = Orbit { radius_km: r, velocity_km_s: v, epoch: o.epoch + dt * Unit::Second, frame: o.frame };
        t.states.push(s);
    }
    t.finalize();
    t
}
fn transmitter(c: &mut Case, o: Orbit, before: f64, after: f64, ty: &[MT], dt: Option<f64>) -> InterlinkTxSpacecraft {
    let s = sc(c, o);
    InterlinkTxSpacecraft {
        traj: kep_traj(o, &s, before, after, "PNT"),
        measurement_types: ty.iter().copied().collect(),
        integration_time: dt.map(|d| d * Unit::Second),
        timestamp_noise_s: None,
        stochastic_noises: None,
        ab_corr: None,
    }
}
/// An orbit which passes over the asset at this epoch.
fn above(c: &mut Case, a: &GroundAsset, inertial: Frame) -> Orbit {
    let el = c.f(5.0, 89.0);
    above_at(c, a, inertial, el)
}
fn above_at(c: &mut Case, a: &GroundAsset, inertial: Frame, el: f64) -> Orbit {
    let (r, _) = cart(&a.frame, &vec6(a));
    let up = sez(a.latitude_deg, a.longitude_deg).transpose();
    let el = el.to_radians();
    let az = c.f(0.0, std::f64::consts::TAU);
    let dir = up * V3::new(-el.cos() * az.cos(), el.cos() * az.sin(), el.sin());
    let k = r.norm();
    let d = k * c.logu(0.1, 4.0);
    let p = r + dir * d;
    let fixed = Orbit { radius_km: p, velocity_km_s: V3::zeros(), epoch: a.epoch, frame: a.frame };
    let mut o = almanac().transform_to(fixed, inertial, None).unwrap();
    let rr = o.radius_km;
    let t = V3::new(c.gauss(), c.gauss(), c.gauss());
    let t = (t - rr * (t.dot(&rr) / rr.norm_squared())).normalize();
    o.velocity_km_s = t * (inertial.mu_km3_s2().unwrap() / rr.norm()).sqrt() * c.f(1.0, 1.15) + rr.normalize() * c.f(-0.2, 0.2);
    o.frame = inertial;
    o
}
#[derive(Clone, Copy, Debug)]
struct Ref {
    range: f64,
    rate: f64,
    el: f64,
}
impl Ref {
    fn get(&self, t: MT) -> f64 {
        if t == MT::Range { self.range } else { self.rate }
    }
}
/// What an asset measures of a vehicle, whose body fixed state is given.
fn reference(f: &Frame, x: &X6, tx: &Orbit) -> Ref {
    let (r, v) = cart(f, x);
    let (d, dv) = (tx.radius_km - r, tx.velocity_km_s - v);
    let up = sez(x[0], x[1]) * d;
    Ref { range: d.norm(), rate: d.dot(&dv) / d.norm(), el: (up.z / d.norm()).asin().to_degrees() }
}
fn fixed(tx: &InterlinkTxSpacecraft, f: Frame, e: Epoch) -> Orbit {
    almanac().transform_to(tx.traj.at(e).unwrap().orbit, f, None).unwrap()
}
fn sig(t: MT) -> f64 {
    if t == MT::Range { 2e-3 } else { 3e-6 }
}
fn with_noises(d: &mut InterlinkTxSpacecraft) {
    let mut n = IndexMap::new();
    for t in d.measurement_types.clone() {
        n.insert(t, StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: sig(t) }), bias: None });
    }
    d.stochastic_noises = Some(n);
}
fn moved(x: &X6, t: f64) -> X6 {
    let mut y = *x;
    for i in 0..3 {
        y[i] += t * x[i + 3];
    }
    y
}
const SCALE: [f64; 6] = [1.0, 1.0, 100.0, 1e-3, 1e-3, 0.1];

fn motion(c: &mut Case) {
    let e = epoch(c);
    let (f, _) = bodies(c);
    let moving = c.b(0.8);
    let a = asset(c, f, e, moving);
    let t = c.pick(&[1.0, -1.0]) * c.logu(0.5, 20000.0);
    let mut t = (t * 1e6).round() / 1e6;
    let (adaptive, step) = (c.b(0.5), c.f(1.0, 300.0).floor());
    let regular = !adaptive && c.b(0.7);
    if regular {
        // Interpolations are accurate between regular steps.
        t = t.signum() * step * (t.abs() / step).ceil();
    }
    c.p("duration", t);
    let p = if adaptive {
        Propagator::default(GroundDynamics {})
    } else {
        Propagator::new(GroundDynamics {}, c.pick(&[IntegratorMethod::RungeKutta4, IntegratorMethod::DormandPrince78, IntegratorMethod::RungeKutta89]), IntegratorOptions::with_fixed_step_s(step))
    };
    let stm = c.b(0.7);
    let mut a0 = if stm { a.with_stm() } else { a };
    // The transition matrix continues from where it was.
    let s0 = if c.b(0.3) { SMatrix::<f64, 6, 6>::from_fn(|_, _| c.gauss()) } else { SMatrix::identity() };
    if stm {
        a0.stm = Some(s0);
    }
    let x0 = vec6(&a);
    // The partials, when asked for explicitly, are those of the same motion
    let (dx, grad) = ok!(c, "partials", GroundDynamics {}.dual_eom(0.0, &a, &almanac()));
    for i in 0..6 {
        c.near("derivative with partials", dx[i], if i < 3 { x0[i + 3] } else { 0.0 }, 1e-15);
        for j in 0..6 {
            c.near("partial", grad[(i, j)], if j == i + 3 { 1.0 } else { 0.0 }, 1e-15);
        }
    }
    let got = if c.b(0.5) {
        ok!(c, "propagation", p.with(a0, almanac()).for_duration(t * Unit::Second))
    } else {
        let (last, tr) = ok!(c, "propagation", p.with(a0, almanac()).for_duration_with_traj(t * Unit::Second));
        let inner = t.abs() - 16.0 * step;
        for _ in 0..if regular && inner > 0.0 { 5 } else { 0 } {
            let k = (t.signum() * (8.0 * step + c.f(0.0, inner)) * 1e6).round() / 1e6;
            let s = ok!(c, "interpolation", tr.at(e + k * Unit::Second));
            let w = moved(&x0, k);
            for i in 0..6 {
                c.near("interpolated", vec6(&s)[i] / SCALE[i], w[i] / SCALE[i], if i < 3 { 1e-6 } else { 1e-5 });
            }
        }
        c.obs("trajectories", 1);
        last
    };
    c.check("epoch", got.epoch == e + t * Unit::Second && got.frame == f, || format!("{}", got.epoch));
    let (g, w) = (vec6(&got), moved(&x0, t));
    for i in 0..6 {
        c.near("state", g[i] / SCALE[i], w[i] / SCALE[i], 1e-9);
    }
    // Interpolation of a motion which bends.
    {
        let q = SVector::<f64, 6>::from_fn(|i, _| if i < 3 { SCALE[i] * c.gauss() * 1e-5 } else { 0.0 });
        let at = |k: f64| {
            let mut y = moved(&x0, k);
            for i in 0..3 {
                y[i] += 0.5 * q[i] * k * k;
                y[i + 3] += q[i] * k;
            }
            y
        };
        let mut tr = Traj::<GroundAsset>::new();
        let h = c.f(1.0, 60.0).floor();
        for k in -8..=8 {
            let t = h * k as f64;
            let y = at(t);
            let mut b = a;
            (b.latitude_deg, b.longitude_deg, b.height_km) = (y[0], y[1], y[2]);
            (b.latitude_rate_deg_s, b.longitude_rate_deg_s, b.height_rate_km_s) = (y[3], y[4], y[5]);
            b.epoch = e + t * Unit::Second;
            tr.states.push(b);
        }
        tr.finalize();
        let k = (c.f(-6.0, 6.0) * h * 1e3).round() / 1e3;
        let s = ok!(c, "interpolation", tr.at(e + k * Unit::Second));
        let w = at(k);
        for i in 0..6 {
            c.near("bent motion", vec6(&s)[i] / SCALE[i], w[i] / SCALE[i], if i < 3 { 1e-6 } else { 1e-5 });
        }
    }
    c.check("transition matrix", got.stm.is_some() == stm, || format!("{:?}", got.stm));
    if let Some(m) = got.stm {
        for i in 0..6 {
            for j in 0..6 {
                let w = s0[(i, j)] + if i < 3 { t * s0[(i + 3, j)] } else { 0.0 };
                c.near("transition matrix", m[(i, j)], w, 1e-9 * (1.0 + w.abs() + t.abs()));
            }
        }
        c.obs("transition matrices", 1);
    }
    c.nontrivial();
}
fn velocities(c: &mut Case) {
    let e = epoch(c);
    let (f, _) = bodies(c);
    let a = asset_from(c, f, e, true, 0.05);
    let x = vec6(&a);
    let (r, v) = cart(&f, &x);
    let o = a.orbit();
    c.vnear("position", o.radius_km.as_slice(), r.as_slice(), 1e-8);
    let w = sez(a.latitude_deg, a.longitude_deg) * v * 1e3;
    let g = ok!(c, "velocity", a.velocity_sez_m_s());
    c.vnear("SEZ velocity", g.as_slice(), w.as_slice(), 1e-5 * w.norm() + 1e-7);
    let b = GroundAsset::from_fixed(a.latitude_deg, a.longitude_deg, a.height_km, e, f);
    let b = ok!(c, "with velocity", b.with_velocity_sez_m_s(w[0], w[1], w[2]).map_err(|e| e.to_string()));
    let k = r.norm().to_radians();
    let gr = [b.latitude_rate_deg_s * k, b.longitude_rate_deg_s * k, b.height_rate_km_s];
    let wr = [x[3] * k, x[4] * k, x[5]];
    c.vnear("rates", &gr, &wr, 1e-5 * v.norm() / a.latitude_deg.to_radians().cos() + 1e-9);
    c.check("unmoved", vec6(&b).fixed_rows::<3>(0) == x.fixed_rows::<3>(0), || format!("{b:?}"));
    let back = ok!(c, "velocity", b.velocity_sez_m_s());
    c.vnear("round trip", back.as_slice(), w.as_slice(), 1e-9 * w.norm());
    // A deviation adds to every component.
    let d = SVector::<f64, 6>::from_fn(|i, _| c.gauss() * [10.0, 200.0, 5.0, 0.1, 0.1, 0.1][i]);
    let s = vec6(&(a + d));
    c.vnear("deviation added", s.as_slice(), (x + d).as_slice(), 1e-12 * (x.norm() + d.norm()));
    // Jacobian
    let j = ok!(c, "jacobian", a.geodetic_to_cartesian_jacobian());
    let steps = [1e-3, 1e-3, 0.1, 1e-4, 1e-4, 1e-2];
    for k in 0..6 {
        let mut d = SVector::<f64, 6>::zeros();
        let dif = |h: f64| {
            let (mut p, mut m) = (x, x);
            p[k] += h;
            m[k] -= h;
            let ((rp, vp), (rm, vm)) = (cart(&f, &p), cart(&f, &m));
            let mut y = SVector::<f64, 6>::zeros();
            for i in 0..3 {
                y[i] = (rp[i] - rm[i]) / (2.0 * h);
                y[i + 3] = (vp[i] - vm[i]) / (2.0 * h);
            }
            y
        };
        d += (dif(steps[k]) * 4.0 - dif(2.0 * steps[k])) / 3.0;
        let (np, nv) = (d.fixed_rows::<3>(0).norm(), d.fixed_rows::<3>(3).norm());
        for i in 0..6 {
            let n = if i < 3 { np } else { nv };
            let t = 1e-5 * n + if i < 3 { 1e-8 } else { 1e-6 * v.norm() / a.latitude_deg.to_radians().cos() };
            c.near("jacobian", j[(i, k)], d[i], t);
        }
    }
    // Distances
    let b = asset(c, f, e, false);
    let g = ok!(c, "distance", a.great_circle_distance_km(&b));
    let u = |a: &GroundAsset| sez(a.latitude_deg, a.longitude_deg).row(2).transpose();
    let (ua, ub) = (u(&a), u(&b));
    let ang = ua.cross(&ub).norm().atan2(ua.dot(&ub));
    c.near("great circle", g, shape(&f).0 * ang, 1e-6);
    let g = ok!(c, "distance", b.great_circle_distance_km(&a));
    c.near("symmetric", g, shape(&f).0 * ang, 1e-6);
    c.nontrivial();
}
fn measures(c: &mut Case) {
    let e = epoch(c);
    let (f, inertial) = bodies(c);
    let moving = c.b(0.6);
    let mut a = asset(c, f, e, moving);
    let el = if c.b(0.3) { c.f(0.0, 1.5) } else { c.f(5.0, 89.0) };
    let mut o = above_at(c, &a, inertial, el);
    if c.b(0.2) {
        o.radius_km = -o.radius_km;
    }
    let ty: Vec<MT> = c.pick(&[&[MT::Range, MT::Doppler][..], &[MT::Doppler, MT::Range], &[MT::Range], &[MT::Doppler]]).to_vec();
    let dt = c.b(0.4).then(|| c.f(1.0, 60.0).floor());
    c.p("integration", dt);
    let mut d = transmitter(c, o, 400.0, 400.0, &ty, dt);
    // The trajectory of the asset
    let mut tr = Traj::<GroundAsset>::new();
    let x0 = vec6(&a);
    for k in -8..=8 {
        let t = 30.0 * k as f64;
        let y = moved(&x0, t);
        a.latitude_deg = y[0];
        a.longitude_deg = y[1];
        a.height_km = y[2];
        a.epoch = e + t * Unit::Second;
        tr.states.push(a);
    }
    tr.finalize();
    let mut k = c.f(-100.0, 100.0).floor();
    if let Some(t) = dt {
        // About a rising or a setting, when there is one.
        let up = |k: f64| reference(&f, &moved(&x0, k), &fixed(&d, f, e + k * Unit::Second)).el > 0.0;
        let turns: Vec<f64> = (-10..=10).map(|i| 10.0 * i as f64).filter(|k| up(*k) != up(*k - t)).collect();
        if !turns.is_empty() {
            k = c.pick(&turns);
            c.obs("one end hidden", 1);
        }
    }
    let at = e + k * Unit::Second;
    let w1 = reference(&f, &moved(&x0, k), &fixed(&d, f, at));
    let w0 = dt.map_or(w1, |t| reference(&f, &moved(&x0, k - t), &fixed(&d, f, at - t * Unit::Second)));
    if w0.el.abs() < 1e-5 || w1.el.abs() < 1e-5 {
        c.skip("grazing");
        return;
    }
    let vis = w0.el > 0.0 && w1.el > 0.0;
    let msr = ok!(c, "measure", d.measure(at, &tr, None, &almanac()));
    c.check("visibility", msr.is_some() == vis, || format!("{} at {} and {} degrees", msr.is_some(), w0.el, w1.el));
    c.nontrivial();
    c.obs(if vis { "visible" } else { "hidden" }, 1);
    let loc = ok!(c, "location", TrackingDevice::<GroundAsset>::location(&d, at, f, &almanac()));
    c.vnear("location", loc.radius_km.as_slice(), fixed(&d, f, at).radius_km.as_slice(), 1e-9);
    let Some(msr) = msr else { return };
    c.check("epoch", msr.epoch == at, || format!("{}", msr.epoch));
    c.check("types", msr.data.len() == ty.len() && ty.iter().all(|t| msr.data.contains_key(t)), || format!("{msr}"));
    for t in &ty {
        let w = 0.5 * (w0.get(*t) + w1.get(*t));
        c.near(&format!("{t:?}"), msr.data[t], w, if *t == MT::Range { 2e-6 } else { 2e-7 });
    }
    let mut rng = Pcg64Mcg::new(c.rng_u128() | 1);
    c.check("unconfigured noise", d.measure(at, &tr, Some(&mut rng), &almanac()).is_err(), || "no error".into());
    c.check("unconfigured covariance", TrackingDevice::<GroundAsset>::measurement_covar(&d, ty[0], at).is_err(), || "a covariance".into());
    c.check("unconfigured bias", TrackingDevice::<GroundAsset>::measurement_bias(&d, ty[0], at).is_err(), || "a bias".into());
    with_noises(&mut d);
    for t in &ty {
        let q = ok!(c, "covariance", TrackingDevice::<GroundAsset>::measurement_covar(&d, *t, at));
        c.near("covariance", q, sig(*t).powi(2), 1e-18);
        let q = ok!(c, "bias", TrackingDevice::<GroundAsset>::measurement_bias(&d, *t, at));
        c.near("bias", q, 0.0, 0.0);
    }
    let noisy = ok!(c, "noisy", d.measure(at, &tr, Some(&mut rng), &almanac()));
    match noisy {
        None => c.fail("noisy", "no measurement"),
        Some(n) => {
            for t in &ty {
                let k = (n.data[t] - msr.data[t]) / sig(*t) * if dt.is_some() { 2.0f64.sqrt() } else { 1.0 };
                c.check("noise", k.abs() < 7.0 && k != 0.0, || format!("{k} sigmas"));
            }
        }
    }
    if c.b(0.2) {
        let n = 100;
        let mut acc = vec![0.0; ty.len()];
        for _ in 0..n {
            let Some(q) = ok!(c, "noisy", d.measure(at, &tr, Some(&mut rng), &almanac())) else { return c.fail("noisy", "no measurement") };
            for (a, t) in acc.iter_mut().zip(&ty) {
                *a += ((q.data[t] - msr.data[t]) / sig(*t)).powi(2) / n as f64;
            }
        }
        let w = if dt.is_some() { 0.5 } else { 1.0 };
        for a in acc {
            // Chi-square of a hundred draws: within [0.4, 2] of its mean but for one in 10^9.
            c.check("variance of the noise", a > 0.4 * w && a < 1.9 * w, || format!("{a} instead of {w}"));
        }
        c.obs("noise statistics", 1);
    }
    d.measurement_types = [MT::Azimuth].into_iter().collect();
    d.stochastic_noises = None;
    c.check("unsupported type", d.measure(at, &tr, None, &almanac()).is_err(), || "measured an azimuth".into());
}
fn sensitivity(c: &mut Case) {
    let e = epoch(c);
    let (f, inertial) = bodies(c);
    let moving = c.b(0.6);
    let a = asset(c, f, e, moving);
    let o = above(c, &a, inertial);
    let ty: Vec<MT> = c.pick(&[&[MT::Range, MT::Doppler][..], &[MT::Doppler, MT::Range], &[MT::Range], &[MT::Doppler]]).to_vec();
    let d = transmitter(c, o, 20.0, 20.0, &ty, None);
    let tx = fixed(&d, f, e);
    let x = vec6(&a);
    let r0 = reference(&f, &x, &tx);
    let off = c.pick(&[0.0, 1.0, 100.0]);
    let mut msr = Measurement::new("GroundAsset".into(), e);
    for t in &ty {
        if c.b(0.8) {
            msr.push(*t, r0.get(*t) + off * sig(*t) * c.gauss());
        }
    }
    let order: IndexSet<MT> = ty.iter().copied().collect();
    let h: SMatrix<f64, 3, 6> = ok!(c, "h_tilde", d.h_tilde::<Const<3>>(&msr, &order, &a, &almanac()));
    let steps = [1e-3, 1e-3, 0.1, 1e-4, 1e-4, 1e-2];
    for i in 0..3 {
        let t = ty.get(i).filter(|t| msr.data.contains_key(*t));
        let Some(t) = t else {
            for k in 0..6 {
                c.near("no observation", h[(i, k)], 0.0, 0.0);
            }
            continue;
        };
        // Distance for each component
        let lc = x[0].to_radians().cos();
        let scale = [111.0, 111.0 * lc, 1.0, 111.0, 111.0 * lc, 1.0];
        for k in 0..6 {
            let dif = |s: f64| {
                let (mut p, mut m) = (x, x);
                p[k] += s;
                m[k] -= s;
                (reference(&f, &p, &tx).get(*t) - reference(&f, &m, &tx).get(*t)) / (2.0 * s)
            };
            let w = (dif(steps[k]) * 4.0 - dif(2.0 * steps[k])) / 3.0;
            let vel = tx.velocity_km_s.norm() + 1.0;
            let n = match (t, k < 3) {
                (MT::Range, true) => scale[k],
                (MT::Range, false) => 1e-6,
                (_, true) => scale[k] * vel / r0.range,
                (_, false) => scale[k],
            };
            c.near(&format!("{t:?}"), h[(i, k)], w, 2e-5 * n);
        }
    }
    let bad = c.pick(&[MT::X, MT::Azimuth, MT::Elevation, MT::ReceiveFrequency]);
    let mut mb = msr.clone();
    mb.push(bad, 1.0);
    c.check("unsupported type", d.h_tilde::<Const<1>>(&mb, &[bad].into_iter().collect(), &a, &almanac()).is_err(), || format!("{bad:?}"));
    c.obs("matrices", 1);
    c.nontrivial();
}
fn estimation(c: &mut Case) {
    let e = epoch(c);
    let (f, inertial) = bodies(c);
    let moving = c.b(0.5);
    let a = asset(c, f, e, moving);
    let o = above(c, &a, inertial);
    let ty: Vec<MT> = c.pick(&[&[MT::Range, MT::Doppler][..], &[MT::Doppler, MT::Range], &[MT::Range], &[MT::Doppler]]).to_vec();
    let mut d = transmitter(c, o, 50.0, 700.0, &ty, None);
    with_noises(&mut d);
    let x = vec6(&a);
    let step = c.f(5.0, 20.0).floor();
    let n = c.u(4, 30);
    let mut arc = TrackingDataArc::default();
    let mut k = 0.0;
    for _ in 0..n {
        k += step * if c.b(0.1) { 5.0 } else { 1.0 };
        if k > 600.0 {
            break;
        }
        let at = e + k * Unit::Second;
        let w = reference(&f, &moved(&x, k), &fixed(&d, f, at));
        if w.el < 1.0 {
            break;
        }
        let mut m = Measurement::new("GroundAsset".into(), at);
        for t in &ty {
            if ty.len() == 1 || c.b(0.9) {
                m.push(*t, w.get(*t) + sig(*t) * c.gauss());
            }
        }
        if !m.data.is_empty() {
            arc.measurements.push(m);
        }
    }
    arc.sort();
    if arc.measurements.len() < 3 {
        c.skip("too short a pass");
        return;
    }
    let km = 1.0 / 111.0;
    let (sp, sv) = (c.logu(1e-3, 0.1), if moving { c.logu(1e-6, 1e-4) } else { 0.0 });
    let lc = a.latitude_deg.to_radians().cos();
    let sd = X6::new(sp * km, sp * km / lc, 0.2 * sp, sv * km, sv * km / lc, 0.2 * sv);
    let mut guess = a;
    let mut y = x;
    for i in 0..6 {
        y[i] += sd[i] * c.gauss();
    }
    guess.latitude_deg = y[0];
    guess.longitude_deg = y[1];
    guess.height_km = y[2];
    guess.latitude_rate_deg_s = y[3];
    guess.longitude_rate_deg_s = y[4];
    guess.height_rate_km_s = y[5];
    let est = KfEstimate::from_diag(guess, sd.component_mul(&sd));
    let ekf = c.b(0.5);
    c.p("variant", ekf);
    let mut p = KalmanODProcess::<GroundDynamics, Const<2>, Const<3>, InterlinkTxSpacecraft>::new(
        Propagator::default(GroundDynamics {}),
        if ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking },
        None,
        BTreeMap::from([("GroundAsset".to_string(), d.clone())]),
        almanac(),
    );
    p.max_step = c.pick(&[20.0, 60.0]) * Unit::Second;
    let sol = ok!(c, "process_arc", p.process_arc(est, &arc));
    let ups = sol.residuals.iter().flatten().count();
    c.check("updates", ups == arc.measurements.len(), || format!("{ups} instead of {}", arc.measurements.len()));
    // Reference filter
    let mut cov = est.covar;
    let mut dev = X6::zeros();
    let mut nom = y;
    let mut now = e;
    let s = sd.map(|s| if s > 0.0 { s } else { 1.0 });
    for (i, g) in sol.estimates.iter().enumerate() {
        let dt = (g.epoch() - now).to_seconds();
        now = g.epoch();
        nom = moved(&nom, dt);
        let mut phi = SMatrix::<f64, 6, 6>::identity();
        for k in 0..3 {
            phi[(k, k + 3)] = dt;
        }
        cov = phi * cov * phi.transpose();
        dev = phi * dev;
        let gx = vec6(&g.nominal_state);
        for k in 0..6 {
            c.near("nominal", gx[k] / SCALE[k], nom[k] / SCALE[k], 1e-8);
        }
        if let Some(r) = &sol.residuals[i] {
            let m = arc.measurements.iter().find(|m| m.epoch == g.epoch());
            let Some(m) = m else {
                c.fail("measurement", "at another epoch");
                return;
            };
            let tx = fixed(&d, f, g.epoch());
            let steps = [1e-3, 1e-3, 0.1, 1e-4, 1e-4, 1e-2];
            // One observation after the other: their noises are independent.
            let start = cov;
            for t in ty.iter().filter(|t| m.data.contains_key(*t)) {
                let comp = reference(&f, &nom, &tx).get(*t);
                let mut h = SMatrix::<f64, 1, 6>::zeros();
                for k in 0..6 {
                    let dif = |s: f64| {
                        let (mut p, mut q) = (nom, nom);
                        p[k] += s;
                        q[k] -= s;
                        (reference(&f, &p, &tx).get(*t) - reference(&f, &q, &tx).get(*t)) / (2.0 * s)
                    };
                    h[k] = (dif(steps[k]) * 4.0 - dif(2.0 * steps[k])) / 3.0;
                }
                let sk = (h * cov * h.transpose())[0] + sig(*t).powi(2);
                let kk = cov * h.transpose() / sk;
                let inn = m.data[t] - comp - (h * dev)[0];
                dev += kk * inn;
                cov -= kk * h * cov;
                cov = (cov + cov.transpose()) * 0.5;
                c.near("computed observation", r.computed_obs(*t).unwrap_or(f64::NAN), comp, if *t == MT::Range { 2e-6 } else { 2e-7 });
            }
            let _ = start;
            c.obs("updates", 1);
        }
        for k in 0..6 {
            let w = cov[(k, k)].max(0.0).sqrt() / s[k];
            c.near("sigma", g.covar[(k, k)].max(0.0).sqrt() / s[k], w, 2e-2 * w + 1e-5);
            c.near("deviation", g.state_deviation[k] / s[k], dev[k] / s[k], 0.05 * w + 1e-3 + 1e-3 * (dev[k] / s[k]).abs());
        }
        if ekf && sol.residuals[i].is_some() {
            nom = vec6(&g.nominal_state) + g.state_deviation;
            dev = X6::zeros();
        } else {
            nom = vec6(&g.nominal_state);
            dev = g.state_deviation;
        }
        cov = g.covar;
        if c.failed() {
            return;
        }
    }
    // Against the truth
    let last = sol.estimates.last().unwrap();
    let w = moved(&x, (last.epoch() - e).to_seconds());
    let g = vec6(&last.nominal_state) + last.state_deviation;
    let m = if moving { 6 } else { 3 };
    let err = nalgebra::DVector::from_fn(m, |i, _| (g[i] - w[i]) / s[i]);
    let pm = nalgebra::DMatrix::from_fn(m, m, |i, j| last.covar[(i, j)] / (s[i] * s[j]));
    if ekf || sp < 0.03 {
        if let Some(ch) = pm.cholesky() {
            let q = err.dot(&ch.solve(&err));
            c.check("estimation error", q < 90.0, || format!("NEES of {q} for {m} components"));
            c.obs("errors against the truth", 1);
        }
    }
    if c.b(0.3) {
        export(c, &sol);
    }
    c.nontrivial();
}
type Sol = nyx_space::od::process::ODSolution<GroundAsset, KfEstimate<GroundAsset>, Const<2>, InterlinkTxSpacecraft>;
fn export(c: &mut Case, sol: &Sol) {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let dir = std::env::temp_dir().join(format!("nyxpnt-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).unwrap();
    let mut cfg = ExportCfg::default();
    let n = sol.estimates.len();
    let mut want: Vec<usize> = (0..n).collect();
    if c.b(0.5) {
        let (i, j) = (c.u(0, n - 1), c.u(0, n - 1));
        let (i, j) = (i.min(j), i.max(j));
        let (a, b) = (sol.estimates[i].epoch(), sol.estimates[j].epoch());
        if c.b(0.7) {
            cfg.start_epoch = Some(a);
            want.retain(|k| sol.estimates[*k].epoch() >= a);
        }
        if c.b(0.7) {
            cfg.end_epoch = Some(b);
            want.retain(|k| sol.estimates[*k].epoch() <= b);
        }
    }
    let out = c.ok("to_parquet", sol.to_parquet(dir.join("pnt.pq"), cfg));
    if let Some(out) = out {
        let r = ParquetRecordBatchReaderBuilder::try_new(std::fs::File::open(&out).unwrap()).unwrap().build().unwrap();
        let bs: Vec<_> = r.map(|x| x.unwrap()).collect();
        let rows: usize = bs.iter().map(|b| b.num_rows()).sum();
        c.check("rows", rows == want.len(), || format!("{rows} instead of {}", want.len()));
        let names: Vec<String> = bs[0].schema().fields().iter().map(|f| f.name().clone()).collect();
        let col = |pre: &str, has: &str| -> Option<Vec<Option<f64>>> {
            let i = names.iter().position(|n| n.starts_with(pre) && n.contains(has))?;
            let mut v = vec![];
            for b in &bs {
                let a = b.column(i).as_any().downcast_ref::<Float64Array>()?;
                v.extend((0..a.len()).map(|k| (!a.is_null(k)).then(|| a.value(k))));
            }
            Some(v)
        };
        let mut chk = |label: &str, got: Option<Vec<Option<f64>>>, f: &dyn Fn(usize) -> Option<f64>| {
            let w: Vec<Option<f64>> = want.iter().map(|k| f(*k)).collect();
            let ok = got.as_ref().is_some_and(|g| g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| match (a, b) {
                (None, None) => true,
                (Some(a), Some(b)) => a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-12 * b.abs(),
                _ => false,
            }));
            c.check(label, ok, || format!("{got:?} instead of {w:?}"));
        };
        for (k, name) in ["Latitude", "Longitude", "Altitude"].iter().enumerate() {
            let first = if k == 2 { "Height" } else { name };
            let c0 = names.iter().find(|n| n.to_lowercase().starts_with(&first.to_lowercase())).cloned().unwrap_or_default();
            chk("state column", col(&c0, ""), &|i| Some((vec6(&sol.estimates[i].nominal_state) + sol.estimates[i].state_deviation)[k]));
            for (l, other) in ["Latitude", "Longitude", "Altitude"].iter().enumerate().skip(k) {
                chk("covariance column", col(&format!("Covariance {name}*{other}"), ""), &|i| Some(sol.estimates[i].covar[(k, l)]));
            }
            for (j, t) in sol.measurement_types.iter().enumerate() {
                chk("gain column", col(&format!("Gain {name}*{t:?}"), ""), &|i| sol.gains[i].as_ref().map(|g| g[(k, j)]));
            }
        }
        for t in &sol.measurement_types {
            chk("prefit column", col(&format!("Prefit residual: {t:?}"), ""), &|i| sol.residuals[i].as_ref().and_then(|r| r.prefit(*t)));
            chk("postfit column", col(&format!("Postfit residual: {t:?}"), ""), &|i| sol.residuals[i].as_ref().and_then(|r| r.postfit(*t)));
            chk("observation column", col(&format!("Real observation: {t:?}"), ""), &|i| sol.residuals[i].as_ref().and_then(|r| r.real_obs(*t)));
            chk("computed column", col(&format!("Computed observation: {t:?}"), ""), &|i| sol.residuals[i].as_ref().and_then(|r| r.computed_obs(*t)));
        }
        chk("ratio column", col("Residual ratio", ""), &|i| sol.residuals[i].as_ref().map(|r| r.ratio));
        c.obs("files", 1);
    }
    let _ = std::fs::remove_dir_all(&dir);
}
fn main() {
    let mut m = Mon::new("C36", "a case is nontrivial when a motion, a measurement, a sensitivity or the updates of a run were compared with the reference");
    m.assume("one transmitter, no light time");
    m.group("motion", 400, 20000, motion);
    m.group("velocities", 600, 40000, velocities);
    m.group("measurements", 800, 40000, measures);
    m.group("sensitivities", 800, 40000, sensitivity);
    m.group("estimation", 250, 10000, estimation);
    m.finish();
}
