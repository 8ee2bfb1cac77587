//! C26 Kalman updates, C27 OD process, C28 smoothing, C29 batch least squares, C30 process noise and predictions, C33 OD solutions.
use anise::astro::Location;
use anise::prelude::*;
use hifitime::{Duration, Epoch, Unit};
use indexmap::IndexMap;
use nalgebra::{Const, DMatrix, DVector, Matrix3, OMatrix, OVector, SMatrix, SVector};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::od::estimate::{Estimate, KfEstimate, Residual};
use nyx_space::od::kalman::{KalmanFilter, KalmanVariant};
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, WhiteNoise};
use nyx_space::od::position::PositionDevice;
use nyx_space::od::process::{KalmanODProcess, ODSolution, SigmaRejection};
use nyx_space::od::snc::ProcessNoise3D;
use nyx_space::od::GroundStation;
#[allow(unused_imports)]
use nyx_space::propagators::{IntegratorOptions, Propagator};
use nyxmon::alm::*;
use nyxmon::gens::*;
use nyxmon::math::*;
use nyxmon::mon::*;
use nyxmon::ok;
use std::collections::BTreeMap;
use KalmanVariant::{DeviationTracking, ReferenceUpdate};
use MeasurementType as MT;

type Est = KfEstimate<Spacecraft>;
type M9 = SMatrix<f64, 9, 9>;
type V9 = SVector<f64, 9>;
type DM = DMatrix<f64>;
type DV = DVector<f64>;

fn shuffle<T: Copy>(c: &mut Case, v: &[T]) -> Vec<T> {
    let mut w = v.to_vec();
    for i in (1..w.len()).rev() {
        let j = c.u(0, i);
        w.swap(i, j);
    }
    w
}
fn subset<T: Copy>(c: &mut Case, v: &[T], min: usize) -> Vec<T> {
    let n = c.u(min, v.len());
    shuffle(c, v)[..n].to_vec()
}
fn gauss_vec(c: &mut Case, n: usize) -> DV {
    DV::from_fn(n, |_, _| c.gauss())
}
fn gauss_mat(c: &mut Case, r: usize, k: usize) -> DM {
    DM::from_fn(r, k, |_, _| c.gauss())
}
fn dm(m: &M9) -> DM {
    DM::from_column_slice(9, 9, m.as_slice())
}
fn m9(m: &DM) -> M9 {
    M9::from_column_slice(m.as_slice())
}
fn dvec(v: &V9) -> DV {
    DV::from_column_slice(v.as_slice())
}
/// Typical sizes of the components of a state, which make the comparisons of covariances dimensionless.
fn scales() -> [f64; 9] {
    [1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-3, 1.0, 1.0, 1.0]
}
fn scaled(p: &DM) -> DM {
    let s = scales();
    DM::from_fn(p.nrows(), p.ncols(), |i, j| p[(i, j)] / (s[i] * s[j]))
}
/// Covariances agree, relative to the largest entry, and to a looser tolerance on each entry of small ones.
fn covnear(c: &mut Case, label: &str, got: &DM, want: &DM, floor: f64) {
    let (g, w) = (scaled(got), scaled(want));
    let tol = floor + 1e-6 * w.amax();
    let d = (&g - &w).amax();
    c.check(label, d <= tol && g.iter().all(|x| x.is_finite()), || format!("differ by {d:.3e} (tolerance {tol:.3e}, size {:.3e})\n{g:.3e}{w:.3e}", w.amax()));
}
fn psd(c: &mut Case, label: &str, p: &DM, size: f64) {
    let s = scaled(p);
    let asym = (&s - s.transpose()).amax();
    c.check(&format!("{label}: symmetric"), asym <= 1e-9 * s.amax().max(1e-300), || format!("{asym:e} of {:e}", s.amax()));
    let e = ((&s + s.transpose()) * 0.5).symmetric_eigenvalues().min();
    c.check(&format!("{label}: positive"), e >= -1e-7 * size.max(s.amax()), || format!("eigenvalue {e:e} of {:e}", s.amax()));
}

// ---------------------------------------------------------------------------------------------
// The reference filter.

#[derive(Clone, Debug)]
struct Want {
    bar: DM,
    dev: DV,
    p: DM,
    k: Option<DM>,
    prefit: DV,
    whitened: DV,
    postfit: Option<DV>,
    ratio: f64,
    trend: DV,
}
struct Upd<'a> {
    p0: &'a DM,
    dev0: &'a DV,
    phi: &'a DM,
    q: &'a DM,
    h: &'a DM,
    r: &'a DM,
    y: &'a DV,
    ekf: bool,
    thr: Option<f64>,
}
fn update(u: &Upd) -> Want {
    let bar = u.phi * u.p0 * u.phi.transpose() + u.q;
    let s = u.h * &bar * u.h.transpose() + u.r;
    let si = s.clone().try_inverse().unwrap();
    let m = s.nrows();
    let nis = (u.y.transpose() * &si * u.y)[(0, 0)];
    let ratio = (nis / m as f64).sqrt();
    let l = s.clone().cholesky().unwrap().l();
    let whitened = l.clone().lu().solve(u.y).unwrap();
    let xbar = if u.ekf { DV::zeros(9) } else { u.phi * u.dev0 };
    let trend = s.diagonal().map(f64::sqrt);
    if u.thr.is_some_and(|t| ratio > t) {
        return Want { p: bar.clone(), bar, dev: xbar, k: None, prefit: u.y.clone(), whitened, postfit: None, ratio, trend };
    }
    let k = &bar * u.h.transpose() * &si;
    let dev = &xbar + &k * (u.y - u.h * &xbar);
    let ikh = DM::identity(9, 9) - &k * u.h;
    let p = &ikh * &bar * ikh.transpose() + &k * u.r * k.transpose();
    let postfit = if u.ekf { u.y - u.h * &dev } else { u.y - u.h * &xbar };
    Want { bar, dev, p, k: Some(k), prefit: u.y.clone(), whitened, postfit: Some(postfit), ratio, trend }
}

#[derive(Clone, Debug)]
struct Res {
    epoch: Epoch,
    prefit: DV,
    postfit: DV,
    whitened: DV,
    ratio: f64,
    noise: DV,
    real: DV,
    comp: DV,
    rejected: bool,
    tracker: Option<String>,
    types: Vec<MT>,
}
#[derive(Clone, Debug)]
struct Rec {
    est: Est,
    res: Option<Res>,
    gain: Option<DM>,
    fsr: Option<DV>,
}
fn res_of<const M: usize>(r: &Residual<Const<M>>) -> Res {
    let v = |x: &OVector<f64, Const<M>>| DV::from_column_slice(x.as_slice());
    Res {
        epoch: r.epoch,
        prefit: v(&r.prefit),
        postfit: v(&r.postfit),
        whitened: v(&r.whitened_resid),
        ratio: r.ratio,
        noise: v(&r.tracker_msr_noise),
        real: v(&r.real_obs),
        comp: v(&r.computed_obs),
        rejected: r.rejected,
        tracker: r.tracker.clone(),
        types: r.msr_types.iter().copied().collect(),
    }
}
fn gain_of<const M: usize>(k: &OMatrix<f64, Const<9>, Const<M>>) -> DM {
    DM::from_column_slice(9, M, k.as_slice())
}
fn recs<const M: usize, T: TrackerSensitivity<Spacecraft, Spacecraft>>(s: &ODSolution<Spacecraft, Est, Const<M>, T>) -> Vec<Rec> {
    (0..s.estimates.len())
        .map(|i| Rec {
            est: s.estimates[i],
            res: s.residuals[i].as_ref().map(res_of::<M>),
            gain: s.gains[i].as_ref().map(gain_of::<M>),
            fsr: s.filter_smoother_ratios[i].as_ref().map(dvec),
        })
        .collect()
}
/// The estimate and residual of one measurement update are the expected ones.
fn judge(c: &mut Case, w: &Want, est: &Est, res: &Res, gain: &Option<DM>, ekf: bool) {
    let size = scaled(&w.bar).amax();
    let floor = 1e-9 * size;
    covnear(c, "predicted covariance", &dm(&est.covar_bar), &w.bar, 1e-12 * size);
    covnear(c, "covariance", &dm(&est.covar), &w.p, floor);
    psd(c, "covariance", &dm(&est.covar), size);
    c.vnear("prefit", res.prefit.as_slice(), w.prefit.as_slice(), 1e-9 * w.prefit.amax() + 1e-12);
    c.vnear("whitened", res.whitened.as_slice(), w.whitened.as_slice(), 1e-6 * w.whitened.amax() + 1e-9);
    c.near("ratio", res.ratio, w.ratio, 1e-6 * w.ratio + 1e-9);
    c.vnear("innovation trend", res.noise.as_slice(), w.trend.as_slice(), 1e-6 * w.trend.amax());
    c.check("rejection", res.rejected == w.k.is_none(), || format!("rejected: {} with a ratio of {}", res.rejected, w.ratio));
    c.check("gain", gain.is_some() == w.k.is_some(), || format!("gain: {}", gain.is_some()));
    c.check("predicted flag", est.predicted == w.k.is_none(), || format!("{}", est.predicted));
    let s = scales();
    let gd: Vec<f64> = (0..9).map(|i| est.state_deviation[i] / s[i]).collect();
    let wd: Vec<f64> = (0..9).map(|i| w.dev[i] / s[i]).collect();
    let dn = wd.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    c.vnear("state deviation", &gd, &wd, 1e-6 * dn + 1e-10);
    if let (Some(g), Some(k)) = (gain, &w.k) {
        let d = DM::from_fn(9, k.ncols(), |i, j| (g[(i, j)] - k[(i, j)]) * w.trend[j] / s[i]).amax();
        let n = DM::from_fn(9, k.ncols(), |i, j| k[(i, j)] * w.trend[j] / s[i]).amax();
        c.check("gain value", d <= 1e-6 * n + 1e-12, || format!("differs by {d:e} of {n:e}"));
    }
    match &w.postfit {
        Some(p) => {
            let t = 1e-6 * w.prefit.amax() + 1e-9;
            if ekf {
                c.vnear("postfit", res.postfit.as_slice(), p.as_slice(), t);
            }
        }
        None => {
            c.check("no postfit", res.postfit.iter().all(|x| x.is_nan()), || format!("{}", res.postfit));
        }
    }
}

fn cov(c: &mut Case, rank_full: bool) -> DM {
    let s = scales();
    let mut a = gauss_mat(c, 9, 9);
    for i in 0..9 {
        a[(i, i)] += 1.0;
    }
    let k = c.logu(1e-3, 1e2);
    let mut p = &a * a.transpose() * k;
    if !rank_full {
        for i in 6..9 {
            for j in 0..9 {
                p[(i, j)] = 0.0;
                p[(j, i)] = 0.0;
            }
        }
    }
    for i in 0..9 {
        for j in 0..9 {
            p[(i, j)] *= s[i] * s[j];
        }
    }
    (&p + p.transpose()) * 0.5
}
fn random_stm(c: &mut Case) -> DM {
    let s = scales();
    let k = c.logu(1e-2, 1.0);
    let g = gauss_mat(c, 9, 9) * k;
    DM::from_fn(9, 9, |i, j| (if i == j { 1.0 } else { 0.0 }) + g[(i, j)] * s[i] / s[j])
}
fn state_at(c: &mut Case, s: &Spacecraft, dt: f64) -> Spacecraft {
    let mu = s.orbit.frame.mu_km3_s2().unwrap();
    let (r, v) = kepler(mu, s.orbit.radius_km, s.orbit.velocity_km_s, dt);
    let mut x = *s;
    x.orbit = Orbit { radius_km: r, velocity_km_s: v, epoch: s.orbit.epoch + dt * Unit::Second, frame: s.orbit.frame };
    let _ = c;
    x
}

/// A process noise with its reference.
#[derive(Clone, Debug)]
struct Pn {
    q: [f64; 3],
    start: Option<Epoch>,
    disable: Duration,
    decay: Option<[f64; 3]>,
    frame: Option<LocalFrame>,
}
impl Pn {
    fn random(c: &mut Case, e: Epoch, span: f64) -> Self {
        let q = [c.logu(1e-14, 1e-9), c.logu(1e-14, 1e-9), c.logu(1e-14, 1e-9)];
        let start = c.b(0.4).then(|| match c.b(0.5) {
            true => e + c.f(-0.2, 1.1) * span * Unit::Second,
            // On the epoch of an estimate, maybe
            false => e + (c.f(-0.2, 1.1) * span / 10.0).round() * 10.0 * Unit::Second,
        });
        let disable = c.pick(&[20.0, 60.0, 120.0, 3600.0]) * Unit::Second;
        let decay = c.b(0.3).then(|| [c.logu(1e-6, 1e-2), c.logu(1e-6, 1e-2), c.logu(1e-6, 1e-2)]);
        let frame = match c.u(0, 5) {
            0 => Some(LocalFrame::RIC),
            1 => Some(LocalFrame::VNC),
            2 => Some(LocalFrame::RCN),
            3 => Some(LocalFrame::Inertial),
            _ => None,
        };
        Pn { q, start, disable, decay, frame }
    }
    fn build(&self) -> ProcessNoise3D {
        let mut p = match (&self.decay, self.start) {
            (Some(d), _) => ProcessNoise3D::with_decay(&self.q, self.disable, d, self.frame),
            (None, Some(s)) => {
                let mut p = ProcessNoise3D::with_start_time(self.disable, &self.q, s);
                p.local_frame = self.frame;
                p
            }
            _ => ProcessNoise3D::from_diagonal(&self.q, self.disable, self.frame),
        };
        p.start_time = self.start;
        p
    }
    /// The contribution to the covariance over `dt` until the epoch of this orbit.
    fn q9(&self, init: Epoch, prev: Epoch, o: &Orbit) -> Option<DM> {
        let e = o.epoch;
        if self.start.is_some_and(|s| s > e) || e - prev > self.disable {
            return None;
        }
        let mut q = self.q;
        if let Some(d) = self.decay {
            let t = (e - init).to_seconds();
            for i in 0..3 {
                q[i] *= (-d[i] * t).exp();
            }
        }
        let mut qm = Matrix3::from_diagonal(&V3::new(q[0], q[1], q[2]));
        let rot = match self.frame {
            Some(LocalFrame::RIC) => Some(ric(&o.radius_km, &o.velocity_km_s)),
            Some(LocalFrame::VNC) => Some(vnc(&o.radius_km, &o.velocity_km_s)),
            Some(LocalFrame::RCN) => Some(rcn(&o.radius_km, &o.velocity_km_s)),
            _ => None,
        };
        if let Some(r) = rot {
            // The variances along the axes of the integration frame.
            let m = r.transpose() * qm * r;
            qm = Matrix3::from_diagonal(&m.diagonal());
        }
        let dt = (e - prev).to_seconds();
        let mut g = DM::zeros(9, 3);
        for i in 0..3 {
            g[(i, i)] = dt * dt / 2.0;
            g[(i + 3, i)] = dt;
        }
        Some(&g * DM::from_column_slice(3, 3, qm.as_slice()) * g.transpose())
    }
}
/// The last of the noises which applies.
fn q_of(pns: &[Pn], init: Epoch, prev: Epoch, o: &Orbit) -> DM {
    pns.iter().rev().find_map(|p| p.q9(init, prev, o)).unwrap_or_else(|| DM::zeros(9, 9))
}

fn kf_case<const M: usize>(c: &mut Case) {
    let ekf = c.b(0.5);
    let o = leo(c);
    let s0 = sc(c, o);
    let full = c.b(0.5);
    let p0 = cov(c, full);
    let mut est = Est::from_covar(s0, m9(&p0));
    if c.b(0.3) && !ekf {
        let s = scales();
        let g = gauss_vec(c, 9);
        est.state_deviation = V9::from_fn(|i, _| g[i] * s[i] * 0.1);
    }
    let init = o.epoch;
    let npn = if c.b(0.5) { 0 } else { c.u(1, 3) };
    let mut pns: Vec<Pn> = (0..npn).map(|_| Pn::random(c, init, 600.0)).collect();
    pns.sort_by_key(|p| p.start.unwrap_or(init - 1 * Unit::Day));
    c.p("process noises", &pns);
    c.p("variant", if ekf { "reference update" } else { "deviation tracking" });
    let mut kf = KalmanFilter::<Spacecraft, Const<3>>::new(est, if ekf { ReferenceUpdate } else { DeviationTracking });
    for p in &pns {
        kf = kf.and_with_process_noise(p.build());
    }
    let (mut p, mut dev, mut prev) = (p0, dvec(&est.state_deviation), init);
    let steps = c.u(1, 12);
    let mut t = 0.0;
    for step in 0..steps {
        if !c.b(0.2) {
            t += c.f(0.0, 90.0).floor();
        }
        let mut x = state_at(c, &s0, t);
        let phi = if c.b(0.15) { DM::identity(9, 9) } else { random_stm(c) };
        x.stm = Some(m9(&phi));
        let q = q_of(&pns, init, prev, &x.orbit);
        let kind = c.u(0, 3);
        c.p("step", (step, kind, t));
        if kind == 0 {
            let e = ok!(c, "time update", kf.time_update(x));
            let bar = &phi * &p * phi.transpose() + &q;
            let xbar = if ekf { DV::zeros(9) } else { &phi * &dev };
            let size = scaled(&bar).amax();
            covnear(c, "time update: covariance", &dm(&e.covar), &bar, 1e-12 * size);
            covnear(c, "time update: predicted covariance", &dm(&e.covar_bar), &bar, 1e-12 * size);
            let s = scales();
            let gd: Vec<f64> = (0..9).map(|i| e.state_deviation[i] / s[i]).collect();
            let wd: Vec<f64> = (0..9).map(|i| xbar[i] / s[i]).collect();
            c.vnear("time update: deviation", &gd, &wd, 1e-9 + 1e-9 * wd.iter().fold(0.0f64, |a, b| a.max(b.abs())));
            c.check("time update: flags", e.predicted && e.epoch() == x.epoch() && e.stm == m9(&phi) && e.nominal_state == x, || format!("{e}"));
            c.check("time update: kept", kf.previous_estimate() == &e, || "previous estimate".into());
            p = dm(&e.covar);
            dev = dvec(&e.state_deviation);
            c.obs("time updates", 1);
        } else {
            let sc9 = scales();
            let mut h = gauss_mat(c, M, 9);
            for i in 0..M {
                for j in 0..9 {
                    h[(i, j)] /= sc9[j];
                }
                if c.b(0.5) {
                    for j in 6..9 {
                        h[(i, j)] = 0.0;
                    }
                }
            }
            let a = gauss_mat(c, M, M);
            let rs = c.logu(1e-4, 1e2);
            let mut r = if c.b(0.5) { &a * a.transpose() + DM::identity(M, M) } else { DM::from_diagonal(&DV::from_fn(M, |_, _| c.f(0.5, 2.0))) } * rs;
            if c.b(0.1) {
                // A row without any observation.
                let i = c.u(0, M - 1);
                for j in 0..9 {
                    h[(i, j)] = 0.0;
                }
                r = DM::from_diagonal(&r.diagonal());
            }
            let comp = gauss_vec(c, M) * 1e3;
            let bar = &phi * &p * phi.transpose() + &q;
            let sk = &h * &bar * h.transpose() + &r;
            let far = if c.b(0.2) { c.f(1.0, 8.0) } else { 1.0 };
            let ev = sk.clone().symmetric_eigenvalues();
            if ev.min() < 1e-4 * ev.max() {
                c.skip("innovations near singular");
                return;
            }
            let l = sk.clone().cholesky().unwrap().l();
            let real = &comp + &l * gauss_vec(c, M) * far;
            let y = &real - &comp;
            let thr = c.b(0.6).then(|| c.f(0.2, 4.0));
            let w = update(&Upd { p0: &p, dev0: &dev, phi: &phi, q: &q, h: &h, r: &r, y: &y, ekf, thr });
            if thr.is_some_and(|t| (w.ratio - t).abs() < 1e-5) {
                c.skip("ratio at the threshold");
                return;
            }
            let sv = |v: &DV| OVector::<f64, Const<M>>::from_column_slice(v.as_slice());
            let hh = OMatrix::<f64, Const<M>, Const<9>>::from_column_slice(h.as_slice());
            let rr = OMatrix::<f64, Const<M>, Const<M>>::from_column_slice(r.as_slice());
            let (e, res, gain) = ok!(c, "measurement update", kf.measurement_update(x, sv(&real), sv(&comp), rr, hh, thr.map(|num_sigmas| SigmaRejection { num_sigmas })));
            let gain = gain.as_ref().map(gain_of::<M>);
            let rs = res_of(&res);
            judge(c, &w, &e, &rs, &gain, ekf);
            c.check("epochs", rs.epoch == x.epoch() && e.epoch() == x.epoch(), || format!("{}", rs.epoch));
            c.check("observations", rs.real == real && rs.comp == comp, || format!("{} {}", rs.real, rs.comp));
            c.check("state transition", e.stm == m9(&phi) && e.nominal_state == x, || "stm".into());
            c.check("kept", kf.previous_estimate() == &e, || "previous estimate".into());
            c.near("NIS", res.nis(), w.ratio * w.ratio * M as f64, 1e-6 * (1.0 + res.nis()));
            if !w.bar.iter().all(|v| v.is_finite()) {
                return;
            }
            // Measurements never add uncertainty.
            if !rs.rejected {
                let d = scaled(&(dm(&e.covar_bar) - dm(&e.covar)));
                let ev = ((&d + d.transpose()) * 0.5).symmetric_eigenvalues().min();
                c.check("less uncertainty", ev >= -1e-9 * scaled(&w.bar).amax(), || format!("{ev:e}"));
            }
            c.obs(if rs.rejected { "rejected" } else { "accepted" }, 1);
            p = dm(&e.covar);
            dev = dvec(&e.state_deviation);
        }
        prev = x.epoch();
        if q.amax() > 0.0 {
            c.obs("process noise added", 1);
        }
        c.nontrivial();
        if c.failed() {
            return;
        }
    }
}

fn c26() {
    let m = Mon::new("C26", "a case is nontrivial when at least one update was compared with the reference filter");
    m.group("scalar", 900, 40000, kf_case::<1>);
    m.group("two observations", 900, 40000, kf_case::<2>);
    m.group("three observations", 700, 40000, kf_case::<3>);
    m.group("five observations", 400, 20000, kf_case::<5>);
    m.group("states without transition", 50, 1000, |c| {
        let o = leo(c);
        let s = sc(c, o);
        let p = m9(&cov(c, true));
        let mut kf = KalmanFilter::<Spacecraft, Const<3>>::new(Est::from_covar(s, p), ReferenceUpdate);
        let mut x = s;
        x.stm = None;
        let before = *kf.previous_estimate();
        c.check("refused", kf.time_update(x).is_err(), || "accepted a state without STM".into());
        let r = kf.measurement_update(x, SVector::<f64, 1>::zeros(), SVector::<f64, 1>::zeros(), SMatrix::<f64, 1, 1>::identity(), SMatrix::<f64, 1, 9>::zeros(), None);
        c.check("refused", r.is_err(), || "accepted a state without STM".into());
        c.check("unchanged", kf.previous_estimate() == &before, || "changed".into());
        c.nontrivial();
    });
    m.finish();
}


// ---------------------------------------------------------------------------------------------
// C27: the process over whole arcs.

fn station_geo(loc: &Location) -> (V3, Matrix3<f64>) {
    let f = almanac().frame_info(loc.frame).unwrap();
    let sh = f.shape.unwrap();
    let (a, b) = (sh.semi_major_equatorial_radius_km, sh.polar_radius_km);
    let e2 = 1.0 - (b * b) / (a * a);
    let (sp, cp) = loc.latitude_deg.to_radians().sin_cos();
    let (sl, cl) = loc.longitude_deg.to_radians().sin_cos();
    let n = a / (1.0 - e2 * sp * sp).sqrt();
    let r = V3::new((n + loc.height_km) * cp * cl, (n + loc.height_km) * cp * sl, (n * (1.0 - e2) + loc.height_km) * sp);
    let s = V3::new(sp * cl, sp * sl, -cp);
    let e = V3::new(-sl, cl, 0.0);
    let z = V3::new(cp * cl, cp * sl, sp);
    (r, Matrix3::from_rows(&[s.transpose(), e.transpose(), z.transpose()]))
}
fn geometry(loc: &Location, rx: &Orbit, t: MT) -> f64 {
    let f = almanac().frame_info(loc.frame).unwrap();
    let o = almanac().transform_to(*rx, f, None).unwrap();
    let (r, sez) = station_geo(loc);
    let d = sez * (o.radius_km - r);
    let dv = sez * o.velocity_km_s;
    match t {
        MT::Range => d.norm(),
        MT::Doppler => d.dot(&dv) / d.norm(),
        MT::Azimuth => d.y.atan2(-d.x).to_degrees().rem_euclid(360.0),
        MT::Elevation => (d.z / d.norm()).asin().to_degrees(),
        _ => unreachable!(),
    }
}
/// One device, as both sides know it.
#[derive(Clone, Debug)]
enum Dev {
    G(GroundStation),
    P(PositionDevice),
}
#[derive(Clone, Debug)]
struct Trk {
    dev: Dev,
    types: Vec<MT>,
    sigma: IndexMap<MT, f64>,
    bias: IndexMap<MT, f64>,
}
impl Trk {
    fn name(&self) -> String {
        match &self.dev {
            Dev::G(g) => g.name.clone(),
            Dev::P(p) => p.name.clone(),
        }
    }
    fn value(&self, o: &Orbit, t: MT) -> f64 {
        match (&self.dev, t) {
            (Dev::P(_), MT::X) => o.radius_km.x,
            (Dev::P(_), MT::Y) => o.radius_km.y,
            (Dev::P(_), MT::Z) => o.radius_km.z,
            (Dev::G(g), t) => geometry(&g.location, o, t),
            _ => unreachable!(),
        }
    }
    fn row(&self, o: &Orbit, t: MT) -> DV {
        let mut h = DV::zeros(9);
        for i in 0..6 {
            let d = if i < 3 { 0.05 } else { 1e-4 };
            let mut p = *o;
            let mut q = *o;
            if i < 3 {
                p.radius_km[i] += d;
                q.radius_km[i] -= d;
            } else {
                p.velocity_km_s[i - 3] += d;
                q.velocity_km_s[i - 3] -= d;
            }
            let mut x = self.value(&p, t) - self.value(&q, t);
            if t == MT::Azimuth {
                x = (x + 540.0).rem_euclid(360.0) - 180.0;
            }
            h[i] = x / (2.0 * d);
        }
        h
    }
    fn tol(&self, o: &Orbit, t: MT) -> f64 {
        match t {
            MT::Range => 2e-6,
            MT::Doppler => 4e-6,
            MT::Azimuth => 1e-6 + 1e-6 / self.value(o, MT::Elevation).to_radians().cos().max(1e-6),
            MT::Elevation => 2e-6,
            _ => 1e-9,
        }
    }
}
fn noise_of(sigma: f64, bias: Option<f64>) -> StochasticNoise {
    StochasticNoise {
        white_noise: Some(WhiteNoise { mean: 0.0, sigma }),
        bias: bias.map(|b| GaussMarkov { constant: Some(b), ..GaussMarkov::ZERO }),
    }
}
fn sigma_of(c: &mut Case, t: MT) -> f64 {
    match t {
        MT::Range => c.logu(5e-3, 5e-2),
        MT::Doppler => c.logu(3e-6, 5e-5),
        MT::Azimuth | MT::Elevation => c.logu(1e-3, 1e-1),
        _ => c.logu(1e-3, 1e-1),
    }
}
fn flat_mask(g: &mut GroundStation) {
    g.location.terrain_mask = anise::astro::TerrainMask::from_flat_terrain(-89.9);
    g.location.terrain_mask_ignored = false;
}
/// Stations around the ground track of this orbit, which never hide it.
fn stations(c: &mut Case, o: &Orbit, n: usize, types: &[MT], biases: bool) -> Vec<Trk> {
    let b = almanac().transform_to(*o, iau_earth(), None).unwrap().radius_km;
    let lon = b.y.atan2(b.x).to_degrees();
    let lat = (b.z / b.norm()).asin().to_degrees();
    (0..n)
        .map(|i| {
            let la = (lat + c.f(-25.0, 25.0)).clamp(-85.0, 85.0);
            let lo = lon + c.f(-35.0, 35.0);
            let mut g = GroundStation::from_point(format!("S{i}"), la, lo, c.f(0.0, 2.0), iau_earth());
            flat_mask(&mut g);
            let ty = if c.b(0.5) { types.to_vec() } else { subset(c, types, 1) };
            let mut sigma = IndexMap::new();
            let mut bias = IndexMap::new();
            let mut noises = IndexMap::new();
            for t in &ty {
                let s = sigma_of(c, *t);
                let k = (biases && c.b(0.5)).then(|| c.f(-20.0, 20.0) * s);
                noises.insert(*t, noise_of(s, k));
                sigma.insert(*t, s);
                bias.insert(*t, k.unwrap_or(0.0));
            }
            g.measurement_types = ty.iter().copied().collect();
            g.stochastic_noises = Some(noises);
            c.p("station", (la, lo, &ty, &sigma, &bias));
            Trk { dev: Dev::G(g), types: ty, sigma, bias }
        })
        .collect()
}
fn gps(c: &mut Case, n: usize, biases: bool) -> Vec<Trk> {
    (0..n)
        .map(|i| {
            let mut p = PositionDevice::new(format!("P{i}"));
            let ty = if c.b(0.5) { vec![MT::X, MT::Y, MT::Z] } else { subset(c, &[MT::X, MT::Y, MT::Z], 1) };
            let mut sigma = IndexMap::new();
            let mut bias = IndexMap::new();
            let mut noises = IndexMap::new();
            for t in &ty {
                let s = sigma_of(c, *t);
                let k = (biases && c.b(0.5)).then(|| c.f(-20.0, 20.0) * s);
                noises.insert(*t, noise_of(s, k));
                sigma.insert(*t, s);
                bias.insert(*t, k.unwrap_or(0.0));
            }
            p.measurement_types = ty.iter().copied().collect();
            p.stochastic_noises = Some(noises);
            c.p("device", (&ty, &sigma, &bias));
            Trk { dev: Dev::P(p), types: ty, sigma, bias }
        })
        .collect()
}
fn kep(s: &Spacecraft, dt: f64) -> Orbit {
    let mu = s.orbit.frame.mu_km3_s2().unwrap();
    let (r, v) = kepler(mu, s.orbit.radius_km, s.orbit.velocity_km_s, dt);
    Orbit { radius_km: r, velocity_km_s: v, epoch: s.orbit.epoch + dt * Unit::Second, frame: s.orbit.frame }
}
/// State transition over `dt` from this orbit, by differences of Keplerian motion.
fn kep_stm(o: &Orbit, dt: f64) -> DM {
    let mu = o.frame.mu_km3_s2().unwrap();
    let mut phi = DM::identity(9, 9);
    for j in 0..6 {
        let d = if j < 3 { 0.2 } else { 2e-4 };
        let step = |k: f64| {
            let (mut r, mut v) = (o.radius_km, o.velocity_km_s);
            if j < 3 {
                r[j] += k * d;
            } else {
                v[j - 3] += k * d;
            }
            let (r, v) = kepler(mu, r, v, dt);
            v6(&r, &v)
        };
        // Fourth order differences.
        let col = (step(-2.0) - step(2.0) + (step(1.0) - step(-1.0)) * 8.0) / (12.0 * d);
        for i in 0..6 {
            phi[(i, j)] = col[i];
        }
    }
    phi
}
fn seconds(d: Duration) -> f64 {
    d.to_seconds()
}

struct Scene {
    truth: Spacecraft,
    est: Est,
    trks: Vec<Trk>,
    arc: TrackingDataArc,
    outliers: usize,
    clean: bool,
    noisy: bool,
}
fn six(c: &mut Case, pos: f64, vel: f64) -> DM {
    let a = gauss_mat(c, 6, 6) * 0.3 + DM::identity(6, 6);
    let p = &a * a.transpose() + DM::identity(6, 6) * 0.1;
    let s = [pos, pos, pos, vel, vel, vel];
    let mut m = DM::zeros(9, 9);
    for i in 0..6 {
        for j in 0..6 {
            m[(i, j)] = 0.5 * (p[(i, j)] + p[(j, i)]) * s[i] * s[j];
        }
    }
    m
}
struct Opt {
    hostile: bool,
    biases: bool,
    noise: bool,
    long: bool,
}
fn build_scene(c: &mut Case, position: bool, types: &[MT], opt: &Opt) -> Scene {
    let e = epoch(c);
    let mut o = orbit(c, eme2k(), e, 0.2, 6.0);
    if !position {
        // Keep away from the stations: the models are then nearly linear.
        while o.rmag_km() < 12000.0 || o.periapsis_km().unwrap() < 9000.0 {
            o = orbit(c, eme2k(), e, 0.2, 6.0);
        }
    }
    let nominal = sc(c, o);
    let (ps, vs) = (c.logu(0.02, 1.0), c.logu(2e-5, 1e-3));
    let mut p0 = six(c, ps, vs);
    let full = opt.hostile && c.b(0.3);
    if full {
        p0[(6, 6)] = 0.01;
        p0[(7, 7)] = 0.04;
        p0[(8, 8)] = 1.0;
    }
    let l = p0.view((0, 0), (6, 6)).into_owned().cholesky().unwrap().l();
    let err = if opt.noise { &l * gauss_vec(c, 6) } else { DV::zeros(6) };
    let mut truth = nominal;
    for i in 0..3 {
        truth.orbit.radius_km[i] += err[i];
        truth.orbit.velocity_km_s[i] += err[i + 3];
    }
    c.p("sigmas", (ps, vs));
    let est = Est::from_covar(nominal, m9(&p0));
    let nt = if opt.long { c.u(2, 4) } else { c.u(1, 3) };
    let trks = if position { gps(c, nt, opt.biases) } else { stations(c, &o, nt, types, opt.biases) };
    let n = if opt.long { c.u(10, 40) } else { c.u(3, 25) };
    let step = if opt.long { c.pick(&[90.0, 150.0, 300.0, 450.0]) } else { c.pick(&[10.0, 30.0, 60.0, 90.0, 150.0]) };
    let mut t = if c.b(0.3) { 0.0 } else { c.f(0.0, 400.0).floor() };
    let mut arc = TrackingDataArc::default();
    let mut outliers = 0;
    let mut moduli: IndexMap<MT, f64> = IndexMap::new();
    if trks.iter().any(|k| k.types.contains(&MT::Azimuth)) {
        moduli.insert(MT::Azimuth, 360.0);
    }
    if opt.hostile && !position && c.b(0.3) {
        moduli.insert(MT::Range, c.f(40.0, 3000.0));
    }
    if opt.hostile && !position && c.b(0.1) {
        moduli.insert(MT::Doppler, c.f(0.5, 3.0));
    }
    for _ in 0..n {
        let x = kep(&truth, t);
        let k = c.u(1, trks.len());
        let who = shuffle(c, &(0..trks.len()).collect::<Vec<_>>())[..k].to_vec();
        let mut who = who;
        who.sort();
        for w in who {
            let d = &trks[w];
            let mut m = Measurement::new(d.name(), x.epoch);
            let ty = if opt.hostile && c.b(0.25) { subset(c, &d.types, 1) } else { d.types.clone() };
            let bad = opt.hostile && c.b(0.05);
            for ty in &ty {
                let s = d.sigma[ty];
                let mut v = d.value(&x, *ty) + d.bias[ty];
                if opt.noise {
                    v += s * c.gauss();
                }
                if bad {
                    v += s * c.f(20.0, 200.0);
                }
                if let Some(k) = moduli.get(ty) {
                    v = v.rem_euclid(*k);
                }
                m.push(*ty, v);
            }
            outliers += bad as usize;
            m.rejected = opt.hostile && c.b(0.08);
            if opt.hostile && c.b(0.04) {
                m.tracker = "nobody".into();
            }
            arc.measurements.push(m);
        }
        t += if c.b(0.1) { 4.0 * step } else { step };
        if c.b(0.2) {
            t += c.f(0.0, 7.0);
            t = (t * 1e6).round() / 1e6;
        }
    }
    arc.sort();
    for (k, v) in &moduli {
        arc.set_moduli(*k, *v);
    }
    arc.force_reject = opt.hostile && c.b(0.05);
    c.p("force reject", arc.force_reject);
    c.p("moduli", &moduli);
    c.p("measurements", arc.measurements.len());
    Scene { truth, est, trks, arc, outliers, clean: !opt.hostile, noisy: opt.noise }
}
fn prop() -> Propagator<SpacecraftDynamics> {
    Propagator::default(SpacecraftDynamics::new(OrbitalDynamics::two_body()))
}
/// Expected measurement updates of an arc, in order.
struct Exp {
    msr: usize,
    types: Vec<MT>,
}
fn expected(sc: &Scene, m: usize) -> Vec<Exp> {
    let mut v = vec![];
    for (i, msr) in sc.arc.measurements.iter().enumerate() {
        if msr.rejected {
            continue;
        }
        let Some(d) = sc.trks.iter().find(|d| d.name() == msr.tracker) else { continue };
        for w in d.types.chunks(m) {
            if w.iter().any(|t| msr.data.contains_key(t)) {
                v.push(Exp { msr: i, types: w.to_vec() });
            }
        }
    }
    v
}
struct Cfg {
    ekf: bool,
    thr: Option<f64>,
    pns: Vec<Pn>,
    max_step: Duration,
}
fn config(c: &mut Case, sc: &Scene, pn: bool) -> Cfg {
    let ekf = c.b(0.6);
    let thr = c.b(0.5).then(|| c.f(3.0, 6.0));
    let span = seconds(sc.arc.measurements.last().unwrap().epoch - sc.est.epoch()).max(1.0);
    let n = if pn && c.b(0.4) { c.u(1, 2) } else { 0 };
    let mut pns: Vec<Pn> = (0..n).map(|_| Pn::random(c, sc.est.epoch(), span)).collect();
    pns.sort_by_key(|p| p.start.unwrap_or(sc.est.epoch() - 1 * Unit::Day));
    let max_step = c.pick(&[15.0, 60.0, 60.0, 100.0]) * Unit::Second;
    c.p("variant", if ekf { "reference update" } else { "deviation tracking" });
    c.p("threshold", thr);
    c.p("process noises", &pns);
    c.p("max step", max_step);
    Cfg { ekf, thr, pns, max_step }
}
type Proc<const M: usize, T> = KalmanODProcess<SpacecraftDynamics, Const<M>, Const<3>, T>;
type Sol<const M: usize, T> = ODSolution<Spacecraft, Est, Const<M>, T>;
fn process<const M: usize, T: TrackerSensitivity<Spacecraft, Spacecraft>>(cfg: &Cfg, devices: BTreeMap<String, T>) -> Proc<M, T> {
    let v = if cfg.ekf { ReferenceUpdate } else { DeviationTracking };
    let mut p = Proc::<M, T>::new(prop(), v, cfg.thr.map(|num_sigmas| SigmaRejection { num_sigmas }), devices, almanac());
    for n in &cfg.pns {
        p = p.and_with_process_noise(n.build());
    }
    p.max_step = cfg.max_step;
    p
}
fn gs_map(t: &[Trk]) -> BTreeMap<String, GroundStation> {
    t.iter().filter_map(|d| if let Dev::G(g) = &d.dev { Some((g.name.clone(), g.clone())) } else { None }).collect()
}
fn pd_map(t: &[Trk]) -> BTreeMap<String, PositionDevice> {
    t.iter().filter_map(|d| if let Dev::P(g) = &d.dev { Some((g.name.clone(), g.clone())) } else { None }).collect()
}
fn base<'a>(e: &'a Est, ekf: bool) -> Spacecraft {
    if ekf { e.state() } else { e.nominal_state }
}

/// Walks through a solution, and compares each step with the reference filter.
fn audit(c: &mut Case, scn: &Scene, cfg: &Cfg, m: usize, recs: &[Rec]) {
    let exp = expected(scn, m);
    let got: Vec<&Res> = recs.iter().filter_map(|r| r.res.as_ref()).collect();
    c.check("updates", got.len() == exp.len(), || format!("{} instead of {}", got.len(), exp.len()));
    if got.len() != exp.len() {
        return;
    }
    let init = scn.est.epoch();
    let thr = if scn.arc.force_reject { Some(-1.0) } else { cfg.thr };
    let mut prev = scn.est;
    if cfg.ekf {
        prev.state_deviation = V9::zeros();
    }
    let mut ith = 0;
    for rec in recs {
        let e = &rec.est;
        let dt = seconds(e.epoch() - prev.epoch());
        // The propagation also stops at the measurements of unknown trackers, which have no estimate.
        let mut stop = prev.epoch();
        let mut gap = 0 * Unit::Second;
        for m in scn.arc.measurements.iter().filter(|m| m.epoch > prev.epoch() && m.epoch < e.epoch()) {
            gap = gap.max(m.epoch - stop);
            stop = m.epoch;
        }
        gap = gap.max(e.epoch() - stop);
        c.check("order", dt >= 0.0 && gap <= cfg.max_step + 1 * Unit::Microsecond, || format!("{dt} s after the previous estimate"));
        let b = base(&prev, cfg.ekf);
        let want = kep(&b, dt);
        c.vnear("nominal position", e.nominal_state.orbit.radius_km.as_slice(), want.radius_km.as_slice(), 1e-6);
        c.vnear("nominal velocity", e.nominal_state.orbit.velocity_km_s.as_slice(), want.velocity_km_s.as_slice(), 1e-9);
        let phi = kep_stm(&b.orbit, dt);
        let s = scales();
        let ds = DM::from_fn(9, 9, |i, j| (e.stm[(i, j)] - phi[(i, j)]) * s[j] / s[i]).amax();
        c.check("state transition", ds < 1e-6 * (1.0 + dt), || format!("differs by {ds:e} over {dt} s"));
        // From here on, use the transition of the filter, whose error was just bounded.
        let phi = dm(&e.stm);
        let p0 = dm(&prev.covar);
        let q = q_of(&cfg.pns, init, prev.epoch(), &e.nominal_state.orbit);
        if q.amax() > 0.0 {
            c.obs("process noise added", 1);
        }
        match &rec.res {
            None => {
                let bar = &phi * &p0 * phi.transpose() + &q;
                let size = scaled(&bar).amax();
                covnear(c, "time update", &dm(&e.covar), &bar, 1e-10 * size);
                c.check("time update flags", e.predicted && rec.gain.is_none(), || "not a prediction".into());
                let xbar = if cfg.ekf { DV::zeros(9) } else { &phi * dvec(&prev.state_deviation) };
                c.vnear("time update deviation", e.state_deviation.as_slice(), xbar.as_slice(), 1e-9 * (1.0 + xbar.amax()));
                c.obs("time updates", 1);
            }
            Some(r) => {
                let x = &exp[ith];
                ith += 1;
                let msr = &scn.arc.measurements[x.msr];
                let d = scn.trks.iter().find(|d| d.name() == msr.tracker).unwrap();
                c.check("which", r.tracker.as_ref() == Some(&msr.tracker) && r.types == x.types && r.epoch == e.epoch(), || {
                    format!("{:?} {:?} at {} instead of {} {:?} at {}", r.tracker, r.types, r.epoch, msr.tracker, x.types, msr.epoch)
                });
                c.check("when", (r.epoch - msr.epoch).abs() <= 1 * Unit::Microsecond, || format!("{} instead of {}", r.epoch, msr.epoch));
                let o = e.nominal_state.orbit;
                let mut h = DM::zeros(m, 9);
                let mut rr = DM::identity(m, m);
                let mut tols = vec![1e-12; m];
                for (i, t) in x.types.iter().enumerate() {
                    rr[(i, i)] = d.sigma[t] * d.sigma[t];
                    match msr.data.get(t) {
                        None => {
                            c.near("missing observation", r.prefit[i], 0.0, 1e-12);
                            c.obs("missing types", 1);
                        }
                        Some(v) => {
                            h.set_row(i, &d.row(&o, *t).transpose());
                            let tol = d.tol(&o, *t);
                            tols[i] = tol;
                            let want = d.value(&o, *t) + d.bias[t];
                            let mut dc = r.comp[i] - want;
                            if *t == MT::Azimuth {
                                dc = (dc + 540.0).rem_euclid(360.0) - 180.0;
                            }
                            c.near(&format!("computed {t:?}"), dc, 0.0, tol);
                            if let Some(k) = scn.arc.moduli.as_ref().and_then(|m| m.get(t)) {
                                let n = ((r.real[i] - v) / k).round();
                                c.near("real observation, up to its modulus", r.real[i] - v - n * k, 0.0, 1e-9 * (1.0 + k * n.abs()));
                                c.check("ambiguity", r.prefit[i].abs() <= 0.5 * k * (1.0 + 1e-9), || format!("prefit {} of a modulus {k}", r.prefit[i]));
                                c.obs("ambiguities", 1);
                            } else {
                                c.near("real observation", r.real[i], *v, 0.0);
                            }
                            c.near("prefit", r.prefit[i], r.real[i] - r.comp[i], 1e-12 * (1.0 + r.real[i].abs()));
                        }
                    }
                }
                let bar = &phi * &p0 * phi.transpose() + &q;
                let sk = &h * &bar * h.transpose() + &rr;
                let _ = tols;
                // The difference between both sensitivities is below this.
                let w = update(&Upd { p0: &p0, dev0: &dvec(&prev.state_deviation), phi: &phi, q: &q, h: &h, r: &rr, y: &r.prefit, ekf: cfg.ekf, thr });
                if thr.is_some_and(|t| (w.ratio - t).abs() < 1e-3 * (1.0 + t.abs())) {
                    c.skip("ratio at the threshold");
                    return;
                }
                c.check("rejection", r.rejected == w.k.is_none(), || format!("rejected: {} with a ratio of {} ({thr:?})", r.rejected, w.ratio));
                if r.rejected != w.k.is_none() {
                    return;
                }
                c.near("ratio", r.ratio, w.ratio, 1e-4 * w.ratio + 1e-6);
                c.near("whitened", r.whitened.norm_squared() / m as f64, w.ratio * w.ratio, 2e-4 * w.ratio * w.ratio + 1e-6);
                for i in 0..m {
                    c.near("innovation trend", r.noise[i] / sk[(i, i)].sqrt(), 1.0, 1e-4);
                }
                let size = scaled(&w.bar).amax();
                covnear(c, "predicted covariance", &dm(&e.covar_bar), &w.bar, 1e-10 * size);
                psd(c, "covariance", &dm(&e.covar), size);
                let (g, p) = (scaled(&dm(&e.covar)), scaled(&w.p));
                for i in 0..6 {
                    c.near("variance", g[(i, i)] / p[(i, i)], 1.0, 1e-4);
                }
                let sd = |i: usize| w.p[(i, i)].sqrt().max(1e-3 * w.bar[(i, i)].sqrt());
                for i in 0..6 {
                    c.near("state correction", (e.state_deviation[i] - w.dev[i]) / sd(i), 0.0, 1e-4 * (1.0 + w.ratio));
                }
                c.check("flags", e.predicted == r.rejected && rec.gain.is_some() != r.rejected, || format!("{} {}", e.predicted, rec.gain.is_some()));
                c.obs(if r.rejected { "rejected" } else { "accepted" }, 1);
                c.nontrivial();
            }
        }
        prev = *e;
        if c.failed() {
            return;
        }
    }
    // Every measurement which was only flagged is a time update at its epoch.
    for msr in scn.arc.measurements.iter().filter(|m| m.rejected) {
        c.check("flagged measurement", recs.iter().any(|r| (r.est.epoch() - msr.epoch).abs() <= 1 * Unit::Microsecond), || format!("no estimate at {}", msr.epoch));
        c.obs("flagged", 1);
    }
}
fn nees(scn: &Scene, e: &Est) -> f64 {
    let x = kep(&scn.truth, seconds(e.epoch() - scn.truth.epoch()));
    let s = e.state().orbit;
    let sc9 = scales();
    let err = DV::from_fn(6, |i, _| if i < 3 { (s.radius_km[i] - x.radius_km[i]) / sc9[i] } else { (s.velocity_km_s[i - 3] - x.velocity_km_s[i - 3]) / sc9[i] });
    let p = scaled(&dm(&e.covar)).view((0, 0), (6, 6)).into_owned();
    let ch = p.cholesky();
    match ch {
        Some(ch) => err.dot(&ch.solve(&err)),
        None => f64::NAN,
    }
}
fn run_g<const M: usize>(c: &mut Case, opt: &Opt, types: &[MT], pn: bool) -> Option<(Scene, Cfg, Sol<M, GroundStation>)> {
    let scn = build_scene(c, false, types, opt);
    if scn.arc.measurements.len() < 2 {
        c.skip("too few measurements");
        return None;
    }
    if nadir(&scn) {
        c.skip("nadir");
        return None;
    }
    // Stay away from the zenith and the nadir, where the azimuths are not linear.
    if types.contains(&MT::Azimuth) {
        for m in &scn.arc.measurements {
            let o = kep(&scn.truth, seconds(m.epoch - scn.truth.epoch()));
            for d in &scn.trks {
                if d.value(&o, MT::Elevation).abs() > 75.0 {
                    c.skip("zenith");
                    return None;
                }
            }
        }
    }
    let cfg = config(c, &scn, pn);
    let p = process::<M, GroundStation>(&cfg, gs_map(&scn.trks));
    let sol = c.ok("process_arc", p.process_arc(scn.est, &scn.arc))?;
    Some((scn, cfg, sol))
}
fn run_p<const M: usize>(c: &mut Case, opt: &Opt, pn: bool) -> Option<(Scene, Cfg, Sol<M, PositionDevice>)> {
    let scn = build_scene(c, true, &[], opt);
    if scn.arc.measurements.len() < 2 {
        c.skip("too few measurements");
        return None;
    }
    let cfg = config(c, &scn, pn);
    let p = process::<M, PositionDevice>(&cfg, pd_map(&scn.trks));
    let sol = c.ok("process_arc", p.process_arc(scn.est, &scn.arc))?;
    Some((scn, cfg, sol))
}
fn audited_g<const M: usize>(c: &mut Case, types: &[MT]) {
    let biases = c.b(0.4);
    let Some((scn, cfg, sol)) = run_g::<M>(c, &Opt { hostile: true, biases, noise: true, long: false }, types, true) else { return };
    let r = recs(&sol);
    audit(c, &scn, &cfg, M, &r);
}
fn audited_p<const M: usize>(c: &mut Case) {
    let biases = c.b(0.4);
    let Some((scn, cfg, sol)) = run_p::<M>(c, &Opt { hostile: true, biases, noise: true, long: false }, true) else { return };
    let r = recs(&sol);
    audit(c, &scn, &cfg, M, &r);
}
fn consistent(c: &mut Case, scn: &Scene, cfg: &Cfg, m: usize, r: &[Rec]) {
    if !cfg.ekf && r.iter().any(|r| r.est.state_deviation.fixed_rows::<3>(0).norm() > 0.2) {
        c.skip("deviation too large for a linear filter");
        return;
    }
    let n = nees(scn, &r.last().unwrap().est);
    c.check("estimation error", n < 90.0, || format!("NEES of {n} for 6 components"));
    let acc: Vec<&Res> = r.iter().filter_map(|r| r.res.as_ref()).collect();
    if cfg.ekf && cfg.thr.is_none() {
        let nis: f64 = acc.iter().map(|r| r.whitened.norm_squared()).sum();
        let k = (acc.len() * m) as f64;
        c.check("innovations", nis < k + 9.0 * (2.0 * k).sqrt() + 40.0, || format!("NIS of {nis} for {k}"));
    }
    let (a, b) = (dm(&scn.est.covar), dm(&r.last().unwrap().est.covar));
    let _ = (a, b);
    c.obs("runs", 1);
    c.nontrivial();
}

fn c27() {
    let mut m = Mon::new("C27", "a case is nontrivial when the measurement updates of a run were compared with the reference filter, or its final error with its covariance");
    m.assume("ratios within 0.1% of the rejection threshold are not judged");
    const RD: [MT; 2] = [MT::Range, MT::Doppler];
    const ALL: [MT; 4] = [MT::Range, MT::Doppler, MT::Azimuth, MT::Elevation];
    m.group("range and Doppler", 120, 6000, |c| audited_g::<2>(c, &RD));
    m.group("scalars", 120, 6000, |c| audited_g::<1>(c, &RD));
    m.group("angles", 60, 4000, |c| audited_g::<2>(c, &ALL));
    m.group("wide filter", 60, 4000, |c| audited_g::<3>(c, &ALL));
    m.group("positions", 120, 6000, |c| audited_p::<3>(c));
    m.group("position pairs", 80, 4000, |c| audited_p::<2>(c));
    m.group("position scalars", 80, 4000, |c| audited_p::<1>(c));
    m.group("consistency, stations", 120, 8000, |c| {
        let Some((scn, cfg, sol)) = run_g::<2>(c, &Opt { hostile: false, biases: true, noise: true, long: false }, &RD, false) else { return };
        consistent(c, &scn, &cfg, 2, &recs(&sol));
    });
    m.group("consistency, positions", 120, 8000, |c| {
        let Some((scn, cfg, sol)) = run_p::<3>(c, &Opt { hostile: false, biases: true, noise: true, long: false }, false) else { return };
        consistent(c, &scn, &cfg, 3, &recs(&sol));
    });
    m.group("perfect data", 60, 3000, |c| {
        let Some((scn, _, sol)) = run_g::<2>(c, &Opt { hostile: false, biases: true, noise: false, long: false }, &RD, true) else { return };
        for r in recs(&sol) {
            if let Some(r) = r.res {
                c.check("no residual", r.ratio < 1.0, || format!("ratio {} with perfect data", r.ratio));
                c.obs("updates", 1);
            }
            let o = kep(&scn.truth, seconds(r.est.epoch() - scn.truth.epoch()));
            c.vnear("estimate", r.est.state().orbit.radius_km.as_slice(), o.radius_km.as_slice(), 5e-3);
        }
        c.nontrivial();
    });
    m.group("hidden spacecraft", 40, 2000, |c| {
        let mut scn = build_scene(c, false, &RD, &Opt { hostile: false, biases: false, noise: true, long: false });
        // One of the stations is on the other side of the Earth.
        let k = c.u(0, scn.trks.len() - 1);
        let name = scn.trks[k].name();
        if let Dev::G(g) = &mut scn.trks[k].dev {
            g.location.terrain_mask.clear();
            g.location.latitude_deg *= -1.0;
            g.location.longitude_deg += 180.0;
            let l = g.location.clone();
            for m in &scn.arc.measurements {
                let o = kep(&scn.truth, seconds(m.epoch - scn.truth.epoch()));
                if geometry(&l, &o, MT::Elevation) > -3.0 {
                    c.skip("visible");
                    return;
                }
            }
        }
        if scn.arc.measurements.len() < 2 {
            c.skip("too few measurements");
            return;
        }
        let cfg = config(c, &scn, false);
        let p = process::<2, GroundStation>(&cfg, gs_map(&scn.trks));
        let sol = ok!(c, "process_arc", p.process_arc(scn.est, &scn.arc));
        let r = recs(&sol);
        c.check("ignored", r.iter().all(|r| r.res.as_ref().is_none_or(|r| r.tracker.as_ref() != Some(&name))), || format!("{name} cannot see the spacecraft"));
        for m in scn.arc.measurements.iter_mut().filter(|m| m.tracker == name) {
            m.tracker = "hidden".into();
        }
        audit(c, &scn, &cfg, 2, &r);
        c.nontrivial();
    });
    m.group("invalid runs", 40, 1000, |c| {
        let mut scn = build_scene(c, false, &RD, &Opt { hostile: false, biases: false, noise: true, long: false });
        let mut cfg = config(c, &scn, false);
        match c.u(0, 2) {
            0 => scn.arc.measurements.truncate(1),
            1 => cfg.max_step = c.pick(&[0, -10]) * Unit::Second,
            _ => {
                let k = c.u(0, scn.arc.measurements.len() - 1);
                let v = c.pick(&[f64::NAN, f64::INFINITY]);
                for x in scn.arc.measurements[k].data.values_mut() {
                    *x = v;
                }
            }
        }
        let p = process::<2, GroundStation>(&cfg, gs_map(&scn.trks));
        let r = p.process_arc(scn.est, &scn.arc);
        c.check("refused", r.is_err(), || "an invalid run was accepted".into());
        c.nontrivial();
    });
    m.finish();
}

// ---------------------------------------------------------------------------------------------
// C28: smoothing.

/// Audits a smoothed solution against the filtered one.
fn smoothed(c: &mut Case, scn: &Scene, ekf: bool, f: &[Rec], s: &[Rec]) {
    c.check("count", f.len() == s.len(), || format!("{} instead of {}", s.len(), f.len()));
    if f.len() != s.len() || c.failed() {
        return;
    }
    let l = f.len() - 1;
    let last = &s[l].est;
    c.check("last estimate", last.state_deviation == f[l].est.state_deviation && last.covar == f[l].est.covar && last.nominal_state == f[l].est.nominal_state, || "changed".into());
    c.check("last ratio", s[l].fsr.is_none(), || "the last estimate cannot be smoothed".into());
    let sc9 = scales();
    // Reference: map the next smoothed deviation and covariance back.
    let mut dev = dvec(&f[l].est.state_deviation);
    let mut cov = dm(&f[l].est.covar);
    let mut dmax: f64 = 0.0;
    for r in f {
        dmax = dmax.max(r.est.state_deviation.fixed_rows::<3>(0).norm());
    }
    for k in (0..=l).rev() {
        let (fe, se) = (&f[k].est, &s[k].est);
        if k < l {
            let dt = seconds(f[k + 1].est.epoch() - fe.epoch());
            let b = base(fe, ekf);
            let phi = kep_stm(&b.orbit, dt);
            let inv = phi.clone().try_inverse().unwrap();
            dev = &inv * &dev;
            if ekf {
                dev += dvec(&fe.state_deviation);
            }
            cov = &inv * &cov * inv.transpose();
        }
        c.check("epoch and nominal", se.nominal_state.orbit == fe.nominal_state.orbit && se.epoch() == fe.epoch(), || format!("{se}"));
        let n = (0..6).fold(0.0f64, |a, i| a.max((dev[i] / sc9[i]).abs()));
        for i in 0..6 {
            c.near("smoothed deviation", se.state_deviation[i] / sc9[i], dev[i] / sc9[i], 1e-5 * n + 1e-7);
        }
        let (g, w) = (scaled(&dm(&se.covar)), scaled(&cov));
        let (g, w) = (g.view((0, 0), (6, 6)).into_owned(), w.view((0, 0), (6, 6)).into_owned());
        let d = (&g - &w).amax();
        c.check("smoothed covariance", d <= 1e-4 * w.amax(), || format!("differs by {d:e} of {:e}", w.amax()));
        // The smoothed state leads to the final state.
        let end = kep(&se.state(), seconds(last.epoch() - se.epoch()));
        let fin = last.state().orbit;
        let span = seconds(last.epoch() - f[0].est.epoch());
        let r = fin.radius_km.norm().min(se.nominal_state.orbit.radius_km.norm());
        let tol = 1e-5 + 20.0 * (1.0 + span / 600.0).powi(2) * dmax * dmax / r;
        c.vnear("final position", end.radius_km.as_slice(), fin.radius_km.as_slice(), tol);
        // Smoothing never loses information.
        let fp = scaled(&dm(&fe.covar)).view((0, 0), (6, 6)).into_owned();
        let df = &fp - &g;
        let e = ((&df + df.transpose()) * 0.5).symmetric_eigenvalues().min();
        c.check("information", e >= -1e-4 * fp.amax(), || format!("eigenvalue {e:e} of {:e}", fp.amax()));
        if k < l {
            match &s[k].fsr {
                None => c.fail("ratio", "no ratio"),
                Some(q) => {
                    for i in 0..6 {
                        let dp = fe.covar[(i, i)] - se.covar[(i, i)];
                        if dp > 1e-4 * fe.covar[(i, i)] {
                            let dx = if i < 3 {
                                fe.state().orbit.radius_km[i] - se.state().orbit.radius_km[i]
                            } else {
                                fe.state().orbit.velocity_km_s[i - 3] - se.state().orbit.velocity_km_s[i - 3]
                            };
                            let want = dx.abs() / dp.sqrt();
                            c.near("ratio", q[i].abs(), want, 1e-6 * want + 1e-6);
                        }
                    }
                }
            }
        }
        c.check("no gain", s[k].gain.is_none(), || "gain kept".into());
        match (&f[k].res, &s[k].res) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                c.check(
                    "residual kept",
                    a.epoch == b.epoch && a.prefit == b.prefit && a.ratio == b.ratio && a.real == b.real && a.rejected == b.rejected && a.tracker == b.tracker && a.types == b.types && a.noise == b.noise && a.whitened == b.whitened,
                    || format!("{a:?} became {b:?}"),
                );
                if k < l {
                    let msr = scn.arc.measurements.iter().find(|m| (m.epoch - a.epoch).abs() < 2 * Unit::Microsecond && Some(&m.tracker) == a.tracker.as_ref()).unwrap();
                    let d = scn.trks.iter().find(|d| d.name() == msr.tracker).unwrap();
                    let o = se.state().orbit;
                    for (i, t) in b.types.iter().enumerate() {
                        if !msr.data.contains_key(t) {
                            continue;
                        }
                        let mut e = b.comp[i] - d.value(&o, *t) - d.bias[t];
                        if *t == MT::Azimuth {
                            e = (e + 540.0).rem_euclid(360.0) - 180.0;
                        }
                        let tol = d.tol(&o, *t);
                        c.near("smoothed observation", e, 0.0, tol);
                        c.near("smoothed residual", b.postfit[i], b.real[i] - b.comp[i], 1e-12 * (1.0 + b.real[i].abs()));
                        c.obs("smoothed residuals", 1);
                    }
                }
            }
            _ => c.fail("residual", format!("{} became {}", f[k].res.is_some(), s[k].res.is_some())),
        }
        c.obs("smoothed estimates", 1);
    }
    c.nontrivial();
}
fn smooth_g<const M: usize>(c: &mut Case, hostile: bool, types: &[MT]) {
    let biases = c.b(0.4);
    let Some((scn, cfg, sol)) = run_g::<M>(c, &Opt { hostile, biases, noise: true, long: false }, types, false) else { return };
    smooth_case(c, &scn, &cfg, sol, hostile);
}
fn smooth_p<const M: usize>(c: &mut Case, hostile: bool) {
    let biases = c.b(0.4);
    let Some((scn, cfg, sol)) = run_p::<M>(c, &Opt { hostile, biases, noise: true, long: false }, false) else { return };
    smooth_case(c, &scn, &cfg, sol, hostile);
}
fn smooth_case<const M: usize, T: TrackerSensitivity<Spacecraft, Spacecraft>>(c: &mut Case, scn: &Scene, cfg: &Cfg, sol: Sol<M, T>, hostile: bool) {
    if sol.estimates.is_empty() {
        c.check("nothing to smooth", sol.smooth(&almanac()).is_err(), || "smoothed an empty solution".into());
        return;
    }
    let f = recs(&sol);
    // The solutions hide their variant: the deviations of single updates do not tell them apart.
    let s = ok!(c, "smooth", sol.smooth(&almanac()));
    let s = recs(&s);
    // When nothing was corrected before the last update, both variants are the same.
    smoothed(c, scn, cfg.ekf, &f, &s);
    if !hostile && (cfg.ekf || f.iter().all(|r| r.est.state_deviation.fixed_rows::<3>(0).norm() < 0.2)) {
        let n = nees(scn, &s[0].est);
        c.check("smoothed error", n < 90.0, || format!("NEES of {n} for 6 components"));
        c.obs("smoothed runs against the truth", 1);
    }
}
fn c28() {
    let mut m = Mon::new("C28", "a case is nontrivial when all estimates of a smoothed solution were compared with the reference smoother");
    m.assume("no process noise, and devices which measure instantaneously");
    const RD: [MT; 2] = [MT::Range, MT::Doppler];
    const ALL: [MT; 4] = [MT::Range, MT::Doppler, MT::Azimuth, MT::Elevation];
    m.group("stations", 80, 6000, |c| smooth_g::<2>(c, false, &RD));
    m.group("hostile stations", 80, 6000, |c| smooth_g::<2>(c, true, &RD));
    m.group("scalars", 60, 4000, |c| smooth_g::<1>(c, true, &RD));
    m.group("angles", 60, 4000, |c| smooth_g::<2>(c, true, &ALL));
    m.group("positions", 80, 6000, |c| smooth_p::<3>(c, false));
    m.group("hostile positions", 60, 4000, |c| smooth_p::<3>(c, true));
    m.group("position scalars", 60, 4000, |c| smooth_p::<1>(c, true));
    m.finish();
}

// ---------------------------------------------------------------------------------------------
// C29: batch least squares.

use nyx_space::od::blse::{BLSSolver, BatchLeastSquares};

struct Normal {
    info: DM,
    rhs: DV,
    sum: f64,
    n: usize,
}
/// Normal equations of an arc at this state, from Keplerian motion and the geometry.
fn normal(scn: &Scene, s: &Spacecraft) -> Normal {
    let mut nrm = Normal { info: DM::zeros(9, 9), rhs: DV::zeros(9), sum: 0.0, n: 0 };
    for msr in scn.arc.measurements.iter().filter(|m| !m.rejected) {
        nrm.n += 1;
        let Some(d) = scn.trks.iter().find(|d| d.name() == msr.tracker) else { continue };
        let dt = seconds(msr.epoch - s.epoch());
        let o = kep(s, dt);
        let phi = kep_stm(&s.orbit, dt);
        for (t, v) in &msr.data {
            let mut y = v - d.value(&o, *t) - d.bias[t];
            if let Some(k) = scn.arc.moduli.as_ref().and_then(|m| m.get(t)) {
                y -= (y / k).round() * k;
            }
            let h = d.row(&o, *t).transpose() * &phi;
            let w = 1.0 / (d.sigma[t] * d.sigma[t]);
            nrm.info += h.transpose() * &h * w;
            nrm.rhs += h.transpose() * (y * w);
            nrm.sum += w * y * y;
        }
    }
    nrm
}
fn sub6(m: &DM) -> DM {
    m.view((0, 0), (6, 6)).into_owned()
}
/// The information, with dimensionless components.
fn scaled_info(m: &DM) -> DM {
    let s = scales();
    DM::from_fn(6, 6, |i, j| m[(i, j)] * s[i] * s[j])
}
fn bls<T: TrackerSensitivity<Spacecraft, Spacecraft> + Clone>(c: &mut Case, scn: &mut Scene, devices: BTreeMap<String, T>) {
    scn.arc.force_reject = false;
    let lm = c.b(0.3);
    let tol = c.pick(&[1e-4, 1e-5, 1e-3]);
    let step = c.pick(&[15.0, 30.0, 120.0]) * Unit::Second;
    let its = c.pick(&[10usize, 20, 30]);
    c.p("solver", if lm { "LM" } else { "normal equations" });
    c.p("tolerance", tol);
    let b = BatchLeastSquares::builder()
        .prop(prop())
        .devices(devices)
        .solver(if lm { BLSSolver::LevenbergMarquardt } else { BLSSolver::NormalEquations })
        .tolerance_pos_km(tol)
        .max_iterations(its)
        .max_step(step)
        .almanac(almanac())
        .build();
    let guess = scn.est.nominal_state;
    // The RMS of the guess.
    let unknown = scn.arc.measurements.iter().any(|m| !m.rejected && !scn.trks.iter().any(|d| d.name() == m.tracker));
    let n0 = normal(scn, &guess);
    if n0.n < 2 {
        c.check("too few", b.estimate(guess, &scn.arc).is_err(), || "accepted".into());
        return;
    }
    if !unknown {
        let rms = ok!(c, "evaluate", b.evaluate(guess, &scn.arc));
        let want = (n0.sum / n0.n as f64).sqrt();
        c.near("evaluate", rms, want, 1e-3 * want + 1e-2);
        c.obs("evaluations", 1);
    }
    let i0 = scaled_info(&n0.info);
    if sub6(&n0.info).symmetric_eigenvalues().min() < 100.0 {
        // Otherwise the regularization dominates.
        c.skip("not observable");
        return;
    }
    let sol = ok!(c, "estimate", b.estimate(guess, &scn.arc));
    let nf = normal(scn, &sol.estimated_state);
    c.check("iterations", sol.num_iterations <= its && sol.num_iterations >= 1, || format!("{}", sol.num_iterations));
    c.check("epoch", sol.estimated_state.epoch() == guess.epoch() && sol.estimated_state.orbit.frame == guess.orbit.frame, || format!("{}", sol.estimated_state));
    c.check("other components", sol.estimated_state.mass == guess.mass && sol.estimated_state.srp == guess.srp && sol.estimated_state.drag == guess.drag, || format!("{}", sol.estimated_state));
    if !sol.converged {
        c.check("correction", !(sol.final_corr_pos_km < tol), || format!("not converged with a correction of {}", sol.final_corr_pos_km));
        c.obs("not converged", 1);
        if !lm && scn.clean {
            c.fail("converges", format!("not converged in {its} iterations: correction {} km", sol.final_corr_pos_km));
        }
        return;
    }
    c.check("correction", sol.final_corr_pos_km < tol, || format!("{}", sol.final_corr_pos_km));
    if lm {
        c.obs("LM converged", 1);
    }
    // At the solution, the corrections vanish.
    let mut reg = nf.info.clone();
    for i in 0..9 {
        reg[(i, i)] += 1.0;
    }
    let dx = reg.clone().cholesky().unwrap().solve(&nf.rhs);
    let dp = dx.fixed_rows::<3>(0).norm();
    if !lm {
        c.check("stationary", dp < 2.0 * tol + 1e-4, || format!("another correction of {dp} km with a tolerance of {tol}"));
    }
    // The covariance is the inverse of the information.
    let inv = reg.clone().try_inverse().unwrap();
    for i in 0..6 {
        c.near("variance", sol.covariance[(i, i)] / inv[(i, i)], 1.0, 2e-3);
        for j in 0..i {
            let n = (inv[(i, i)] * inv[(j, j)]).sqrt();
            c.near("correlation", sol.covariance[(i, j)] / n, inv[(i, j)] / n, 2e-3);
            c.near("symmetric", sol.covariance[(i, j)] / n, sol.covariance[(j, i)] / n, 1e-6);
        }
    }
    if !unknown && !lm {
        let want = (nf.sum / nf.n as f64).sqrt();
        // The RMS of the last iteration is the one before its correction.
        let pred = nf.rhs.dot(&dx).abs() / nf.n as f64 + tol * tol * i0.amax() / nf.n as f64;
        c.near("RMS", sol.final_rms, want, 1e-3 * want + 10.0 * pred.sqrt() + 1e-2);
        let ev = ok!(c, "evaluate", b.evaluate(sol.estimated_state, &scn.arc));
        c.near("evaluate", ev, want, 1e-3 * want + 1e-2);
    }
    if scn.clean && !lm {
        let t = &scn.truth;
        let e = sol.estimated_state.orbit;
        let s = scales();
        let err = DV::from_fn(6, |i, _| if i < 3 { e.radius_km[i] - t.orbit.radius_km[i] } else { e.velocity_km_s[i - 3] - t.orbit.velocity_km_s[i - 3] });
        let es = DV::from_fn(6, |i, _| err[i] / s[i]);
        let n = es.dot(&(&scaled_info(&nf.info) * &es));
        // Allow for the last correction.
        let slack = tol * tol * i0.amax();
        if scn.noisy {
            c.check("estimation error", n < 90.0 + 4.0 * slack, || format!("NEES of {n} for 6 components"));
            c.obs("errors against the truth", 1);
        } else {
            c.check("exact", es.amax() < 10.0 * tol + 1e-6 || n < 1e-2, || format!("error of {es:?}"));
            c.obs("exact data", 1);
        }
    }
    let rms0 = n0.sum.sqrt();
    c.check("improves", nf.sum.sqrt() <= rms0 * (1.0 + 1e-6) + 1e-3, || format!("from {rms0} to {}", nf.sum.sqrt()));
    let cv = sol.covariance;
    let st = sol.estimated_state;
    let k: Est = sol.into();
    c.check("as an estimate", k.nominal_state == st && (0..6).all(|i| (0..6).all(|j| k.covar[(i, j)] == cv[(i, j)])) && (6..9).all(|i| k.covar[(i, i)] == 0.0), || format!("{k}"));
    c.obs("converged", 1);
    c.nontrivial();
}
fn bls_g(c: &mut Case, types: &[MT], hostile: bool, noise: bool) {
    let biases = c.b(0.5);
    let mut scn = build_scene(c, false, types, &Opt { hostile, biases, noise, long: true });
    if !noise {
        offset(c, &mut scn);
    }
    if types.contains(&MT::Azimuth) && zenith(&scn) {
        c.skip("zenith");
        return;
    }
    if nadir(&scn) {
        c.skip("nadir");
        return;
    }
    let mut d = gs_map(&scn.trks);
    if c.b(0.25) {
        // Observations of a station from which the spacecraft is below the horizon do not count.
        let (_, g) = d.iter().next().unwrap();
        let mut g = g.clone();
        g.name = "below the horizon".into();
        g.location.terrain_mask.clear();
        g.location.latitude_deg *= -1.0;
        g.location.longitude_deg += 180.0;
        let mut extra = vec![];
        for m in &scn.arc.measurements {
            let o = kep(&scn.truth, seconds(m.epoch - scn.truth.epoch()));
            if geometry(&g.location, &o, MT::Elevation) < -5.0 && c.b(0.3) {
                let mut x = m.clone();
                x.tracker = g.name.clone();
                x.rejected = false;
                x.data.values_mut().for_each(|v| *v = 1.01 * *v + 1.0);
                extra.push(x);
            }
        }
        c.obs("hidden observations", extra.len() as u64);
        scn.arc.measurements.extend(extra);
        scn.arc.sort();
        d.insert(g.name.clone(), g);
    }
    bls(c, &mut scn, d);
}
/// A wrong guess for perfect data.
fn offset(c: &mut Case, scn: &mut Scene) {
    let (p, v) = (c.logu(0.01, 2.0), c.logu(1e-5, 1e-3));
    for i in 0..3 {
        scn.est.nominal_state.orbit.radius_km[i] += p * c.gauss();
        scn.est.nominal_state.orbit.velocity_km_s[i] += v * c.gauss();
    }
}
/// Below the mask of the stations, which is at -89.9 degrees.
fn nadir(scn: &Scene) -> bool {
    scn.arc.measurements.iter().any(|m| {
        let o = kep(&scn.truth, seconds(m.epoch - scn.truth.epoch()));
        scn.trks.iter().any(|d| matches!(d.dev, Dev::G(_)) && d.value(&o, MT::Elevation) < -89.0)
    })
}
fn zenith(scn: &Scene) -> bool {
    scn.arc.measurements.iter().any(|m| {
        let o = kep(&scn.truth, seconds(m.epoch - scn.truth.epoch()));
        scn.trks.iter().any(|d| d.value(&o, MT::Elevation).abs() > 75.0)
    })
}
fn c29() {
    let mut m = Mon::new("C29", "a case is nontrivial when a converged solution was compared with the normal equations of the reference model");
    m.assume("problems whose information is below the unit regularization of the solver are not judged");
    m.assume("Levenberg-Marquardt is only judged by the covariance and the decrease of its residuals, when it converges");
    const RD: [MT; 2] = [MT::Range, MT::Doppler];
    const ALL: [MT; 4] = [MT::Range, MT::Doppler, MT::Azimuth, MT::Elevation];
    m.group("perfect stations", 120, 5000, |c| bls_g(c, &RD, false, false));
    m.group("noisy stations", 120, 5000, |c| bls_g(c, &RD, false, true));
    m.group("hostile stations", 80, 4000, |c| bls_g(c, &RD, true, true));
    m.group("angles", 80, 4000, |c| bls_g(c, &ALL, false, true));
    m.group("positions", 120, 8000, |c| {
        let (hostile, noise, biases) = (c.b(0.3), c.b(0.7), c.b(0.4));
        let mut scn = build_scene(c, true, &[], &Opt { hostile, biases, noise, long: true });
        if !noise {
            offset(c, &mut scn);
        }
        let d = pd_map(&scn.trks);
        bls(c, &mut scn, d);
    });
    m.group("invalid", 40, 1000, |c| {
        let mut scn = build_scene(c, true, &[], &Opt { hostile: false, biases: false, noise: true, long: true });
        let k = c.u(0, 2);
        match k {
            0 => scn.arc.measurements.truncate(1),
            1 => {
                for m in scn.arc.measurements.iter_mut().skip(1) {
                    m.rejected = true;
                }
            }
            _ => {
                let k = c.u(0, scn.arc.measurements.len() - 1);
                for v in scn.arc.measurements[k].data.values_mut() {
                    *v = f64::NAN;
                }
            }
        }
        let b = BatchLeastSquares::builder().prop(prop()).devices(pd_map(&scn.trks)).almanac(almanac()).build();
        c.check("refused", b.estimate(scn.est.nominal_state, &scn.arc).is_err(), || "accepted".into());
        if k == 2 {
            c.check("refused", b.evaluate(scn.est.nominal_state, &scn.arc).is_err(), || "evaluated".into());
        }
        c.nontrivial();
    });
    m.finish();
}

// ---------------------------------------------------------------------------------------------
// C30: process noise and predictions.

fn predict_case(c: &mut Case) {
    let o = leo(c);
    let s0 = sc(c, o);
    let (ps, vs) = (c.logu(1e-3, 1.0), c.logu(1e-6, 1e-3));
    let mut p0 = six(c, ps, vs);
    if c.b(0.3) {
        p0[(6, 6)] = 0.01;
        p0[(7, 7)] = 0.04;
        p0[(8, 8)] = 1.0;
    }
    let mut est = Est::from_covar(s0, m9(&p0));
    let ekf = c.b(0.5);
    if !ekf && c.b(0.4) {
        let g = gauss_vec(c, 6);
        for i in 0..6 {
            est.state_deviation[i] = g[i] * scales()[i] * 0.1;
        }
    }
    let max_step = c.pick(&[10.0, 30.0, 60.0, 61.7, 300.0]) * Unit::Second;
    let span = match c.u(0, 4) {
        0 => c.f(0.0, 9.0),
        1 => seconds(max_step) * c.u(1, 20) as f64,
        _ => c.f(10.0, 4000.0),
    };
    let span = (span * 1e6).round() / 1e6;
    let n = if c.b(0.2) { 0 } else { c.u(1, 3) };
    let mut pns: Vec<Pn> = (0..n).map(|_| Pn::random(c, o.epoch, span)).collect();
    if c.b(0.5) {
        pns.sort_by_key(|p| p.start.unwrap_or(o.epoch - 1 * Unit::Day));
    }
    c.p("variant", if ekf { "reference update" } else { "deviation tracking" });
    c.p("process noises", &pns);
    c.p("max step", max_step);
    c.p("span", span);
    let cfg = Cfg { ekf, thr: None, pns, max_step };
    let p = process::<2, GroundStation>(&cfg, BTreeMap::new());
    let end = o.epoch + span * Unit::Second;
    let sol = if c.b(0.5) { p.predict_until(est, end) } else { p.predict_for(est, span * Unit::Second) };
    let sol = ok!(c, "predict", sol);
    let r = recs(&sol);
    c.check("first", r[0].est == est, || format!("{} instead of {est}", r[0].est));
    let last = r.last().unwrap().est;
    c.check("end", (last.epoch() - end).abs() <= 1 * Unit::Microsecond, || format!("{} instead of {end}", last.epoch()));
    let want = (span / seconds(max_step)).ceil() as usize;
    c.check("steps", r.len() >= 2.min(want + 1) && r.len() <= want + 3, || format!("{} estimates for {want} steps", r.len()));
    c.check("only predictions", r.iter().all(|r| r.res.is_none() && r.gain.is_none() && r.est.predicted), || "measurement updates".into());
    let scn = Scene { truth: s0, est, trks: vec![], arc: TrackingDataArc::default(), outliers: 0, clean: true, noisy: false };
    audit(c, &scn, &cfg, 2, &r[1..]);
    if cfg.pns.is_empty() {
        // Without any process noise, the steps do not matter.
        let phi = kep_stm(&o, span);
        let w = &phi * &p0 * phi.transpose();
        let (g, w) = (scaled(&dm(&last.covar)), scaled(&w));
        let d = (&g - &w).amax();
        c.check("mapped covariance", d <= 1e-5 * w.amax(), || format!("differs by {d:e} of {:e}", w.amax()));
        c.obs("predictions without any process noise", 1);
    }
    let mut flags: Vec<bool> = vec![];
    for w in r.windows(2) {
        flags.push(q_of(&cfg.pns, o.epoch, w[0].est.epoch(), &w[1].est.nominal_state.orbit).amax() > 0.0);
    }
    if flags.windows(2).any(|w| w[0] != w[1]) {
        c.obs("process noise switched during the prediction", 1);
    }
    c.nontrivial();
}
fn c30() {
    let mut m = Mon::new("C30", "a case is nontrivial when all the estimates of a prediction, or the contribution of a process noise, were compared with the reference");
    m.group("predictions", 300, 20000, predict_case);
    m.group("after a filter", 60, 4000, |c| {
        let Some((scn, cfg, sol)) = run_p::<3>(c, &Opt { hostile: true, biases: false, noise: true, long: false }, true) else { return };
        let Some(mut est) = sol.estimates.last().copied() else { return };
        if cfg.ekf {
            // The reference of the prediction is the updated state.
            est.nominal_state = est.state();
            est.state_deviation = V9::zeros();
        }
        let p = process::<3, PositionDevice>(&cfg, pd_map(&scn.trks));
        let span = c.f(10.0, 2000.0).round();
        let r = ok!(c, "predict", p.predict_for(est, span * Unit::Second));
        let r = recs(&r);
        c.check("first", r[0].est == est, || "changed".into());
        let scn = Scene { truth: scn.truth, est, trks: vec![], arc: TrackingDataArc::default(), outliers: 0, clean: true, noisy: false };
        audit(c, &scn, &cfg, 3, &r[1..]);
        c.nontrivial();
    });
    m.group("contributions", 300, 20000, |c| {
        let o = leo(c);
        let mut pn = Pn::random(c, o.epoch, 600.0);
        if c.b(0.5) {
            pn.decay = None;
        }
        if c.b(0.15) {
            pn.start = Some(o.epoch);
        }
        let mut p = pn.build();
        let dt = if c.b(0.2) { pn.disable.to_seconds() } else { c.f(0.0, 150.0) };
        let init = o.epoch - c.f(0.0, 5000.0) * Unit::Second;
        let prev = o.epoch - dt * Unit::Second;
        p.init_epoch = Some(init);
        if c.b(0.7) {
            p.prev_epoch = Some(prev);
        }
        c.p("noise", &pn);
        let got = ok!(c, "propagate", p.propagate::<Const<9>>(o, o.epoch - prev));
        let want = pn.q9(init, prev, &o);
        c.check("applies", got.is_some() == want.is_some(), || format!("{} instead of {}", got.is_some(), want.is_some()));
        if let (Some(g), Some(w)) = (got, want) {
            let (g, w) = (scaled(&dm(&g)), scaled(&w));
            let d = (&g - &w).amax();
            c.check("contribution", d <= 1e-9 * w.amax() + 1e-30, || format!("{g:e}{w:e}"));
            c.obs("contributions", 1);
        } else {
            c.obs("not applicable", 1);
        }
        let m = p.to_matrix(o.epoch);
        let off = pn.start.is_some_and(|s| s > o.epoch) || p.prev_epoch.is_some_and(|q| o.epoch - q > pn.disable);
        c.check("matrix", m.is_none() == off, || format!("{m:?}"));
        if let Some(m) = m {
            for i in 0..3 {
                let k = pn.decay.map_or(1.0, |d| (-d[i] * seconds(o.epoch - init)).exp());
                c.near("diagonal", m[(i, i)], pn.q[i] * k, 1e-9 * pn.q[i]);
                for j in 0..3 {
                    if i != j {
                        c.near("off diagonal", m[(i, j)], 0.0, 0.0);
                    }
                }
            }
        }
        c.nontrivial();
    });
    m.finish();
}

// ---------------------------------------------------------------------------------------------
// C33: OD solutions.

use arrow::array::{Array, BooleanArray, Float64Array, StringArray};
use nyx_space::io::ExportCfg;
use nyx_space::md::prelude::Traj;
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;

struct Dir(std::path::PathBuf);
impl Dir {
    fn new() -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("nyxod-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn feq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn veq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| feq(*a, *b))
}
fn oeq(a: &Option<DV>, b: &Option<DV>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => veq(a.as_slice(), b.as_slice()),
        _ => false,
    }
}
fn res_eq(a: &Res, b: &Res) -> bool {
    a.epoch == b.epoch
        && veq(a.prefit.as_slice(), b.prefit.as_slice())
        && veq(a.postfit.as_slice(), b.postfit.as_slice())
        && veq(a.whitened.as_slice(), b.whitened.as_slice())
        && veq(a.noise.as_slice(), b.noise.as_slice())
        && veq(a.real.as_slice(), b.real.as_slice())
        && veq(a.comp.as_slice(), b.comp.as_slice())
        && feq(a.ratio, b.ratio)
        && a.rejected == b.rejected
        && a.tracker == b.tracker
        && a.types == b.types
}
fn rec_eq(a: &Rec, b: &Rec) -> bool {
    a.est == b.est
        && match (&a.res, &b.res) {
            (None, None) => true,
            (Some(a), Some(b)) => res_eq(a, b),
            _ => false,
        }
        && match (&a.gain, &b.gain) {
            (None, None) => true,
            (Some(a), Some(b)) => veq(a.as_slice(), b.as_slice()),
            _ => false,
        }
        && oeq(&a.fsr, &b.fsr)
}
fn same(c: &mut Case, label: &str, got: &[Rec], want: &[&Rec]) {
    let ok = got.len() == want.len() && got.iter().zip(want).all(|(a, b)| rec_eq(a, b));
    c.check(label, ok, || {
        let i = got.iter().zip(want).position(|(a, b)| !rec_eq(a, b));
        format!("{} records instead of {}, first difference at {i:?}", got.len(), want.len())
    });
}
/// Regularized incomplete gamma function.
fn gammp(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    let lg = ln_gamma(a);
    if x < a + 1.0 {
        let (mut s, mut t, mut n) = (1.0 / a, 1.0 / a, a);
        for _ in 0..10000 {
            n += 1.0;
            t *= x / n;
            s += t;
            if t < s * 1e-17 {
                break;
            }
        }
        s * (-x + a * x.ln() - lg).exp()
    } else {
        let mut b = x + 1.0 - a;
        let mut cc = 1e300;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..10000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = 1.0 / (an * d + b);
            cc = b + an / cc;
            let del = d * cc;
            h *= del;
            if (del - 1.0).abs() < 1e-16 {
                break;
            }
        }
        1.0 - h * (-x + a * x.ln() - lg).exp()
    }
}
fn ln_gamma(x: f64) -> f64 {
    let g = [76.18009172947146, -86.50532032941677, 24.01409824083091, -1.231739572450155, 0.1208650973866179e-2, -0.5395239384953e-5];
    let t = x + 5.5 - (x + 0.5) * (x + 5.5).ln();
    let s: f64 = 1.000000000190015 + g.iter().enumerate().map(|(i, g)| g / (x + 1.0 + i as f64)).sum::<f64>();
    -t + (2.5066282746310005 * s / x).ln()
}
fn phi_cdf(z: f64) -> f64 {
    let e = gammp(0.5, z * z / 2.0);
    if z >= 0.0 { 0.5 + 0.5 * e } else { 0.5 - 0.5 * e }
}
fn table(p: &std::path::Path) -> Vec<arrow::record_batch::RecordBatch> {
    let r = ParquetRecordBatchReaderBuilder::try_new(std::fs::File::open(p).unwrap()).unwrap().build().unwrap();
    r.map(|x| x.unwrap()).collect()
}
fn fcol(b: &[arrow::record_batch::RecordBatch], name: &str) -> Option<Vec<Option<f64>>> {
    let mut out = vec![];
    for x in b {
        let a = x.column_by_name(name)?.as_any().downcast_ref::<Float64Array>()?;
        out.extend((0..a.len()).map(|i| (!a.is_null(i)).then(|| a.value(i))));
    }
    Some(out)
}
/// The column whose name starts and ends like this.
fn find(b: &[arrow::record_batch::RecordBatch], start: &str, has: &str) -> Option<String> {
    b[0].schema().fields().iter().map(|f| f.name().clone()).find(|n| n.starts_with(start) && n.contains(has))
}

fn solution<const M: usize>(c: &mut Case, types: &[MT]) -> Option<(Scene, Cfg, Sol<M, GroundStation>, bool)> {
    let smooth = c.b(0.3);
    let (scn, cfg, sol) = run_g::<M>(c, &Opt { hostile: true, biases: false, noise: true, long: false }, types, !smooth)?;
    if sol.estimates.is_empty() {
        return None;
    }
    let sol = if smooth { c.ok("smooth", sol.smooth(&almanac()))? } else { sol };
    Some((scn, cfg, sol, smooth))
}
fn ops<const M: usize>(c: &mut Case, types: &[MT]) {
    let Some((scn, _, sol, smooth)) = solution::<M>(c, types) else { return };
    let all = recs(&sol);
    let res: Vec<&Res> = all.iter().filter_map(|r| r.res.as_ref()).collect();
    // Partitions.
    let acc: Vec<Res> = sol.accepted_residuals().iter().map(res_of::<M>).collect();
    let rej: Vec<Res> = sol.rejected_residuals().iter().map(res_of::<M>).collect();
    let wa: Vec<&&Res> = res.iter().filter(|r| !r.rejected).collect();
    let wr: Vec<&&Res> = res.iter().filter(|r| r.rejected).collect();
    c.check("accepted residuals", acc.len() == wa.len() && acc.iter().zip(&wa).all(|(a, b)| res_eq(a, b)), || format!("{} instead of {}", acc.len(), wa.len()));
    c.check("rejected residuals", rej.len() == wr.len() && rej.iter().zip(&wr).all(|(a, b)| res_eq(a, b)), || format!("{} instead of {}", rej.len(), wr.len()));
    c.check("filter run", sol.is_filter_run() == all.iter().any(|r| r.gain.is_some()), || "wrong".into());
    c.check("smoother run", sol.is_smoother_run() == (smooth && all.len() > 1), || "wrong".into());
    let pairs: Vec<(usize, &Rec)> = all.iter().enumerate().collect();
    let zipped = sol.results().enumerate().all(|(i, (e, r))| *e == pairs[i].1.est && r.is_some() == pairs[i].1.res.is_some());
    c.check("results", zipped && sol.results().count() == all.len(), || "not aligned".into());
    // Selections.
    let mut uniq: Vec<(String, MT)> = vec![];
    for r in &res {
        for t in &r.types {
            let k = (r.tracker.clone().unwrap(), *t);
            if !uniq.contains(&k) {
                uniq.push(k);
            }
        }
    }
    let got: Vec<_> = sol.unique().into_iter().collect();
    c.check("unique", got.len() == uniq.len() && uniq.iter().all(|u| got.contains(u)), || format!("{got:?} instead of {uniq:?}"));
    let upd: Vec<&Rec> = all.iter().filter(|r| r.res.is_some()).collect();
    same(c, "without time updates", &recs(&sol.clone().drop_time_updates()), &upd);
    let ts: Vec<String> = scn.trks.iter().map(|t| t.name()).chain(["nobody".to_string()]).collect();
    let t = ts[c.u(0, ts.len() - 1)].clone();
    let w: Vec<&Rec> = upd.iter().copied().filter(|r| r.res.as_ref().unwrap().tracker.as_ref() == Some(&t)).collect();
    same(c, "of a tracker", &recs(&sol.clone().filter_by_tracker(t.clone())), &w);
    let w: Vec<&Rec> = all.iter().filter(|r| r.res.as_ref().is_none_or(|r| r.tracker.as_ref() != Some(&t))).collect();
    same(c, "without a tracker", &recs(&sol.clone().exclude_tracker(t.clone())), &w);
    let ty = c.pick(&[MT::Range, MT::Doppler, MT::Azimuth, MT::Elevation]);
    let w: Vec<&Rec> = upd.iter().copied().filter(|r| r.res.as_ref().unwrap().types.contains(&ty)).collect();
    same(c, "of a type", &recs(&sol.clone().filter_by_msr_type(ty)), &w);
    let parts = sol.clone().split();
    c.check("split", parts.len() == uniq.len(), || format!("{} parts instead of {}", parts.len(), uniq.len()));
    for u in &uniq {
        let w: Vec<&Rec> = upd.iter().copied().filter(|r| r.res.as_ref().is_some_and(|r| r.tracker.as_ref() == Some(&u.0) && r.types.contains(&u.1))).collect();
        let found = parts.iter().any(|p| {
            let g = recs(p);
            g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| rec_eq(a, b))
        });
        c.check("part", found, || format!("no part for {u:?}"));
    }
    // Merge two halves.
    let (mut a, mut b) = (sol.clone(), sol.clone());
    let keep: Vec<bool> = if c.b(0.5) {
        all.iter().map(|_| c.b(0.5)).collect()
    } else {
        let k = c.u(0, all.len());
        (0..all.len()).map(|i| i < k).collect()
    };
    for (s, side) in [(&mut a, true), (&mut b, false)] {
        let mut k = keep.iter();
        s.estimates.retain(|_| *k.next().unwrap() == side);
        let mut k = keep.iter();
        s.residuals.retain(|_| *k.next().unwrap() == side);
        let mut k = keep.iter();
        s.gains.retain(|_| *k.next().unwrap() == side);
        let mut k = keep.iter();
        s.filter_smoother_ratios.retain(|_| *k.next().unwrap() == side);
    }
    if c.b(0.4) {
        a.devices.retain(|k, _| k == "S0");
        b.devices.retain(|k, _| k != "S0");
        let t0 = sol.measurement_types.iter().next().copied();
        a.measurement_types.retain(|t| Some(*t) == t0);
        b.measurement_types.retain(|t| Some(*t) != t0);
    }
    let m = if c.b(0.5) { a.merge(b) } else { b.merge(a) };
    c.check("merged devices", m.devices.len() == sol.devices.len() && m.measurement_types.len() == sol.measurement_types.len(), || format!("{} devices", m.devices.len()));
    let g = recs(&m);
    c.check("merged count", g.len() == all.len(), || format!("{} instead of {}", g.len(), all.len()));
    c.check("chronological", g.windows(2).all(|w| w[0].est.epoch() <= w[1].est.epoch()), || "not sorted".into());
    let mut left: Vec<&Rec> = all.iter().collect();
    for r in &g {
        match left.iter().position(|x| rec_eq(x, r)) {
            Some(i) => {
                left.remove(i);
            }
            None => {
                c.fail("merged record", format!("unknown record at {}", r.est.epoch()));
                break;
            }
        }
    }
    // Look up.
    for (i, r) in all.iter().enumerate() {
        let e = r.est.epoch();
        let alone = all.iter().filter(|x| x.est.epoch() == e).count() == 1;
        if let Some(x) = sol.at(e) {
            c.check("epoch of the record", x.estimate.epoch() == e, || format!("{}", x.estimate.epoch()));
            if alone {
                let ok = x.estimate == r.est && x.gain.is_some() == r.gain.is_some() && x.filter_smoother_ratio.is_some() == r.fsr.is_some() && x.residual.as_ref().map(res_of::<M>).map(|x| r.res.as_ref().is_some_and(|r| res_eq(&x, r))).unwrap_or(r.res.is_none());
                c.check("record", ok, || format!("wrong record at {e}"));
            }
        } else {
            c.fail("record", format!("nothing at {e}"));
        }
        if i == 0 || all[i - 1].est.epoch() < e - 2 * Unit::Millisecond {
            c.check("no record", sol.at(e - 1 * Unit::Millisecond).is_none(), || format!("a record before {e}"));
        }
        if c.failed() {
            return;
        }
    }
    // Trajectory and ephemeris.
    let tr = ok!(c, "to_traj", sol.to_traj());
    let mut eps: Vec<Epoch> = all.iter().map(|r| r.est.epoch()).collect();
    eps.dedup();
    c.check("trajectory", tr.states.len() == eps.len() && tr.states.iter().zip(&eps).all(|(s, e)| s.epoch() == *e), || format!("{} states for {} epochs", tr.states.len(), eps.len()));
    for r in &all {
        let e = r.est.epoch();
        if all.iter().filter(|x| x.est.epoch() == e).count() == 1 {
            let s = tr.states[eps.binary_search(&e).unwrap()];
            c.check("trajectory state", s.orbit == r.est.state().orbit, || format!("{s}"));
        }
    }
    let ep = sol.to_ephemeris("x".into());
    for r in &all {
        let e = r.est.epoch();
        if all.iter().filter(|x| x.est.epoch() == e).count() == 1 {
            let cv = ep.covar_at(e, anise::ephemerides::ephemeris::LocalFrame::Inertial, &almanac());
            if let Ok(Some(cv)) = cv {
                let d = (0..6).flat_map(|i| (0..6).map(move |j| (i, j))).map(|(i, j)| ((cv.matrix[(i, j)] - r.est.covar[(i, j)]) / (r.est.covar[(i, i)] * r.est.covar[(j, j)]).sqrt()).abs()).fold(0.0, f64::max);
                c.check("ephemeris covariance", d < 1e-6, || format!("differs by {d:e} at {e}"));
                c.obs("ephemeris covariances", 1);
            }
        }
    }
    c.obs("records", all.len() as u64);
    c.nontrivial();
}
fn stats<const M: usize>(c: &mut Case, types: &[MT]) {
    let Some((scn, _, sol, smooth)) = solution::<M>(c, types) else { return };
    let all = recs(&sol);
    let res: Vec<&Res> = all.iter().filter_map(|r| r.res.as_ref()).collect();
    let n = res.len();
    if n == 0 {
        c.check("no residuals", sol.residual_ratio_within_threshold(1.0).is_err() && sol.ks_test_normality().is_err() && sol.nis_consistency(None).is_err() && sol.is_normal(None).is_err(), || "statistics of nothing".into());
        return;
    }
    let rms = |f: &dyn Fn(&Res) -> f64, v: &[&Res]| (v.iter().map(|r| f(r)).sum::<f64>() / v.len() as f64).sqrt();
    let w = rms(&|r| r.prefit.norm_squared(), &res);
    c.near("RMS of the prefits", sol.rms_prefit_residuals(), w, 1e-9 * w);
    let w = rms(&|r| r.ratio * r.ratio, &res);
    c.near("RMS of the ratios", sol.rms_residual_ratios(), w, 1e-9 * w);
    let acc: Vec<&Res> = res.iter().copied().filter(|r| !r.rejected).collect();
    if !acc.is_empty() && (!smooth || acc.len() == n) {
        let w = rms(&|r| r.postfit.norm_squared(), &acc);
        c.near("RMS of the postfits", sol.rms_postfit_residuals(), w, 1e-9 * w);
    }
    let t = c.f(0.1, 4.0);
    let w = res.iter().filter(|r| r.ratio <= t).count() as f64 / n as f64;
    let g = ok!(c, "threshold", sol.residual_ratio_within_threshold(t));
    c.near("within the threshold", g, w, 1e-12);
    {
        // A single residual has statistics too
        let k = c.u(0, n - 1);
        let mut one = sol.clone();
        for (i, r) in one.residuals.iter_mut().filter(|r| r.is_some()).enumerate() {
            if i != k {
                *r = None;
            }
        }
        let g = ok!(c, "threshold of one residual", one.residual_ratio_within_threshold(t));
        c.near("one residual within the threshold", g, if res[k].ratio <= t { 1.0 } else { 0.0 }, 1e-12);
        let w = res[k].prefit.norm();
        c.near("RMS of one prefit", one.rms_prefit_residuals(), w, 1e-9 * w);
    }
    if acc.is_empty() {
        c.check("nothing accepted", sol.ks_test_normality().is_err() && sol.nis_consistency(None).is_err(), || "statistics of nothing".into());
        return;
    }
    // Kolmogorov-Smirnov.
    let mut x: Vec<f64> = acc.iter().flat_map(|r| r.whitened.iter().copied()).collect();
    x.sort_by(f64::total_cmp);
    let k = x.len() as f64;
    let mean = x.iter().sum::<f64>() / k;
    let sd = (x.iter().map(|v| (v - mean).powi(2)).sum::<f64>() / k).sqrt();
    if sd > 1e-9 {
        let mut d: f64 = 0.0;
        for v in &x {
            // Supremum of the distance, on both sides of this step.
            let f = phi_cdf((v - mean) / sd);
            let below = x.iter().filter(|y| *y < v).count() as f64 / k;
            let upto = x.iter().filter(|y| *y <= v).count() as f64 / k;
            d = d.max((f - below).abs()).max((f - upto).abs());
        }
        let g = ok!(c, "ks", sol.ks_test_normality());
        c.near("Kolmogorov-Smirnov", g, d, 1e-8);
        if M == 1 {
            let alpha = c.pick(&[0.01, 0.05, 0.2, 0.5]);
            let crit = (-(alpha / 2.0f64).ln() / 2.0).sqrt() / k.sqrt();
            if (d - crit).abs() > 1e-6 {
                let g = ok!(c, "is_normal", sol.is_normal(Some(alpha)));
                c.check("normality", g == (d <= crit), || format!("{g} with {d} of {crit}"));
            }
        }
        c.obs("KS", 1);
    }
    // Innovations.
    let alpha = c.pick(&[0.01, 0.05, 0.1]);
    let q = ok!(c, "nis", sol.nis_consistency(Some(alpha)));
    let sum: f64 = acc.iter().map(|r| r.whitened.norm_squared()).sum();
    c.near("NIS", q.normalized_sum, sum, 1e-9 * sum);
    c.near("NIS from the ratios", q.normalized_sum, acc.iter().map(|r| r.ratio * r.ratio * M as f64).sum(), 1e-6 * sum + 1e-12);
    c.near("degrees of freedom", q.k, (acc.len() * M) as f64, 0.0);
    c.check("kind", !q.is_nees, || "NEES".into());
    bounds(c, &q, alpha);
    let dflt = ok!(c, "nis", sol.nis_consistency(None));
    bounds(c, &dflt, 0.05);
    // Errors.
    let mut truth = Traj::<Spacecraft>::new();
    for r in &all {
        let mut s = scn.truth;
        s.orbit = kep(&scn.truth, seconds(r.est.epoch() - scn.truth.epoch()));
        s.orbit.epoch = r.est.epoch();
        truth.states.push(s);
    }
    truth.finalize();
    if all.len() < 2 {
        return;
    }
    let size = if all[1].est.covar[(6, 6)] > 0.0 { 9 } else { 6 };
    let mut sum = 0.0;
    for r in all.iter().skip(1) {
        let p = dm(&r.est.covar).view((0, 0), (size, size)).into_owned();
        let ev = ((&p + p.transpose()) * 0.5).symmetric_eigenvalues();
        if ev.min() < 1e-11 * ev.max() {
            c.skip("covariance near singular");
            c.nontrivial();
            return;
        }
        let x = kep(&scn.truth, seconds(r.est.epoch() - scn.truth.epoch()));
        let s = r.est.state();
        let e = DV::from_fn(size, |i, _| match i {
            0..=2 => s.orbit.radius_km[i] - x.radius_km[i],
            3..=5 => s.orbit.velocity_km_s[i - 3] - x.velocity_km_s[i - 3],
            6 => s.srp.coeff_reflectivity - scn.truth.srp.coeff_reflectivity,
            7 => s.drag.coeff_drag - scn.truth.drag.coeff_drag,
            _ => s.mass.prop_mass_kg - scn.truth.mass.prop_mass_kg,
        });
        let s9 = scales();
        let es = DV::from_fn(size, |i, _| e[i] / s9[i]);
        let ps = DM::from_fn(size, size, |i, j| 0.5 * (p[(i, j)] + p[(j, i)]) / (s9[i] * s9[j]));
        sum += es.dot(&ps.cholesky().unwrap().solve(&es));
    }
    let q = ok!(c, "nees", sol.nees_consistency(&truth, Some(alpha)));
    c.near("NEES", q.normalized_sum, sum, 1e-2 * sum);
    c.near("degrees of freedom", q.k, ((all.len() - 1) * size) as f64, 0.0);
    c.check("kind", q.is_nees, || "NIS".into());
    bounds(c, &q, alpha);
    c.obs("NEES", 1);
    c.nontrivial();
}
/// The bounds are those of the two sided test.
fn bounds(c: &mut Case, q: &nyx_space::od::process::NormalizedConsistency, alpha: f64) {
    if q.k >= 10.0 {
        c.near("lower bound", gammp(q.k / 2.0, q.lower_bound / 2.0), alpha / 2.0, 0.15 * alpha);
        c.near("upper bound", gammp(q.k / 2.0, q.upper_bound / 2.0), 1.0 - alpha / 2.0, 0.15 * alpha);
    }
    let (lo, hi, s) = (q.lower_bound, q.upper_bound, q.normalized_sum);
    c.check("verdict", q.is_overconfident() == (s > hi) && q.is_underconfident() == (s < lo) && q.is_consistent() == (s > lo && s < hi), || format!("{q}"));
}
fn stored<const M: usize>(c: &mut Case, types: &[MT]) {
    let Some((scn, _, mut sol, _)) = solution::<M>(c, types) else { return };
    if c.b(0.07) {
        // More records than the containers read at once.
        let n = sol.estimates.len();
        let want = c.u(1025, 2200);
        for k in n..want {
            let mut e = sol.estimates[k % n];
            e.nominal_state.orbit.epoch += (k / n) as f64 * 7.0 * Unit::Day;
            e.nominal_state.mass.prop_mass_kg += k as f64 * 1e-3;
            sol.estimates.push(e);
            let (r, g, f) = (sol.residuals[k % n].clone(), sol.gains[k % n].clone(), sol.filter_smoother_ratios[k % n]);
            sol.residuals.push(r);
            sol.gains.push(g);
            sol.filter_smoother_ratios.push(f);
        }
        c.obs("long files", 1);
    }
    let all = recs(&sol);
    let d = Dir::new();
    let path = d.0.join("od.parquet");
    let mut cfg = ExportCfg::default();
    let mut want: Vec<&Rec> = all.iter().collect();
    if c.b(0.4) {
        let (a, b) = (all[c.u(0, all.len() - 1)].est.epoch(), all[c.u(0, all.len() - 1)].est.epoch());
        let off = if c.b(0.5) { 0.0 } else { c.f(-20.0, 20.0) };
        let (a, b) = (a.min(b) + off * Unit::Second, a.max(b) + off * Unit::Second);
        if c.b(0.8) {
            cfg.start_epoch = Some(a);
            want.retain(|r| r.est.epoch() >= a);
        }
        if c.b(0.8) {
            cfg.end_epoch = Some(b);
            want.retain(|r| r.est.epoch() <= b);
        }
        c.p("span", (cfg.start_epoch, cfg.end_epoch));
    }
    let out = ok!(c, "to_parquet", sol.to_parquet(&path, cfg));
    c.check("file", out.exists(), || "no file".into());
    let back = ok!(c, "from_parquet", Sol::<M, GroundStation>::from_parquet(&out, gs_map(&scn.trks)));
    let got = recs(&back);
    c.check("count", got.len() == want.len(), || format!("{} instead of {}", got.len(), want.len()));
    if got.len() != want.len() || got.is_empty() {
        return;
    }
    let ty: Vec<MT> = back.measurement_types.iter().copied().collect();
    let wt: Vec<MT> = sol.measurement_types.iter().copied().collect();
    c.check("types", ty == wt, || format!("{ty:?} instead of {wt:?}"));
    c.check("devices", back.devices.len() == scn.trks.len(), || "lost".into());
    let tab = table(&out);
    let col = |n: &str| fcol(&tab, n);
    let axes = ["X", "Y", "Z", "Vx", "Vy", "Vz", "Cr", "Cd", "Mass"];
    let mut sig: Vec<Vec<Option<f64>>> = vec![];
    let mut ricc: Vec<Vec<Option<f64>>> = vec![];
    for (i, a) in axes.iter().enumerate() {
        // Columns in the integration frame are named after it.
        let name = tab[0].schema().fields().iter().map(|f| f.name().clone()).find(|n| n.starts_with(&format!("Sigma {a} (")) && !n.contains("(RIC)"));
        let Some(name) = name else {
            c.fail("columns", format!("no sigma of {a}"));
            return;
        };
        sig.push(col(&name).unwrap());
        if i < 6 {
            let Some(name) = find(&tab, &format!("Sigma {a} (RIC)"), "") else {
                c.fail("columns", format!("no RIC sigma of {a}"));
                return;
            };
            ricc.push(col(&name).unwrap());
        }
    }
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        let (gs, ws) = (g.est.state(), w.est.state());
        c.check("epoch", (g.est.epoch() - w.est.epoch()).abs() < 2 * Unit::Microsecond, || format!("{} instead of {}", g.est.epoch(), w.est.epoch()));
        c.vnear("position", gs.orbit.radius_km.as_slice(), ws.orbit.radius_km.as_slice(), 1e-9);
        c.vnear("velocity", gs.orbit.velocity_km_s.as_slice(), ws.orbit.velocity_km_s.as_slice(), 1e-12);
        c.check("frame", gs.orbit.frame.ephem_origin_match(ws.orbit.frame) && gs.orbit.frame.orient_origin_match(ws.orbit.frame), || format!("{}", gs.orbit.frame));
        c.near("dry mass", gs.mass.dry_mass_kg, ws.mass.dry_mass_kg, 1e-9);
        c.near("propellant mass", gs.mass.prop_mass_kg, ws.mass.prop_mass_kg, 1e-9);
        c.near("Cr", gs.srp.coeff_reflectivity, ws.srp.coeff_reflectivity, 1e-12);
        c.near("Cd", gs.drag.coeff_drag, ws.drag.coeff_drag, 1e-12);
        c.near("SRP area", gs.srp.area_m2, ws.srp.area_m2, 1e-9);
        c.near("drag area", gs.drag.area_m2, ws.drag.area_m2, 1e-9);
        let (a, b) = (scaled(&dm(&g.est.covar)), scaled(&dm(&w.est.covar)));
        let df = (&a - &b).amax();
        c.check("covariance", df <= 1e-9 * b.amax(), || format!("differs by {df:e}"));
        c.check("gain", g.gain.is_some() == w.gain.is_some() && g.gain.as_ref().is_none_or(|x| veq(x.as_slice(), w.gain.as_ref().unwrap().as_slice())), || format!("{:?} instead of {:?}", g.gain, w.gain));
        c.check("filter-smoother ratio", oeq(&g.fsr, &w.fsr), || format!("{:?} instead of {:?}", g.fsr, w.fsr));
        c.check("residual", g.res.is_some() == w.res.is_some(), || format!("{} instead of {}", g.res.is_some(), w.res.is_some()));
        for i in 0..9 {
            c.near("sigma", sig[i][k].unwrap_or(f64::NAN), w.est.covar[(i, i)].sqrt(), 1e-9 * w.est.covar[(i, i)].sqrt());
        }
        // Position in the RIC frame, without any rotation of the frame itself.
        let m = ric(&ws.orbit.radius_km, &ws.orbit.velocity_km_s);
        let pp = w.est.covar.fixed_view::<3, 3>(0, 0);
        let rp = m * pp * m.transpose();
        for i in 0..3 {
            c.near("RIC sigma", ricc[i][k].unwrap_or(f64::NAN), rp[(i, i)].sqrt(), 1e-6 * rp[(i, i)].sqrt());
        }
        // Velocity in the rotating frame.
        let h = ws.orbit.radius_km.cross(&ws.orbit.velocity_km_s);
        let om = h.norm() / ws.orbit.radius_km.norm_squared();
        let wx = Matrix3::new(0.0, -om, 0.0, om, 0.0, 0.0, 0.0, 0.0, 0.0);
        let mut t6 = DM::zeros(6, 6);
        t6.view_mut((0, 0), (3, 3)).copy_from(&m);
        t6.view_mut((3, 3), (3, 3)).copy_from(&m);
        t6.view_mut((3, 0), (3, 3)).copy_from(&(-(wx * m)));
        let p6 = dm(&w.est.covar).view((0, 0), (6, 6)).into_owned();
        let v6 = &t6 * &p6 * t6.transpose();
        for i in 3..6 {
            c.near("RIC sigma of the velocity", ricc[i][k].unwrap_or(f64::NAN), v6[(i, i)].sqrt(), 1e-5 * v6[(i, i)].sqrt());
        }
        if let (Some(a), Some(b)) = (&g.res, &w.res) {
            c.check("residual flags", a.rejected == b.rejected && a.tracker == b.tracker, || format!("{a:?} instead of {b:?}"));
            c.check("ratio", feq(a.ratio, b.ratio), || format!("{} instead of {}", a.ratio, b.ratio));
            c.check("whitened", veq(a.whitened.as_slice(), b.whitened.as_slice()), || format!("{} instead of {}", a.whitened, b.whitened));
            c.check("residual types", a.types.len() == b.types.len() && b.types.iter().all(|t| a.types.contains(t)), || format!("{:?} instead of {:?}", a.types, b.types));
            for (i, t) in b.types.iter().enumerate() {
                let Some(j) = a.types.iter().position(|x| x == t) else { continue };
                c.check("residual values", feq(a.prefit[j], b.prefit[i]) && feq(a.postfit[j], b.postfit[i]) && feq(a.noise[j], b.noise[i]) && feq(a.real[j], b.real[i]) && feq(a.comp[j], b.comp[i]), || format!("{t:?}: {a:?} instead of {b:?}"));
            }
            c.obs("stored residuals", 1);
        }
        if c.failed() {
            return;
        }
    }
    // The raw columns.
    for t in &wt {
        for (what, f) in [
            ("Prefit residual", (|r: &Res, i: usize| r.prefit[i]) as fn(&Res, usize) -> f64),
            ("Postfit residual", |r, i| r.postfit[i]),
            ("Real observation", |r, i| r.real[i]),
            ("Computed observation", |r, i| r.comp[i]),
        ] {
            let Some(v) = find(&tab, &format!("{what}: {t:?}"), "").and_then(|n| col(&n)) else {
                c.fail("columns", format!("no {what} of {t:?}"));
                return;
            };
            for (k, w) in want.iter().enumerate() {
                let x = w.res.as_ref().and_then(|r| r.types.iter().position(|y| y == t).map(|i| f(r, i)));
                c.check("column", x.is_some() == v[k].is_some() && x.is_none_or(|x| feq(x, v[k].unwrap())), || format!("{what} of {t:?}: {:?} instead of {x:?}", v[k]));
            }
        }
    }
    let mut rejected = vec![];
    let mut trackers = vec![];
    for b in &tab {
        let a = b.column_by_name("Residual Rejected").and_then(|a| a.as_any().downcast_ref::<BooleanArray>().cloned());
        let t = b.column_by_name("Tracker").and_then(|a| a.as_any().downcast_ref::<StringArray>().cloned());
        let (Some(a), Some(t)) = (a, t) else {
            c.fail("columns", "no rejections or trackers");
            return;
        };
        rejected.extend((0..a.len()).map(|i| (!a.is_null(i)).then(|| a.value(i))));
        trackers.extend((0..t.len()).map(|i| (!t.is_null(i)).then(|| t.value(i).to_string())));
    }
    for (k, w) in want.iter().enumerate() {
        c.check("flag columns", rejected[k] == w.res.as_ref().map(|r| r.rejected) && trackers[k] == w.res.as_ref().and_then(|r| r.tracker.clone()), || format!("row {k}"));
    }
    c.obs("stored records", got.len() as u64);
    c.nontrivial();
}
fn c33() {
    let mut m = Mon::new("C33", "a case is nontrivial when the selections, statistics or files of a solution were compared with the recorded estimates and residuals");
    m.assume("estimates which share their epoch are not looked up by epoch");
    const RD: [MT; 2] = [MT::Range, MT::Doppler];
    const ALL: [MT; 4] = [MT::Range, MT::Doppler, MT::Azimuth, MT::Elevation];
    m.group("selections", 60, 3000, |c| ops::<2>(c, &RD));
    m.group("selections, scalars", 40, 3000, |c| ops::<1>(c, &ALL));
    m.group("selections, wide", 30, 2000, |c| ops::<3>(c, &ALL));
    m.group("statistics", 60, 4000, |c| stats::<2>(c, &RD));
    m.group("statistics, scalars", 60, 4000, |c| stats::<1>(c, &RD));
    m.group("files", 40, 1500, |c| stored::<2>(c, &RD));
    m.group("files, scalars", 30, 1500, |c| stored::<1>(c, &ALL));
    m.group("files, wide", 20, 1000, |c| stored::<3>(c, &ALL));
    m.group("damaged files", 30, 1000, |c| {
        let Some((scn, _, sol, _)) = solution::<2>(c, &RD) else { return };
        let d = Dir::new();
        let path = d.0.join("od.parquet");
        let kind = c.u(0, 3);
        match kind {
            0 => std::fs::write(&path, b"not a parquet file").unwrap(),
            1 => {}
            2 => {
                ok!(c, "to_parquet", sol.to_parquet(&path, ExportCfg::default()));
                let b = std::fs::read(&path).unwrap();
                let n = c.u(0, b.len() - 1);
                std::fs::write(&path, &b[..n]).unwrap();
            }
            _ => {
                // A trajectory instead of a solution.
                let t = ok!(c, "to_traj", sol.to_traj());
                ok!(c, "to_parquet", t.to_parquet(&path, ExportCfg::default()));
            }
        }
        let r = Sol::<2, GroundStation>::from_parquet(&path, gs_map(&scn.trks));
        c.check("refused", r.is_err(), || format!("accepted a damaged file ({kind})"));
        let empty = Sol::<2, GroundStation>::new(gs_map(&scn.trks), sol.measurement_types.clone());
        c.check("empty", empty.to_parquet(d.0.join("e.parquet"), ExportCfg::default()).is_err() && empty.to_traj().is_err(), || "exported nothing".into());
        c.nontrivial();
    });
    m.finish();
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C26") => c26(),
        Some("C27") => c27(),
        Some("C28") => c28(),
        Some("C29") => c29(),
        Some("C30") => c30(),
        Some("C33") => c33(),
        x => {
            eprintln!("unknown property {x:?}");
            std::process::exit(2)
        }
    }
}
