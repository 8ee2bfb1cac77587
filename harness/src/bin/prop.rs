//! C01-C04: propagators.
use anise::analysis::prelude::*;
use anise::constants::frames::EARTH_ECLIPJ2000;
use anise::prelude::*;
use hifitime::{Duration, Epoch, Unit};
use nalgebra::{Const, OVector};
use nyx_space::cosmic::{Spacecraft, State};
use nyx_space::dynamics::*;
use nyx_space::propagators::*;
use nyxmon::alm::*;
use nyxmon::gens::*;
use nyxmon::math::*;
use nyxmon::mon::*;
use nyxmon::ok;
use std::sync::Arc;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::channel;

/// Monitor: counts every evaluation of the equations of motion and stops runaway propagations.
#[derive(Clone)]
struct Counted {
    inner: SpacecraftDynamics,
    n: Arc<AtomicU64>,
    limit: u64,
    wob: Option<Wob>,
    /// Component of the derivatives which is not a number after this number of evaluations
    nan: Option<(usize, u64)>,
    /// Recorded derivatives (of the Cartesian state only), and the frame seen by the dynamics
    log: Option<Arc<Mutex<Vec<[f64; 6]>>>>,
    seen: Option<Arc<Mutex<Option<Frame>>>>,
}
/// An explicit time dependence with a known solution: the center of attraction oscillates with time.
#[derive(Clone, Copy, Debug)]
struct Wob {
    a: V3,
    w: f64,
    phi: f64,
    t0: Epoch,
}
impl Wob {
    fn random(c: &mut Case, o: &Orbit) -> Self {
        let n = std::f64::consts::TAU / period_s(o);
        let w = n * c.f(1.0, 15.0);
        let a = o.sma_km().unwrap() * (1.0 - o.ecc().unwrap()) * 0.05 * (n / w).powi(2);
        let wob = Wob { a: V3::new(c.f(-a, a), c.f(-a, a), c.f(-a, a)), w, phi: c.f(0.0, 6.28), t0: o.epoch };
        c.p("forcing", wob);
        wob
    }
    fn at(&self, t: f64) -> (V3, V3, V3) {
        let (s, co) = (self.w * t + self.phi).sin_cos();
        (self.a * s, self.a * (self.w * co), self.a * (-self.w * self.w * s))
    }
}
/// The exact flow from this orbit over dt seconds
fn flow(o: &Orbit, dt: f64, wob: &Option<Wob>) -> (V3, V3) {
    match wob {
        None => kep(o, dt),
        Some(w) => {
            let t = (o.epoch - w.t0).to_seconds();
            let (d, dv, _) = w.at(t);
            let (r, v) = kepler(o.frame.mu_km3_s2().unwrap(), o.radius_km - d, o.velocity_km_s - dv, dt);
            let (d, dv, _) = w.at(t + dt);
            (r + d, v + dv)
        }
    }
}
impl Counted {
    fn new(inner: SpacecraftDynamics, limit: u64) -> Self {
        Self::forced(inner, limit, None)
    }
    fn forced(inner: SpacecraftDynamics, limit: u64, wob: Option<Wob>) -> Self {
        Counted { inner, n: Arc::new(AtomicU64::new(0)), limit, wob, nan: None, log: None, seen: None }
    }
    fn count(&self) -> u64 {
        self.n.load(Ordering::SeqCst)
    }
}
impl Dynamics for Counted {
    type HyperdualSize = Const<9>;
    type StateType = Spacecraft;
    fn eom(
        &self,
        dt: f64,
        x: &OVector<f64, Const<90>>,
        ctx: &Spacecraft,
        almanac: &Almanac,
    ) -> Result<OVector<f64, Const<90>>, DynamicsError> {
        let n = self.n.fetch_add(1, Ordering::SeqCst);
        if n > self.limit {
            return Err(DynamicsError::FuelExhausted { sc: Box::new(*ctx) });
        }
        let mut d = self.raw(dt, x, ctx, almanac)?;
        if let Some((i, from)) = self.nan
            && n >= from
        {
            d[i] = f64::NAN;
        }
        if let Some(l) = &self.log {
            l.lock().unwrap().push([d[0], d[1], d[2], d[3], d[4], d[5]]);
        }
        if let Some(f) = &self.seen {
            *f.lock().unwrap() = Some(ctx.orbit.frame);
        }
        Ok(d)
    }
    fn finally(&self, s: Spacecraft, almanac: &Almanac) -> Result<Spacecraft, DynamicsError> {
        self.inner.finally(s, almanac)
    }
}
impl Counted {
    fn raw(&self, dt: f64, x: &OVector<f64, Const<90>>, ctx: &Spacecraft, almanac: &Almanac) -> Result<OVector<f64, Const<90>>, DynamicsError> {
        match &self.wob {
            None => self.inner.eom(dt, x, ctx, almanac),
            Some(w) => {
                let (d, dv, da) = w.at((ctx.epoch() - w.t0).to_seconds() + dt);
                let mut y = *x;
                for i in 0..3 {
                    y[i] -= d[i];
                    y[i + 3] -= dv[i];
                }
                let mut f = self.inner.eom(dt, &y, ctx, almanac)?;
                for i in 0..3 {
                    f[i] += dv[i];
                    f[i + 3] += da[i];
                }
                Ok(f)
            }
        }
    }
}

const CK5: [f64; 6] = [37.0 / 378.0, 0.0, 250.0 / 621.0, 125.0 / 594.0, 0.0, 512.0 / 1771.0];
const CK4: [f64; 6] = [2825.0 / 27648.0, 0.0, 18575.0 / 48384.0, 13525.0 / 55296.0, 277.0 / 14336.0, 0.25];
const DP5: [f64; 7] = [35.0 / 384.0, 0.0, 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0, 0.0];
const DP4: [f64; 7] = [5179.0 / 57600.0, 0.0, 7571.0 / 16695.0, 393.0 / 640.0, -92097.0 / 339200.0, 187.0 / 2100.0, 1.0 / 40.0];

const ADAPT: [IntegratorMethod; 5] = [
    IntegratorMethod::RungeKutta89,
    IntegratorMethod::DormandPrince78,
    IntegratorMethod::DormandPrince45,
    IntegratorMethod::CashKarp45,
    IntegratorMethod::Verner56,
];
const ALL: [IntegratorMethod; 6] = [
    IntegratorMethod::RungeKutta89,
    IntegratorMethod::DormandPrince78,
    IntegratorMethod::DormandPrince45,
    IntegratorMethod::CashKarp45,
    IntegratorMethod::Verner56,
    IntegratorMethod::RungeKutta4,
];
const CTRL: [ErrorControl; 7] = [
    ErrorControl::RSSCartesianState,
    ErrorControl::RSSCartesianStep,
    ErrorControl::RSSState,
    ErrorControl::RSSStep,
    ErrorControl::LargestError,
    ErrorControl::LargestState,
    ErrorControl::LargestStep,
];

fn twobody() -> SpacecraftDynamics {
    SpacecraftDynamics::new(OrbitalDynamics::two_body())
}
fn two_or_three(c: &mut Case) -> (SpacecraftDynamics, bool) {
    if c.b(0.5) {
        (twobody(), true)
    } else {
        (SpacecraftDynamics::new(OrbitalDynamics::from_model(Arc::new(PointMasses::new(vec![301, 10])))), false)
    }
}
fn kep(o: &Orbit, dt: f64) -> (V3, V3) {
    kepler(o.frame.mu_km3_s2().unwrap(), o.radius_km, o.velocity_km_s, dt)
}
fn bits(s: &Spacecraft) -> Vec<u64> {
    s.to_vector().iter().map(|x| x.to_bits()).collect()
}
fn dur(c: &mut Case, per: f64, maxp: f64) -> Duration {
    let s = match c.u(0, 9) {
        0 => c.f(1e-6, 1e-2),
        1 => c.f(0.01, 30.0),
        2 => (c.f(1.0, 40.0)).floor() * 60.0,
        _ => c.f(30.0, per * maxp),
    };
    let d = s * Unit::Second;
    if c.b(0.5) { -d } else { d }
}

fn opts(c: &mut Case, per: f64) -> (IntegratorMethod, IntegratorOptions) {
    let fixed = c.b(0.4);
    if fixed {
        let m = c.pick(&ALL);
        let st = match c.u(0, 2) {
            0 => (c.f(5.0, per / 60.0)) * Unit::Second,
            1 => 60.0 * Unit::Second,
            _ => c.u(7, 90) as f64 * Unit::Second,
        };
        c.p("method", m);
        c.p("fixed", st.to_string());
        (m, IntegratorOptions::with_fixed_step(st))
    } else {
        let m = c.pick(&ADAPT);
        let max = c.f(per / 40.0, per / 8.0) * Unit::Second;
        // A large minimum step binds when a step is tried again
        let large = c.b(0.2);
        let min = if large { c.f(0.2, 0.8) * max } else { c.f(0.001, 1.0) * Unit::Second };
        let tol = if large { c.logu(1e-15, 1e-10) } else { c.logu(1e-12, 1e-7) };
        let ctrl = c.pick(&CTRL);
        c.p("min", min.to_string());
        let init = (c.f(2.0, per / 100.0)) * Unit::Second;
        let o = if c.b(0.3) {
            // With the setters, which keep the initial step within both of them
            let mut o = IntegratorOptions::with_tolerance(tol);
            o.error_ctrl = ctrl;
            o.init_step = if c.b(0.5) { 3.0 * max } else { 0.3 * min };
            c.p("init before the setters", o.init_step.to_string());
            if c.b(0.5) {
                o.set_max_step(max);
                o.set_min_step(min);
            } else {
                o.set_min_step(min);
                o.set_max_step(max);
            }
            c.check("setters", o.min_step == min && o.max_step == max && o.init_step >= min && o.init_step <= max, || format!("{o:?}"));
            o
        } else {
            let mut o = IntegratorOptions::with_adaptive_step(min, max, tol, ctrl);
            o.init_step = if large { if c.b(0.5) { max } else { c.f(1.0, (max.to_seconds() / min.to_seconds()).min(3.0)) * min } } else { init };
            o
        };
        c.p("method", m);
        c.p("ctrl", ctrl);
        c.p("tol", tol);
        c.p("max", max.to_string());
        (m, o)
    }
}

fn event(c: &mut Case) -> Event {
    match c.u(0, 3) {
        0 => Event::apoapsis(),
        1 => Event::periapsis(),
        2 => Event::new(ScalarExpr::Element(OrbitalElement::TrueAnomaly), Condition::Equals(c.f(5.0, 355.0))),
        _ => Event::new(ScalarExpr::Element(OrbitalElement::Z), Condition::Equals(0.0)),
    }
}

fn c01() {
    let mut m = Mon::new(
        "C01",
        "Random orbits about five bodies, six integration methods, seven error controls, fixed and adaptive steps, forward and backward, and histories of up to 8 calls (durations, epochs, trajectories, events, zero durations) on one propagator instance. Non-trivial: at least two integration steps were published.",
    );
    m.assume("initial step within [min step, max step]");
    let alm = almanac();
    m.group("steps", 500, 8000, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = sc(c, o);
        let (meth, op) = opts(c, per);
        let d = dur(c, per, 3.0);
        c.p("dur", d.to_string());
        let cd = Counted::new(two_or_three(c).0, 4_000_000);
        let prop = Propagator::new(cd.clone(), meth, op);
        let mut inst = prop.with(s0, alm.clone()).quiet();
        let (tx, rx) = channel();
        let by_epoch = c.b(0.5);
        let want = o.epoch + d;
        let r = if by_epoch { inst.until_epoch_with_channel(want, tx) } else { inst.for_duration_with_channel(d, tx) };
        let r = ok!(c, "propagation-fails", r);
        c.check("landing-epoch", r.epoch() == want, || format!("{} vs {}", r.epoch(), want));
        c.check("instance-state", inst.state.epoch() == want && bits(&inst.state) == bits(&r), || "instance state differs from the returned state".into());
        let st: Vec<Spacecraft> = rx.into_iter().collect();
        c.obs("published_states", st.len() as u64);
        c.obs("eom_evaluations", cd.count());
        if st.len() >= 2 {
            c.nontrivial();
        }
        let sg = if d.is_negative() { -1.0 } else { 1.0 };
        let mut prev = o.epoch;
        let n = st.len();
        if !c.check("publishes-something", n >= 1, || "no state published".into()) {
            return;
        }
        for (i, s) in st.iter().enumerate() {
            let h = (s.epoch() - prev).to_seconds() * sg;
            c.check("monotonic-epochs", h > 0.0, || format!("step {i} of {h} s (direction {sg})"));
            c.check("within-bounds", (s.epoch() - want).to_seconds() * sg <= 0.0, || format!("state {i} at {} beyond {want}", s.epoch()));
            if i + 1 < n {
                if op.fixed_step {
                    c.check("fixed-step-size", (s.epoch() - prev).abs() == op.init_step, || format!("step {i} is {} instead of {}", s.epoch() - prev, op.init_step));
                } else {
                    c.check("max-step", h <= op.max_step.to_seconds() + 2e-9, || format!("step {i} of {h} s exceeds max {}", op.max_step));
                    c.check("min-step", h >= op.min_step.to_seconds() - 2e-9, || format!("step {i} of {h} s below min {}", op.min_step));
                }
            } else {
                let bound = if op.fixed_step { op.init_step } else { op.max_step };
                c.check("last-step", h <= bound.to_seconds() + 2e-9, || format!("last step of {h} s"));
            }
            prev = s.epoch();
        }
        if op.fixed_step {
            let q = d.abs().total_nanoseconds() / op.init_step.total_nanoseconds();
            let rem = d.abs().total_nanoseconds() % op.init_step.total_nanoseconds();
            let want_n = q + i128::from(rem != 0);
            c.check("fixed-step-count", n as i128 == want_n, || format!("{n} steps, expected {want_n}"));
        }
        c.check("last-published-is-end", bits(st.last().unwrap()) == bits(&r), || "last published state is not the returned state".into());
        c.check("frame-kept", r.orbit.frame == o.frame, || format!("{} vs {}", r.orbit.frame, o.frame));
        c.check("non-integrated-kept", r.mass == s0.mass && r.srp == s0.srp && r.drag == s0.drag, || format!("{r:?} vs {s0:?}"));
    });
    // Histories on one instance
    m.group("history", 250, 4000, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = sc(c, o);
        let (meth, mut op) = opts(c, per);
        if op.fixed_step {
            op = IntegratorOptions::with_fixed_step(op.init_step.min(per / 120.0 * Unit::Second));
        } else {
            op.tolerance = 1e-11;
        }
        let precise = if op.fixed_step { matches!(meth, IntegratorMethod::RungeKutta89 | IntegratorMethod::DormandPrince78 | IntegratorMethod::Verner56) } else { op.min_step.to_seconds() <= 1.0 };
        let cd = Counted::new(twobody(), 6_000_000);
        let prop = Propagator::new(cd.clone(), meth, op);
        let mut inst = prop.with(s0, alm.clone()).quiet();
        let n = c.u(2, 8);
        let mut cur = inst.state;
        for k in 0..n {
            let opk = c.u(0, 7);
            let d = dur(c, per, 1.2);
            c.p(&format!("op{k}"), (opk, d.to_string()));
            let want = cur.epoch() + d;
            let before = cur;
            let res: Option<Spacecraft> = match opk {
                0 | 1 => c.ok("history-propagation", inst.for_duration(d)),
                2 => c.ok("history-propagation", inst.until_epoch(want)),
                3 => c.ok("history-propagation", inst.for_duration_with_traj(d)).map(|x| x.0),
                4 => c.ok("history-propagation", inst.until_epoch_with_traj(want)).map(|x| x.0),
                5 => {
                    let r = ok!(c, "history-zero", inst.for_duration(Duration::ZERO));
                    c.check("zero-duration-noop", bits(&r) == bits(&before) && r.epoch() == before.epoch() && bits(&inst.state) == bits(&before), || "zero duration changed the state".into());
                    continue;
                }
                _ => {
                    let ev = event(c);
                    let lim = per * 1.5 * Unit::Second;
                    let lim = if d.is_negative() { -lim } else { lim };
                    c.obs("event_calls", 1);
                    match inst.until_event(lim, &ev, None) {
                        Ok((s, _)) => {
                            c.obs("events_found", 1);
                            let dt = (s.epoch() - before.epoch()).to_seconds() * if d.is_negative() { -1.0 } else { 1.0 };
                            c.check("event-in-window", dt >= 0.0 && dt <= lim.abs().to_seconds(), || format!("event {dt} s after the start"));
                            // The instance has gone past the event but not backwards nor out of the window.
                            let di = (inst.state.epoch() - before.epoch()).to_seconds() * if d.is_negative() { -1.0 } else { 1.0 };
                            c.check("event-instance-epoch", di >= dt - 1e-6 && di <= lim.abs().to_seconds() + 1e-6, || format!("instance is {di} s after the start, event at {dt}"));
                        }
                        Err(e) => {
                            c.obs("events_not_found", 1);
                            c.p("everr", format!("{e}").chars().take(100).collect::<String>());
                        }
                    }
                    let st = inst.state;
                    c.check("event-frame-restored", st.orbit.frame == o.frame, || format!("{}", st.orbit.frame));
                    if precise {
                        let (r, v) = kep(&before.orbit, (st.epoch() - before.epoch()).to_seconds());
                        let tol = 1e-5 * before.orbit.rmag_km() + 1e-3;
                        c.check("history-state", (r - st.orbit.radius_km).norm() < tol && (v - st.orbit.velocity_km_s).norm() < tol, || format!("state after event call off by {} km", (r - st.orbit.radius_km).norm()));
                    }
                    cur = st;
                    continue;
                }
            };
            let Some(r) = res else { return };
            c.check("history-landing", r.epoch() == want && inst.state.epoch() == want, || format!("op {k}: {} vs {want}", r.epoch()));
            if precise {
                let (rk, vk) = kep(&before.orbit, d.to_seconds());
                let tol = 1e-5 * before.orbit.rmag_km() + 1e-3;
                c.check("history-state", (rk - r.orbit.radius_km).norm() < tol && (vk - r.orbit.velocity_km_s).norm() < tol, || format!("op {k} off by {} km", (rk - r.orbit.radius_km).norm()));
            }
            c.nontrivial();
            cur = r;
        }
        c.obs("eom_evaluations", cd.count());
    });
    // Integration frame: everything the user sees stays in the frame of the initial state.
    m.group("integration-frame", 80, 800, |c| {
        let o = leo(c);
        let per = period_s(&o);
        let s0 = sc(c, o);
        let mut op = IntegratorOptions::with_adaptive_step(0.01 * Unit::Second, 300.0 * Unit::Second, 1e-11, ErrorControl::RSSCartesianStep);
        op.init_step = 10.0 * Unit::Second;
        // The parameters of the integration frame are those which are used
        let mut inf = almanac().frame_info(EARTH_ECLIPJ2000).unwrap();
        let own = c.b(0.5);
        if own {
            inf.mu_km3_s2 = Some(inf.mu_km3_s2.unwrap() * c.f(0.98, 1.02));
            inf.shape = Some(anise::structure::planetocentric::ellipsoid::Ellipsoid::from_spheroid(c.f(6000.0, 6400.0), c.f(5900.0, 6000.0)));
            c.p("frame", inf.to_string());
        }
        let mu_if = inf.mu_km3_s2.unwrap();
        op.integration_frame = Some(inf);
        let d = c.f(200.0, per) * Unit::Second;
        let d = if c.b(0.5) { -d } else { d };
        c.p("dur", d.to_string());
        let prop = {
            let mut cd = Counted::new(twobody(), 4_000_000);
            cd.seen = Some(Default::default());
            Propagator::rk89(cd, op)
        };
        let mut inst = prop.with(s0, alm.clone()).quiet();
        let (r, traj) = ok!(c, "intframe-propagation", inst.for_duration_with_traj(d));
        c.check("end-frame", r.orbit.frame.orient_origin_match(o.frame) && r.orbit.frame.ephem_origin_match(o.frame), || format!("{}", r.orbit.frame));
        c.check("instance-frame", inst.state.orbit.frame.orient_origin_match(o.frame), || format!("{}", inst.state.orbit.frame));
        for s in &traj.states {
            c.check("trajectory-frame", s.orbit.frame.orient_origin_match(o.frame), || format!("{}", s.orbit.frame));
        }
        c.obs("states", traj.states.len() as u64);
        let seen = prop.dynamics.seen.as_ref().unwrap().lock().unwrap().unwrap();
        c.check("dynamics-frame", seen.mu_km3_s2 == inf.mu_km3_s2 && seen.shape == inf.shape && seen.orient_origin_match(inf), || format!("{seen:?} instead of {inf:?}"));
        let (rk, vk) = kepler(mu_if, o.radius_km, o.velocity_km_s, d.to_seconds());
        c.vnear("intframe-position", r.orbit.radius_km.as_slice(), rk.as_slice(), 1e-4);
        c.vnear("intframe-velocity", r.orbit.velocity_km_s.as_slice(), vk.as_slice(), 1e-7);
        // And the instance is still usable
        let ev = Event::new(ScalarExpr::Element(OrbitalElement::Z), Condition::Equals(0.0));
        let lim = 1.5 * per * Unit::Second;
        let _ = inst.until_event(if c.b(0.5) { lim } else { -lim }, &ev, None);
        c.check("event-frame-restored", inst.state.orbit.frame.orient_origin_match(o.frame), || format!("{}", inst.state.orbit.frame));
        let e = inst.state.epoch();
        let r2 = ok!(c, "intframe-after-event", inst.for_duration(500.0 * Unit::Second));
        c.check("intframe-landing", r2.epoch() == e + 500.0 * Unit::Second, || format!("{}", r2.epoch()));
        let (rk, _) = kepler(mu_if, o.radius_km, o.velocity_km_s, (r2.epoch() - o.epoch).to_seconds());
        c.vnear("intframe-position-2", r2.orbit.radius_km.as_slice(), rk.as_slice(), 1e-3);
        c.nontrivial();
    });
    m.finish()
}

fn c02() {
    let mut m = Mon::new(
        "C02",
        "Random conics integrated by every method, fixed steps (measured convergence order under step halving against the analytic two-body solution) and adaptive steps (each accepted step is compared with the analytic solution from the previous state), forward and backward, for every error control. Non-trivial: several steps were compared with the oracle.",
    );
    m.assume("two-body oracle by universal variables, accurate to about 1e-13 relative");
    let alm = almanac();
    // Convergence order
    let slopes: std::sync::Mutex<Vec<(usize, bool, f64)>> = Default::default();
    m.group("order", 240, 3000, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = Spacecraft { orbit: o, ..Default::default() };
        let meth = ALL[(c.idx % 6) as usize];
        let want_order = match meth {
            IntegratorMethod::RungeKutta4 => 4.0,
            IntegratorMethod::CashKarp45 => 5.0,
            IntegratorMethod::DormandPrince45 => 5.0,
            IntegratorMethod::Verner56 => 6.0,
            IntegratorMethod::DormandPrince78 => 8.0,
            IntegratorMethod::RungeKutta89 => 9.0,
        };
        c.p("method", meth);
        let sg = if c.b(0.5) { -1.0 } else { 1.0 };
        let total = per * c.f(0.1, 0.5) * sg;
        c.p("dur", total);
        // Choose a step such that the error is measurable but asymptotic.
        let wob = if c.b(0.4) { Some(Wob::random(c, &o)) } else { None };
        let (rk, vk) = flow(&o, total, &wob);
        let vs = o.vmag_km_s();
        let mut errs: Vec<(f64, f64)> = vec![];
        for n in [8, 12, 18, 27, 40, 60, 90, 135, 200, 300, 450, 680] {
            let h = total.abs() / n as f64;
            // exact division in nanoseconds
            let hd = (h * 1e9).ceil() as i64;
            let st = Duration::from_truncated_nanoseconds(hd);
            let prop = Propagator::new(Counted::forced(twobody(), 1_000_000, wob), meth, IntegratorOptions::with_fixed_step(st));
            let r = ok!(c, "propagation-fails", prop.with(s0, alm.clone()).quiet().for_duration(total * Unit::Second));
            let e = (r.orbit.radius_km - rk).norm() / o.rmag_km() + (r.orbit.velocity_km_s - vk).norm() / vs;
            c.check("finite", e.is_finite(), || "NaN".into());
            errs.push((h, e));
        }
        // slopes within the measurable window
        let w: Vec<(f64, f64)> = errs.iter().copied().filter(|(_, e)| *e < 1e-3 && *e > 3e-11).collect();
        c.obs("propagations", errs.len() as u64);
        // The errors of one orbit may cancel at some step sizes, so only the median over many orbits is held against the order.
        let pts = 3;
        if w.len() >= pts {
            let (h1, e1) = w[0];
            let (h2, e2) = w[w.len() - 1];
            // least squares slope
            let n = w.len() as f64;
            let (mut sx, mut sy, mut sxx, mut sxy) = (0.0, 0.0, 0.0, 0.0);
            for (h, e) in &w {
                let (x, y) = (h.ln(), e.ln());
                sx += x;
                sy += y;
                sxx += x * x;
                sxy += x * y;
            }
            let slope = (n * sxy - sx * sy) / (n * sxx - sx * sx);
            c.p("slope", format!("{slope:.2}"));
            slopes.lock().unwrap().push(((c.idx % 6) as usize, wob.is_some(), slope));
            c.check("convergence-order", slope > want_order * 0.55, || format!("{meth:?}: measured order {slope:.2} between h={h1:.1} s (err {e1:e}) and h={h2:.1} s (err {e2:e})"));
            c.nontrivial();
        } else {
            c.obs("window_too_small", 1);
        }
        let fine = errs.last().unwrap().1;
        let lim = match meth {
            IntegratorMethod::RungeKutta4 => 1e-3,
            IntegratorMethod::CashKarp45 | IntegratorMethod::DormandPrince45 => 1e-5,
            _ => 1e-6,
        };
        c.check("fine-step-accuracy", fine < lim, || format!("{meth:?}: relative error {fine:e} with 680 steps over less than half a period"));
    });
    m.group("order-median", 12, 12, |c| {
        let (k, forced) = ((c.idx % 6) as usize, c.idx >= 6);
        let want = [9.0, 8.0, 5.0, 5.0, 6.0, 4.0][ADAPT.iter().chain(&[IntegratorMethod::RungeKutta4]).position(|x| *x == ALL[k]).unwrap()];
        let mut v: Vec<f64> = slopes.lock().unwrap().iter().filter(|(a, b, _)| *a == k && *b == forced).map(|x| x.2).collect();
        c.p("method", ALL[k]);
        c.p("forced", forced);
        c.p("slopes", v.len());
        if v.len() < 5 {
            return;
        }
        v.sort_by(f64::total_cmp);
        let med = v[v.len() / 2];
        c.check("convergence-order", med > want - 0.7, || format!("{:?}: median order {med:.2} over {} orbits", ALL[k], v.len()));
        c.p("median", format!("{med:.2}"));
        c.obs("slopes", v.len() as u64);
        c.nontrivial();
    });
    // The error measures which the tolerance is held against
    m.group("estimate", 3000, 60000, |c| {
        fn run<const N: usize>(c: &mut Case) {
            let ctrl = CTRL[(c.idx % 7) as usize];
            c.p("ctrl", ctrl);
            let mut cur = nalgebra::SVector::<f64, N>::from_fn(|i, _| c.gauss() * if i < 3 { 7e3 } else { 7.0 });
            let tiny = c.b(0.3);
            if tiny {
                cur *= 1e-6;
            }
            let ds = if tiny || c.b(0.3) { 1e-3 } else { 10.0 };
            // The largest error is relative only for components that grow (as in GMAT)
            let grow = ctrl == ErrorControl::LargestError;
            let cand = nalgebra::SVector::<f64, N>::from_fn(|i, _| {
                let x = c.gauss() * ds * if i < 3 { 3.0 } else { 1.0 };
                cur[i] + if grow { x.abs() } else { x }
            });
            let e0 = c.logu(1e-12, 1e-3);
            let k = c.u(0, N - 1);
            let spike = c.b(0.5);
            c.p("error", (e0, k, spike, ds));
            // one component often dominates the others
            let err = nalgebra::SVector::<f64, N>::from_fn(|i, _| c.gauss() * e0 * if spike && i == k { 1e4 } else { 1.0 });
            let rss = |x: &[f64]| x.iter().map(|v| v * v).sum::<f64>().sqrt();
            let one = |x: &[f64]| x.iter().map(|v| v.abs()).sum::<f64>();
            let dl: Vec<f64> = (0..N).map(|i| cand[i] - cur[i]).collect();
            let av: Vec<f64> = (0..N).map(|i| 0.5 * (cand[i] + cur[i])).collect();
            let er: Vec<f64> = err.iter().copied().collect();
            // relative error, or absolute one when the change is tiny
            let q = |e: f64, m: f64| if m > 0.5 { e / m } else if m < 0.05 { e } else { f64::NAN };
            let mx = |a: f64, b: f64| if a.is_nan() || b.is_nan() { f64::NAN } else { a.max(b) };
            let want = match ctrl {
                ErrorControl::RSSStep => q(rss(&er), rss(&dl)),
                ErrorControl::RSSState => q(rss(&er), rss(&av)),
                ErrorControl::LargestStep => q(one(&er), one(&dl)),
                ErrorControl::LargestState => q(one(&er), one(&av)),
                ErrorControl::LargestError => (0..N).map(|i| q(er[i].abs(), dl[i])).fold(0.0, mx),
                ErrorControl::RSSCartesianStep if N >= 6 => mx(q(rss(&er[..3]), rss(&dl[..3])), q(rss(&er[3..6]), rss(&dl[3..6]))),
                ErrorControl::RSSCartesianState if N >= 6 => mx(q(rss(&er[..3]), rss(&av[..3])), q(rss(&er[3..6]), rss(&av[3..6]))),
                _ => q(rss(&er), rss(&dl)),
            };
            if want.is_nan() {
                return c.skip("between the relative and absolute regimes");
            }
            c.near("error measure", ctrl.estimate(&err, &cand, &cur), want, 1e-9 * want);
            c.nontrivial();
        }
        match c.idx / 7 % 3 {
            0 => run::<3>(c),
            1 => run::<6>(c),
            _ => run::<9>(c),
        }
    });
    // Adaptive: local error of every accepted step
    m.group("tolerance", 420, 6000, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = Spacecraft { orbit: o, ..Default::default() };
        let meth = ADAPT[(c.idx % 5) as usize];
        let ctrl = CTRL[(c.idx / 5 % 7) as usize];
        let tol = c.logu(3e-11, 1e-7);
        let min_step = 1e-3;
        let max = per / 3.0;
        let mut op = IntegratorOptions::with_adaptive_step(min_step * Unit::Second, max * Unit::Second, tol, ctrl);
        op.init_step = c.f(per / 1000.0, per / 6.0) * Unit::Second;
        let d = c.f(0.5, 1.5) * per * if c.b(0.5) { -1.0 } else { 1.0 };
        c.p("method", meth);
        c.p("ctrl", ctrl);
        c.p("tol", tol);
        c.p("init", op.init_step.to_string());
        c.p("dur", d);
        let wob = if c.b(0.4) { Some(Wob::random(c, &o)) } else { None };
        let mut cd = Counted::forced(twobody(), 3_000_000, wob);
        let bs: Option<(&[f64], &[f64])> = match meth {
            IntegratorMethod::CashKarp45 => Some((&CK5, &CK4)),
            IntegratorMethod::DormandPrince45 => Some((&DP5, &DP4)),
            _ => None,
        };
        let log = Arc::new(Mutex::new(Vec::new()));
        if bs.is_some() {
            cd.log = Some(log.clone());
        }
        let prop = Propagator::new(cd, meth, op);
        let mut inst = prop.with(s0, alm.clone()).quiet();
        let mut prev = s0;
        // Step one at a time, to monitor the details of each step.
        if d < 0.0 {
            inst.set_step(-op.init_step, false);
        }
        let mut tot = 0u64;
        let mut worst: f64 = 0.0;
        let mut loose: f64 = f64::INFINITY;
        let mut grew = 0;
        let mut shrank = 0;
        let mut prev_h = 0.0;
        while (inst.state.epoch() - o.epoch).to_seconds().abs() < d.abs() && tot < 20000 {
            ok!(c, "step-fails", inst.single_step());
            let det = inst.latest_details();
            let s = inst.state;
            let h = (s.epoch() - prev.epoch()).to_seconds();
            if !c.check("step-direction", h * d > 0.0, || format!("step of {h} s for a propagation of {d} s")) {
                return;
            }
            if let Some((b5, b4)) = bs {
                // The estimate from the recorded derivatives and the published coefficients of this method
                let mut l = log.lock().unwrap();
                let k = &l[l.len() - b5.len()..];
                let mut e = OVector::<f64, Const<90>>::zeros();
                let mut mag: f64 = 0.0;
                for i in 0..6 {
                    for (j, kj) in k.iter().enumerate() {
                        e[i] += h * (b5[j] - b4[j]) * kj[i];
                        mag = mag.max((h * kj[i]).abs());
                    }
                }
                let want = ctrl.estimate(&e, &s.to_vector(), &prev.to_vector());
                l.clear();
                drop(l);
                // The components which are not integrated have no error but weigh in the state
                c.check("details-error", (det.error - want).abs() <= 1e-3 * want + 1e-13 * mag.max(1.0), || format!("{ctrl:?}: reported {:e} instead of {want:e}", det.error));
                c.obs("error_estimates_recomputed", 1);
            }
            c.check("details-step", (det.step.to_seconds() - h).abs() < 2e-9, || format!("reported {} vs {h}", det.step));
            c.check("max-step", h.abs() <= max + 1e-8, || format!("{h}"));
            c.check("min-step", h.abs() >= min_step - 1e-8, || format!("{h}"));
            let at_min = h.abs() <= min_step * 1.0001;
            if !at_min && det.attempts < op.attempts {
                c.check("accepted-within-tolerance", det.error <= tol, || format!("step of {h} s accepted with estimated error {:e} > {tol:e}", det.error));
            }
            let (rk, vk) = flow(&prev.orbit, h, &wob);
            let er = (rk - s.orbit.radius_km).norm();
            let ev = (vk - s.orbit.velocity_km_s).norm();
            let dr = (s.orbit.radius_km - prev.orbit.radius_km).norm();
            let dv = (s.orbit.velocity_km_s - prev.orbit.velocity_km_s).norm();
            let rm = s.orbit.rmag_km().max(prev.orbit.rmag_km());
            let vm = s.orbit.vmag_km_s().max(prev.orbit.vmag_km_s());
            // The scale against which each control measures its error
            let (sr, sv) = match ctrl {
                ErrorControl::RSSCartesianState => (rm, vm.max(1.0)),
                ErrorControl::RSSCartesianStep => (dr.max(1.0), dv.max(1.0)),
                ErrorControl::RSSState => (rm + vm, rm + vm),
                ErrorControl::RSSStep => (dr + dv + 1.0, dr + dv + 1.0),
                ErrorControl::LargestState => (rm + 1.0, rm + 1.0),
                _ => (dr + dv + 1.0, dr + dv + 1.0),
            };
            if !at_min {
                // local truncation error against the tolerance, with a factor for the estimator itself
                let floor_r = 3e-13 * rm + 1e-10;
                let floor_v = 3e-13 * vm + 1e-13;
                let f = 20.0;
                let q = ((er - floor_r) / (f * tol * sr)).max((ev - floor_v) / (f * tol * sv));
                worst = worst.max(q);
                c.check("local-error", q <= 1.0, || format!("step of {h} s: position error {er:e} km (step {dr} km), velocity error {ev:e} (step {dv}) for tolerance {tol:e}: {q:.2} times the bound"));
                if h.abs() < max * 0.98 && tot > 2 {
                    loose = loose.min(1.0);
                }
            }
            if h.abs() > prev_h { grew += 1 } else { shrank += 1 }
            prev_h = h.abs();
            prev = s;
            tot += 1;
        }
        c.obs("steps_checked", tot);
        c.obs("steps_grown", grew);
        c.obs("steps_shrunk", shrank);
        c.check("terminates", tot < 20000, || "over 20000 steps".into());
        let _ = (worst, loose);
        if tot > 3 {
            c.nontrivial();
        }
    });
    // The requested tolerance controls the global error, in both directions, through the public entry points.
    m.group("global", 200, 2500, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = Spacecraft { orbit: o, ..Default::default() };
        let meth = ADAPT[(c.idx % 5) as usize];
        let ctrl = c.pick(&[ErrorControl::RSSCartesianStep, ErrorControl::RSSCartesianState, ErrorControl::RSSStep, ErrorControl::RSSState]);
        let tol = c.logu(1e-11, 1e-8);
        let mut op = IntegratorOptions::with_adaptive_step(1e-3 * Unit::Second, per / 5.0 * Unit::Second, tol, ctrl);
        op.init_step = c.f(per / 2000.0, per / 50.0) * Unit::Second;
        let d = c.f(0.6, 3.0) * per * if c.b(0.5) { -1.0 } else { 1.0 };
        c.p("method", meth);
        c.p("ctrl", ctrl);
        c.p("tol", tol);
        c.p("dur", d);
        let wob = if c.b(0.4) { Some(Wob::random(c, &o)) } else { None };
        let cd = Counted::forced(twobody(), 3_000_000, wob);
        let prop = Propagator::new(cd.clone(), meth, op);
        let r = ok!(c, "propagation-fails", prop.with(s0, alm.clone()).quiet().for_duration(d * Unit::Second));
        let dd = (r.epoch() - o.epoch).to_seconds();
        let (rk, vk) = flow(&o, dd, &wob);
        let e = (r.orbit.radius_km - rk).norm() / o.sma_km().unwrap().abs();
        let ev = (r.orbit.velocity_km_s - vk).norm() / o.vmag_km_s();
        let amp = (1.0 / (1.0 - o.ecc().unwrap())).powi(3);
        let bound = 2e3 * tol * amp + 1e-9;
        c.check("global-position", e < bound, || format!("{meth:?} {ctrl:?}: relative error {e:e} after {:.2} periods with tolerance {tol:e}", d / per));
        c.check("global-velocity", ev < bound * 10.0, || format!("{meth:?} {ctrl:?}: relative velocity error {ev:e} after {:.2} periods with tolerance {tol:e}", d / per));
        // A tolerance of 1e-11 does not need an absurd number of evaluations: the step adapts upward too.
        let max_evals = 400_000;
        c.check("step-growth", cd.count() < max_evals, || format!("{} evaluations", cd.count()));
        c.obs("eom_evaluations", cd.count());
        c.nontrivial();
    });
    // Effort: adaptive stepping must use far fewer steps than the minimum step, i.e. the step grows again.
    m.group("growth", 60, 600, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = Spacecraft { orbit: o, ..Default::default() };
        let meth = ADAPT[(c.idx % 5) as usize];
        c.p("method", meth);
        let mut op = IntegratorOptions::with_adaptive_step(1e-3 * Unit::Second, per / 10.0 * Unit::Second, 1e-9, ErrorControl::RSSCartesianStep);
        op.init_step = per / 20000.0 * Unit::Second;
        let cd = Counted::new(twobody(), 3_000_000);
        let prop = Propagator::new(cd.clone(), meth, op);
        let d = if c.b(0.5) { -per } else { per };
        let (tx, rx) = channel();
        ok!(c, "propagation-fails", prop.with(s0, alm.clone()).quiet().for_duration_with_channel(d * Unit::Second, tx));
        let n = rx.into_iter().count();
        c.obs("steps", n as u64);
        c.check("step-grows", n < 2500, || format!("{n} steps for one period starting from period/20000"));
        c.nontrivial();
    });
    // A state which is not a number is reported, not returned
    m.group("not-a-number", 120, 1200, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = Spacecraft { orbit: o, ..Default::default() }.with_stm();
        let meth = ADAPT[(c.idx % 5) as usize];
        let ctrl = c.pick(&CTRL);
        c.p("method", meth);
        c.p("ctrl", ctrl);
        let mut op = IntegratorOptions::with_adaptive_step(1.0 * Unit::Second, per / 20.0 * Unit::Second, 1e-9, ctrl);
        op.init_step = c.f(2.0, 30.0) * Unit::Second;
        let d = c.f(0.3, 1.0) * per * if c.b(0.5) { -1.0 } else { 1.0 };
        let i = if c.b(0.5) { c.u(0, 5) as usize } else { c.u(0, 89) as usize };
        let from = c.u(0, 60) as u64;
        c.p("component", i);
        c.p("from evaluation", from);
        let mut cd = Counted::new(twobody(), 3_000_000);
        cd.nan = Some((i, from));
        let prop = Propagator::new(cd.clone(), meth, op);
        let r = prop.with(s0, alm.clone()).quiet().for_duration(d * Unit::Second);
        if cd.count() > from {
            c.nontrivial();
            c.check("reported", r.is_err(), || format!("component {i} of the derivatives is not a number but the propagation gives {}", r.unwrap()));
        }
    });
    // Shorter than the initial step: the only step is not error controlled (known finding)
    m.group("short", 6, 40, |c| {
        let e = Epoch::from_gregorian_utc_at_midnight(2022, 1, 1);
        let o = Orbit::keplerian(7000.0 + 10.0 * c.idx as f64, 0.01, 30.0, 10.0, 20.0, 30.0, e, eme2k());
        let s0 = Spacecraft { orbit: o, ..Default::default() };
        let op = IntegratorOptions::with_adaptive_step(0.1 * Unit::Second, 2700.0 * Unit::Second, 1e-10, ErrorControl::RSSCartesianStep);
        let prop = Propagator::rk89(twobody(), op);
        let d = 2500.0;
        let r = ok!(c, "propagation-fails", prop.with(s0, alm.clone()).quiet().for_duration(d * Unit::Second));
        let (rk, _) = kep(&o, d);
        c.p("idx", c.idx);
        let err = (r.orbit.radius_km - rk).norm();
        c.check("uncontrolled-single-step", err < 1e-3, || format!("{err} km after 2500 s with tolerance 1e-10 and an initial step of 2700 s"));
    });
    m.finish()
}

fn c03() {
    let m = Mon::new(
        "C03",
        "Random orbits and force models propagated twice, in pieces, forward then backward, with and without a trajectory or channel, serially and from 8 threads sharing one propagator. Non-trivial: more than one integration step was taken.",
    );
    let alm = almanac();
    m.group("determinism", 200, 2500, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = sc(c, o);
        let (meth, op) = opts(c, per);
        let (dy, _) = two_or_three(c);
        let d = dur(c, per, 2.0);
        c.p("dur", d.to_string());
        let prop = Propagator::new(dy, meth, op);
        let a = ok!(c, "propagation-fails", prop.with(s0, alm.clone()).quiet().for_duration(d));
        let b = ok!(c, "propagation-fails", prop.with(s0, alm.clone()).quiet().for_duration(d));
        c.check("repeatable", bits(&a) == bits(&b), || format!("{a:x} vs {b:x}"));
        let (t, traj) = ok!(c, "traj-propagation-fails", prop.with(s0, alm.clone()).quiet().for_duration_with_traj(d));
        c.check("trajectory-no-side-effect", bits(&a) == bits(&t), || format!("with trajectory: {t:x} vs {a:x}"));
        let (tx, rx) = channel();
        let u = ok!(c, "propagation-fails", prop.with(s0, alm.clone()).quiet().until_epoch_with_channel(o.epoch + d, tx));
        c.check("channel-no-side-effect", bits(&a) == bits(&u), || "with channel".into());
        let chan: Vec<Spacecraft> = rx.into_iter().collect();
        // Every published state is in the trajectory exactly once, plus the initial state, in chronological order.
        let mut want: Vec<Spacecraft> = chan;
        want.push(s0);
        want.sort_by_key(|s| s.epoch());
        c.check("trajectory-complete", traj.states.len() == want.len(), || format!("{} states in the trajectory, {} expected", traj.states.len(), want.len()));
        for (x, y) in traj.states.iter().zip(&want) {
            if !c.check("trajectory-states", x.epoch() == y.epoch() && bits(x) == bits(y), || format!("{x:x} vs {y:x}")) {
                break;
            }
        }
        c.obs("trajectory_states", traj.states.len() as u64);
        if traj.states.len() > 2 {
            c.nontrivial();
        }
    });
    m.group("composition", 200, 2500, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = sc(c, o);
        let meth = c.pick(&ADAPT);
        let mut op = IntegratorOptions::with_adaptive_step(1e-3 * Unit::Second, per / 10.0 * Unit::Second, 1e-11, ErrorControl::RSSCartesianStep);
        op.init_step = c.f(per / 2000.0, per / 100.0) * Unit::Second;
        let (dy, _) = two_or_three(c);
        let n = c.u(2, 6);
        let mut ds: Vec<f64> = (0..n).map(|_| c.f(-0.7, 0.7) * per).collect();
        if c.b(0.3) {
            // and back: reversibility
            let rev: Vec<f64> = ds.iter().rev().map(|x| -x).collect();
            ds.extend(rev);
        }
        let tot: f64 = ds.iter().sum();
        c.p("method", meth);
        c.p("pieces", &ds);
        let prop = Propagator::new(dy, meth, op);
        let mut inst = prop.with(s0, alm.clone()).quiet();
        let mut e = o.epoch;
        let mut path = 0.0;
        for d in &ds {
            let dd = *d * Unit::Second;
            e += dd;
            path += d.abs();
            ok!(c, "propagation-fails", inst.for_duration(dd));
        }
        let a = inst.state;
        let b = ok!(c, "propagation-fails", prop.with(s0, alm.clone()).quiet().until_epoch(e));
        c.check("same-epoch", a.epoch() == e && b.epoch() == e, || format!("{} {} {e}", a.epoch(), b.epoch()));
        let amp = (1.0 / (1.0 - o.ecc().unwrap())).powi(3);
        let tol = (3e-8 * amp * (1.0 + path / per)) * o.sma_km().unwrap().abs();
        let _ = tot;
        let er = (a.orbit.radius_km - b.orbit.radius_km).norm();
        let n_rate = std::f64::consts::TAU / per;
        let ev = (a.orbit.velocity_km_s - b.orbit.velocity_km_s).norm() / n_rate;
        c.check("composition-position", er <= tol, || format!("{meth:?}: pieces {ds:?} vs direct differ by {er:e} km (tol {tol:e})"));
        c.check("composition-velocity", ev <= tol * 10.0, || format!("{ev:e} (tol {tol:e})"));
        c.nontrivial();
    });
    m.group_w("threads", 16, 150, 2, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = sc(c, o);
        let (meth, op) = opts(c, per);
        let (dy, _) = two_or_three(c);
        let prop = Propagator::new(dy, meth, op);
        let jobs: Vec<(Spacecraft, Duration)> = (0..24)
            .map(|k| {
                let mut s = s0;
                s.orbit.radius_km.x += 0.1 * k as f64;
                (s, dur(c, per, 1.0))
            })
            .collect();
        let mut serial = vec![];
        for (s, d) in &jobs {
            serial.push(ok!(c, "propagation-fails", prop.with(*s, alm.clone()).quiet().for_duration(*d)));
        }
        use rayon::prelude::*;
        let par: Vec<_> = jobs.par_iter().map(|(s, d)| prop.with(*s, alm.clone()).quiet().for_duration_with_traj(*d)).collect();
        for (k, (a, b)) in serial.iter().zip(par).enumerate() {
            let (b, tr) = ok!(c, "parallel-propagation", b);
            c.check("parallel-equals-serial", bits(a) == bits(&b), || format!("job {k}: {a:x} vs {b:x}"));
            c.check("parallel-trajectory-sorted", tr.states.windows(2).all(|w| w[0].epoch() < w[1].epoch()), || format!("job {k}"));
        }
        c.obs("parallel_jobs", jobs.len() as u64);
        c.nontrivial();
    });
    m.finish()
}

type M9 = nalgebra::SMatrix<f64, 9, 9>;
fn m6(m: &M9) -> nalgebra::Matrix6<f64> {
    m.fixed_view::<6, 6>(0, 0).into_owned()
}
/// Scales positions by `l` and velocities by `l/t`, so that all entries are of order one.
fn scaled(m: &nalgebra::Matrix6<f64>, l: f64, t: f64) -> nalgebra::Matrix6<f64> {
    let mut r = *m;
    let s = |i: usize| if i < 3 { l } else { l / t };
    for i in 0..6 {
        for j in 0..6 {
            r[(i, j)] = m[(i, j)] * s(j) / s(i);
        }
    }
    r
}

fn c04() {
    let mut m = Mon::new(
        "C04",
        "State transition matrices of random orbits (two body, third bodies, J2, solar radiation pressure with an estimated coefficient) over arcs of up to a period, forward and backward, in one call or several, adaptive and fixed steps; compared with finite differences of an analytic two body flow and of the propagated flow itself. Non-trivial: the transition matrix differs from the identity by more than one.",
    );
    m.assume("the propellant mass is not estimated (documented)");
    let alm = almanac();
    let run = |dy: &SpacecraftDynamics, s: Spacecraft, d: f64, per: f64| {
        let mut op = IntegratorOptions::with_adaptive_step(1e-3 * Unit::Second, per / 20.0 * Unit::Second, 1e-12, ErrorControl::RSSCartesianStep);
        op.init_step = per / 500.0 * Unit::Second;
        let p = Propagator::rk89(dy.clone(), op);
        p.with(s, almanac()).quiet().for_duration(d * Unit::Second)
    };
    m.group("analytic", 160, 2500, |c| {
        let o = any_orbit(c);
        let per = period_s(&o);
        let s0 = sc(c, o).with_stm();
        let d = c.f(0.02, 1.2) * per * if c.b(0.5) { -1.0 } else { 1.0 };
        c.p("dur", d);
        let fixed = c.b(0.3);
        let f = if fixed {
            let p = Propagator::rk89(twobody(), IntegratorOptions::with_fixed_step((per * (1.0 - o.ecc().unwrap()).powf(1.5) / 150.0) * Unit::Second));
            ok!(c, "stm-propagation-fails", p.with(s0, alm.clone()).quiet().for_duration(d * Unit::Second))
        } else {
            ok!(c, "stm-propagation-fails", run(&twobody(), s0, d, per))
        };
        let dd = (f.epoch() - o.epoch).to_seconds();
        let stm = ok!(c, "stm-available", f.stm());
        let mu = o.frame.mu_km3_s2().unwrap();
        let l = o.sma_km().unwrap();
        let t = per / std::f64::consts::TAU;
        let mut want = nalgebra::Matrix6::<f64>::zeros();
        for j in 0..6 {
            let h = 1e-5 * if j < 3 { o.rmag_km() } else { o.vmag_km_s() };
            // fourth order central differences
            let g = |k: f64| {
                let mut r = o.radius_km;
                let mut v = o.velocity_km_s;
                if j < 3 { r[j] += k * h } else { v[j - 3] += k * h }
                let (a, b) = kepler(mu, r, v, dd);
                v6(&a, &b)
            };
            let col = (g(1.0) - g(-1.0)) * (8.0 / (12.0 * h)) - (g(2.0) - g(-2.0)) * (1.0 / (12.0 * h));
            want.set_column(j, &col);
        }
        let a = scaled(&m6(&stm), l, t);
        let b = scaled(&want, l, t);
        let err = (a - b).norm();
        let nb = b.norm();
        c.check("stm-is-jacobian", err < 3e-6 * nb, || format!("relative error {:e} over {dd} s ({:.2} periods): got {a} want {b}", err / nb, dd / per));
        let e33 = (stm.fixed_view::<3, 3>(6, 6).into_owned() - nalgebra::Matrix3::identity()).norm();
        c.check("parameters-constant", e33 == 0.0 && stm.fixed_view::<3, 6>(6, 0).norm() == 0.0 && stm.fixed_view::<6, 3>(0, 6).norm() == 0.0, || format!("{stm}"));
        let det = m6(&stm).determinant();
        c.near("volume-preserved", det, 1.0, 1e-6 * nb.max(1.0));
        // The trajectory is the same as without the STM
        let (rk, vk) = kepler(mu, o.radius_km, o.velocity_km_s, dd);
        c.check("orbit-unaffected", (rk - f.orbit.radius_km).norm() < 1e-7 * l * nb.max(1.0) && (vk - f.orbit.velocity_km_s).norm() < 1e-7 * o.vmag_km_s() * nb.max(1.0) * 10.0, || format!("{:e}", (rk - f.orbit.radius_km).norm()));
        if nb > 3.5 {
            c.nontrivial();
        }
    });
    m.group("flow", 100, 1500, |c| {
        let e = epoch(c);
        let lunar = c.b(0.3);
        let o = orbit(c, if lunar { moonj2k() } else { eme2k() }, e, 0.4, 3.0);
        let per = period_s(&o);
        let mut s0 = sc(c, o);
        s0.srp.coeff_reflectivity = c.f(1.0, 1.9);
        let kind = c.idx % 4;
        let mut accel: Vec<Arc<dyn AccelModel + Sync>> = vec![];
        if kind != 1 {
            accel.push(Arc::new(PointMasses::new(if lunar { vec![399, 10] } else { vec![301, 10, 5] })));
        }
        if kind != 0 {
            let fr = if lunar { iau_moon() } else { iau_earth() };
            let data = nyx_space::io::gravity::GravityFieldData::from_j2(if lunar { -9.1e-5 } else { -4.84e-4 }, fr);
            accel.push(GravityField::new(data));
        }
        let mut dy = SpacecraftDynamics::new(OrbitalDynamics::new(accel));
        let srp = kind == 2;
        if srp {
            s0.srp.area_m2 = c.f(10.0, 400.0);
            // no eclipse: the shadow is not differentiable
            let mut m = ok!(c, "srp", SolarPressure::default_flux_raw(vec![], &alm));
            m.estimate = true;
            dy = SpacecraftDynamics::from_model(dy.orbital_dyn, Arc::new(m));
        }
        let d = c.f(0.05, 0.9) * per * if c.b(0.5) { -1.0 } else { 1.0 };
        c.p("kind", kind);
        c.p("dur", d);
        let f = ok!(c, "stm-propagation-fails", run(&dy, s0.with_stm(), d, per));
        let plain = ok!(c, "propagation-fails", run(&dy, s0, d, per));
        let l = o.sma_km().unwrap();
        let t = per / std::f64::consts::TAU;
        c.check("stm-does-not-change-the-trajectory", (f.orbit.radius_km - plain.orbit.radius_km).norm() < 1e-8 * l * 10.0 && f.epoch() == plain.epoch(), || format!("{:e} km", (f.orbit.radius_km - plain.orbit.radius_km).norm()));
        c.check("no-stm-unless-requested", plain.stm().is_err(), || "stm set".into());
        let stm = ok!(c, "stm-available", f.stm());
        let mut want = nalgebra::Matrix6::<f64>::zeros();
        for j in 0..6 {
            let h = 1e-5 * if j < 3 { o.rmag_km() } else { o.vmag_km_s() };
            let g = |k: f64| {
                let mut s = s0;
                if j < 3 { s.orbit.radius_km[j] += k * h } else { s.orbit.velocity_km_s[j - 3] += k * h }
                run(&dy, s, d, per).map(|s| v6(&s.orbit.radius_km, &s.orbit.velocity_km_s))
            };
            let (p1, m1) = (ok!(c, "propagation-fails", g(1.0)), ok!(c, "propagation-fails", g(-1.0)));
            want.set_column(j, &((p1 - m1) / (2.0 * h)));
        }
        let a = scaled(&m6(&stm), l, t);
        let b = scaled(&want, l, t);
        let nb = b.norm();
        c.check("stm-is-jacobian", (a - b).norm() < 2e-5 * nb, || format!("relative error {:e} ({:.2} periods): got {a} want {b}", (a - b).norm() / nb, d / per));
        if srp {
            let g = |h: f64| {
                let mut s = s0;
                s.srp.coeff_reflectivity += h;
                run(&dy, s, d, per).map(|s| v6(&s.orbit.radius_km, &s.orbit.velocity_km_s))
            };
            let h = 0.1;
            let (p1, m1) = (ok!(c, "propagation-fails", g(h)), ok!(c, "propagation-fails", g(-h)));
            let col = (p1 - m1) / (2.0 * h);
            let got = stm.fixed_view::<6, 1>(0, 6).into_owned();
            let er = (got.fixed_rows::<3>(0) - col.fixed_rows::<3>(0)).norm();
            let ev = (got.fixed_rows::<3>(3) - col.fixed_rows::<3>(3)).norm();
            let (nr, nv) = (col.fixed_rows::<3>(0).norm(), col.fixed_rows::<3>(3).norm());
            let floor = 1e-9 * l;
            c.check("reflectivity-partial", er < 1e-3 * nr + floor && ev < 1e-3 * nv + floor / t, || format!("got {got} want {col}"));
            c.obs("reflectivity_partials", 1);
        } else {
            c.check("parameters-constant", stm.fixed_view::<6, 3>(0, 6).norm() == 0.0, || format!("{stm}"));
        }
        if nb > 3.5 {
            c.nontrivial();
        }
    });
    m.group("composition", 100, 1500, |c| {
        let o = leo(c);
        let per = period_s(&o);
        let s0 = sc(c, o).with_stm();
        let dy = two_or_three(c).0;
        let mut op = IntegratorOptions::with_adaptive_step(1e-3 * Unit::Second, per / 20.0 * Unit::Second, 1e-12, ErrorControl::RSSCartesianStep);
        op.init_step = per / 500.0 * Unit::Second;
        let prop = Propagator::rk89(dy, op);
        let n = c.u(2, 5);
        let ds: Vec<f64> = (0..n).map(|_| c.f(-0.5, 0.5) * per).collect();
        c.p("pieces", &ds);
        let l = o.sma_km().unwrap();
        let t = per / std::f64::consts::TAU;
        // one continued, one reset at each piece
        let mut cont = prop.with(s0, alm.clone()).quiet();
        let mut reset = prop.with(s0, alm.clone()).quiet();
        let mut acc = nalgebra::Matrix6::<f64>::identity();
        let mut amp = 1.0;
        for d in &ds {
            let a = ok!(c, "propagation-fails", cont.for_duration(*d * Unit::Second));
            reset.state.reset_stm();
            let b = ok!(c, "propagation-fails", reset.for_duration(*d * Unit::Second));
            acc = scaled(&m6(&b.stm().unwrap()), l, t) * acc;
            amp *= scaled(&m6(&b.stm().unwrap()), l, t).norm();
            let tot = scaled(&m6(&a.stm().unwrap()), l, t);
            let err = (tot - acc).norm();
            c.check("stm-composes", err < 1e-6 * amp.max(1.0), || format!("error {err:e}: got {tot} want {acc}"));
        }
        // Back to the initial epoch: the identity
        let back = o.epoch - cont.state.epoch();
        let a = ok!(c, "propagation-fails", cont.for_duration(back));
        let id = scaled(&m6(&a.stm().unwrap()), l, t);
        let e = (id - nalgebra::Matrix6::identity()).norm();
        c.check("backward-inverts", e < 1e-6 * amp.max(1.0), || format!("{id}"));
        c.obs("pieces", n as u64);
        c.nontrivial();
    });
    m.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C01") => c01(),
        Some("C02") => c02(),
        Some("C03") => c03(),
        Some("C04") => c04(),
        x => {
            eprintln!("unknown property {x:?}");
            std::process::exit(2)
        }
    }
}
