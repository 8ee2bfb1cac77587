//! C10, C11, C16: thrust, guidance laws, sequences.
use anise::analysis::prelude::OrbitalElement;
use anise::constants::frames::*;
use anise::prelude::*;
use hifitime::{Epoch, Unit};
use nalgebra::Vector3;
use nyx_space::cosmic::{DragData, GuidanceMode, Mass, SRPData, Spacecraft, State};
use nyx_space::dynamics::guidance::mnvr::ImpulsiveManeuver;
use nyx_space::dynamics::guidance::*;
use nyx_space::dynamics::sequence::*;
use nyx_space::dynamics::{AtmDensity, Drag, Dynamics as DynTrait, DynamicsError, GravityField, OrbitalDynamics, PointMasses, SolarPressure, SolidTides, SpacecraftDynamics};
use nyx_space::io::gravity::{GravityFieldConfig, GravityFieldData};
use nyx_space::md::Trajectory;
use nyx_space::polyfit::CommonPolynomial;
use nyx_space::propagators::*;
use nyxmon::alm::*;
use nyxmon::gens::*;
use nyxmon::math::*;
use nyxmon::mon::*;
use nyxmon::ok;
use std::fmt;
use std::sync::Arc;

type V3 = Vector3<f64>;
const G0: f64 = 9.80665;
const FRAMES: [LocalFrame; 4] = [LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::VNC, LocalFrame::RCN];

/// Local to inertial
fn l2i(f: LocalFrame, r: &V3, v: &V3) -> nalgebra::Matrix3<f64> {
    match f {
        LocalFrame::Inertial => nalgebra::Matrix3::identity(),
        LocalFrame::RIC => ric(r, v).transpose(),
        LocalFrame::VNC => vnc(r, v).transpose(),
        LocalFrame::RCN => rcn(r, v).transpose(),
    }
}

fn unit(c: &mut Case) -> V3 {
    loop {
        let v = V3::new(c.f(-1.0, 1.0), c.f(-1.0, 1.0), c.f(-1.0, 1.0));
        if v.norm() > 0.1 && v.norm() < 1.0 {
            return v.normalize();
        }
    }
}

/// RK4 of the two body problem with thrust; y = (r, v, m)
fn fly(mu: f64, s: &Spacecraft, dt: f64, n: usize, thrust: impl Fn(f64, &V3, &V3) -> V3, mdot: f64) -> (V3, V3, f64) {
    let h = dt / n as f64;
    let (mut r, mut v, mut m) = (s.orbit.radius_km, s.orbit.velocity_km_s, s.mass.total_mass_kg());
    let acc = |t: f64, r: &V3, v: &V3, m: f64| -mu * r / r.norm().powi(3) + thrust(t, r, v) * 1e-3 / m;
    for i in 0..n {
        let t = i as f64 * h;
        let (k1r, k1v) = (v, acc(t, &r, &v, m));
        let (k2r, k2v) = (v + k1v * (h / 2.0), acc(t + h / 2.0, &(r + k1r * (h / 2.0)), &(v + k1v * (h / 2.0)), m - mdot * h / 2.0));
        let (k3r, k3v) = (v + k2v * (h / 2.0), acc(t + h / 2.0, &(r + k2r * (h / 2.0)), &(v + k2v * (h / 2.0)), m - mdot * h / 2.0));
        let (k4r, k4v) = (v + k3v * h, acc(t + h, &(r + k3r * h), &(v + k3v * h), m - mdot * h));
        r += (k1r + 2.0 * k2r + 2.0 * k3r + k4r) * (h / 6.0);
        v += (k1v + 2.0 * k2v + 2.0 * k3v + k4v) * (h / 6.0);
        m -= mdot * h;
    }
    (r, v, m)
}

/// A guidance law under the control of the workload
struct Law {
    throttle: f64,
    dir: V3,
}
impl fmt::Display for Law {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "law")
    }
}
impl GuidanceLaw for Law {
    fn direction(&self, _: &Spacecraft) -> Result<V3, GuidanceError> {
        Ok(self.dir)
    }
    fn throttle(&self, _: &Spacecraft) -> Result<f64, GuidanceError> {
        Ok(self.throttle)
    }
    fn next(&self, _: &mut Spacecraft, _: &Almanac) {}
}

fn thruster(c: &mut Case) -> Thruster {
    let t = Thruster { thrust_N: c.logu(0.01, 500.0), isp_s: c.f(150.0, 3500.0) };
    c.p("thrust", t.thrust_N);
    c.p("isp", t.isp_s);
    t
}

struct Burn {
    m: Maneuver,
    poly: Option<([f64; 3], [f64; 3])>,
    vec: V3,
}
impl Burn {
    fn local(&self, e: Epoch) -> V3 {
        match &self.poly {
            None => self.vec,
            Some((a, d)) => {
                let t = (e - self.m.start).to_seconds();
                let al = a[0] + a[1] * t + a[2] * t * t;
                let de = d[0] + d[1] * t + d[2] * t * t;
                V3::new(de.cos() * al.cos(), de.cos() * al.sin(), de.sin())
            }
        }
    }
    fn inertial(&self, e: Epoch, r: &V3, v: &V3) -> V3 {
        l2i(self.m.frame, r, v) * self.local(e)
    }
}

fn burn(c: &mut Case, start: Epoch, end: Epoch, prct: f64) -> Burn {
    let frame = c.pick(&FRAMES);
    let vec = unit(c);
    let kind = c.u(0, 3);
    let poly = (kind > 0).then(|| {
        let mut a = [c.f(-3.0, 3.0), c.f(-1e-3, 1e-3), c.f(-1e-6, 1e-6)];
        let mut d = [c.f(-1.5, 1.5), c.f(-1e-3, 1e-3), c.f(-1e-6, 1e-6)];
        for i in kind..3 {
            a[i] = 0.0;
            d[i] = 0.0;
        }
        (a, d)
    });
    let mut m = Maneuver::from_time_invariant(start, end, prct, vec, frame);
    if let Some((a, d)) = &poly {
        let mk = |k: &[f64; 3]| match kind {
            1 => CommonPolynomial::Constant { a: k[0] },
            2 => CommonPolynomial::Linear { a: k[1], b: k[0] },
            _ => CommonPolynomial::Quadratic { a: k[2], b: k[1], c: k[0] },
        };
        m.representation = MnvrRepr::Angles { azimuth: mk(a), elevation: mk(d) };
    }
    c.p("burn", (format!("{frame:?}"), kind, prct));
    Burn { m, poly, vec }
}

fn opts(c: &mut Case) -> (IntegratorMethod, IntegratorOptions, f64) {
    let fixed = c.b(0.6);
    let st = c.pick(&[5.0, 10.0, 20.0, 30.0]);
    c.p("fixed", fixed);
    c.p("step", st);
    let o = if fixed {
        IntegratorOptions::with_fixed_step(st * Unit::Second)
    } else {
        IntegratorOptions::with_adaptive_step(0.1 * Unit::Second, st * Unit::Second, 1e-12, ErrorControl::RSSCartesianStep)
    };
    (c.pick(&[IntegratorMethod::RungeKutta89, IntegratorMethod::DormandPrince78]), o, st)
}

/// Checks every step of a trajectory flown with a burn
fn check_steps(c: &mut Case, states: &[Spacecraft], b: &Burn, th: Thruster, decr: bool, inhibited: bool, dir: f64) {
    let mu = states[0].orbit.frame.mu_km3_s2().unwrap();
    let mut thrusting = 0;
    for w in states.windows(2) {
        let (s, n) = if dir > 0.0 { (&w[0], &w[1]) } else { (&w[1], &w[0]) };
        let dt = (n.epoch() - s.epoch()).to_seconds();
        let inside = s.epoch() >= b.m.start && s.epoch() <= b.m.end && !inhibited;
        let rate = if inside && decr { b.m.thrust_prct * th.thrust_N / (th.isp_s * G0) } else { 0.0 };
        c.near("mass-flow", n.mass.prop_mass_kg, s.mass.prop_mass_kg - rate * dt, 1e-9 + 1e-9 * (rate * dt).abs());
        c.check("other-masses-constant", n.mass.dry_mass_kg == s.mass.dry_mass_kg && n.mass.extra_mass_kg == s.mass.extra_mass_kg, || format!("{:?}", n.mass));
        let f = if inside { b.m.thrust_prct * th.thrust_N } else { 0.0 };
        let e0 = s.epoch();
        let sub = (dt.abs() / 1.0).ceil() as usize;
        let (r, v, _) = fly(mu, s, dt, sub, |t, r, v| if f > 0.0 { b.inertial(e0 + t * Unit::Second, r, v) * f } else { V3::zeros() }, rate);
        let a = f * 1e-3 / s.mass.total_mass_kg();
        c.vnear("thrust-velocity", n.orbit.velocity_km_s.as_slice(), v.as_slice(), 2e-11 + 2e-5 * a * dt.abs());
        c.vnear("thrust-position", n.orbit.radius_km.as_slice(), r.as_slice(), 2e-9 + 2e-5 * a * dt * dt);
        let ninside = n.epoch() >= b.m.start && n.epoch() <= b.m.end && !inhibited;
        if inhibited {
            c.check("inhibited-mode-kept", n.mode() == GuidanceMode::Inhibit, || format!("{:?}", n.mode()));
        } else {
            c.check("mode-follows-window", (n.mode() == GuidanceMode::Thrust) == ninside, || format!("{:?} on {} for a burn from {} to {}", n.mode(), n.epoch(), b.m.start, b.m.end));
        }
        match n.thrust_direction() {
            Some(d) => {
                let want = b.inertial(n.epoch(), &n.orbit.radius_km, &n.orbit.velocity_km_s);
                c.check("direction-only-when-thrusting", ninside, || format!("direction recorded on {} for a burn from {} to {}", n.epoch(), b.m.start, b.m.end));
                c.vnear("recorded-direction", d.as_slice(), want.as_slice(), 1e-9);
            }
            None => {
                c.check("direction-recorded", !ninside || b.m.thrust_prct == 0.0, || format!("no direction recorded on {} while thrusting", n.epoch()));
            }
        }
        if inside {
            thrusting += 1;
        }
        if c.failed() {
            return;
        }
    }
    c.obs("steps", states.len() as u64 - 1);
    c.obs("thrusting_steps", thrusting);
    if thrusting > 0 || inhibited {
        c.nontrivial();
    }
}

fn c10() {
    let mut m = Mon::new(
        "C10",
        "Random finite burns (constant vectors, constant, linear and quadratic angles, all local frames, throttles), thrusters, windows and step settings, forward and backward; every recorded step is compared with an independent integration of the thrust and of the mass flow. Tanks sized to run out or not. Non-trivial: at least one thrusting step.",
    );
    m.assume("a burn is switched at the first integration step boundary inside of / past its window (bounds included)");
    let alm = almanac();
    m.group("eom", 6000, 100000, |c| {
        let o = any_orbit(c);
        let mut s = sc(c, o);
        let th = thruster(c);
        s.thruster = Some(th);
        let dir = unit(c);
        let thr = c.pick(&[0.0, 1.0, 0.5, 0.123]);
        let decr = c.b(0.5);
        c.p("throttle", thr);
        let law = Arc::new(Law { throttle: thr, dir });
        let mut od = OrbitalDynamics::two_body();
        if c.b(0.5) {
            od = OrbitalDynamics::point_masses(vec![10, 5]);
        }
        let mut dy = if decr { SpacecraftDynamics::from_guidance_law(od.clone(), law.clone()) } else { SpacecraftDynamics::from_guidance_law_no_decr(od.clone(), law.clone()) };
        let mut base = SpacecraftDynamics::new(od);
        if c.b(0.5) {
            let srp = SolarPressure::default_no_estimation(vec![], &alm).unwrap();
            dy.force_models.push(srp.clone());
            base.force_models.push(srp);
        }
        if c.b(0.3) {
            let d0 = dy.decrement_mass;
            dy = dy.with_guidance_law(law);
            c.check("with-law-keeps-settings", dy.decrement_mass == d0 && dy.force_models.len() == base.force_models.len(), || "settings changed".into());
        }
        let dx = ok!(c, "eom-fails", dy.eom(0.0, &s.to_vector(), &s, &alm));
        let b0 = ok!(c, "eom-fails", base.eom(0.0, &s.to_vector(), &s, &alm));
        let want = b0.fixed_rows::<3>(3).into_owned() + dir * (thr * th.thrust_N * 1e-3 / s.mass.total_mass_kg());
        c.vnear("thrust-acceleration", &dx.as_slice()[3..6], want.as_slice(), 1e-11 * want.norm() + 1e-22);
        let rate = if decr { -thr * th.thrust_N / (th.isp_s * G0) } else { 0.0 };
        c.near("mass-rate", dx[8], rate, 1e-12 * rate.abs());
        c.check("rest-constant", dx[6] == 0.0 && dx[7] == 0.0 && dx.as_slice()[9..].iter().all(|x| *x == 0.0), || format!("{dx}"));
        // Within a step, the mass is that of the stage
        let mut v = s.to_vector();
        v[8] *= c.f(0.1, 1.0);
        let mut s2 = s;
        s2.mass.prop_mass_kg = v[8];
        let dx = ok!(c, "eom-fails", dy.eom(0.0, &v, &s, &alm));
        let b0 = ok!(c, "eom-fails", base.eom(0.0, &v, &s2, &alm));
        let want = b0.fixed_rows::<3>(3).into_owned() + dir * (thr * th.thrust_N * 1e-3 / s2.mass.total_mass_kg());
        c.vnear("stage-thrust-acceleration", &dx.as_slice()[3..6], want.as_slice(), 1e-11 * want.norm() + 1e-22);
        c.near("exhaust-velocity", th.exhaust_velocity_m_s(), th.isp_s * G0, 1e-9);
        c.obs("evaluations", 1);
        c.nontrivial();
    });
    m.group("refused", 1500, 20000, |c| {
        let o = leo(c);
        let mut s = sc(c, o);
        s.thruster = Some(thruster(c));
        let kind = c.u(0, 3);
        let (thr, dir) = match kind {
            0 => (c.pick(&[1.0 + 1e-9, 1.5, -1e-9, -1.0, f64::NAN, f64::INFINITY, 100.0]), unit(c)),
            1 => {
                let k = c.pick(&[0.9, 1.1, 0.0, 2.0, 1.001, 0.999]);
                (1.0, unit(c) * k)
            }
            2 => {
                s.thruster = None;
                (1.0, unit(c))
            }
            _ => (1.0, unit(c)),
        };
        c.p("kind", (kind, thr, dir.norm()));
        if kind == 3 {
            s = s.with_stm();
        }
        let dy = SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), Arc::new(Law { throttle: thr, dir }));
        let r = dy.eom(0.0, &s.to_vector(), &s, &alm);
        c.check("invalid-command-refused", r.is_err(), || format!("accepted kind {kind}, throttle {thr}, direction {dir}"));
        let r = Propagator::default(dy).with(s, alm.clone()).for_duration(1.0 * Unit::Minute);
        c.check("invalid-command-refused-in-flight", r.is_err(), || format!("flown kind {kind}, throttle {thr}, direction {dir}"));
        c.obs("refusals", 2);
        c.nontrivial();
    });
    m.group("burn", 700, 12000, |c| {
        let o = leo(c);
        let mut s = sc(c, o);
        let th = thruster(c);
        s.thruster = Some(th);
        s.mass.prop_mass_kg += 500.0;
        let (meth, opt, st) = opts(c);
        let dur = c.f(60.0, 900.0);
        let back = c.b(0.25);
        let dir = if back { -1.0 } else { 1.0 };
        // the window, sometimes aligned with the steps
        let (w0, w1) = (c.f(-0.4, 0.9) * dur, c.f(0.05, 0.9) * dur);
        let (w0, w1) = if c.b(0.5) { ((w0 / st).round() * st, (w1 / st).round() * st) } else { (w0, w1) };
        let (a, b) = (o.epoch + dir * w0 * Unit::Second, o.epoch + dir * (w0 + w1) * Unit::Second);
        let (start, end) = if back { (b, a) } else { (a, b) };
        let prct = c.pick(&[1.0, 1.0, 0.5, 0.31, 0.0]);
        let bn = burn(c, start, end, prct);
        let decr = c.b(0.7);
        let inh = c.b(0.1);
        s.mode = if inh { GuidanceMode::Inhibit } else { c.pick(&[GuidanceMode::Coast, GuidanceMode::Thrust]) };
        c.p("mode", s.mode);
        let fuel = prct * th.thrust_N / (th.isp_s * G0) * (w1 + 60.0);
        if decr && fuel > s.mass.prop_mass_kg {
            s.mass.prop_mass_kg = fuel + 10.0;
        }
        let law = Arc::new(bn.m);
        let dy = if decr { SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), law) } else { SpacecraftDynamics::from_guidance_law_no_decr(OrbitalDynamics::two_body(), law) };
        let p = Propagator::new(dy, meth, opt);
        let mut i = p.with(s, alm.clone());
        let pieces = c.u(1, 2);
        for k in 0..pieces {
            let (_, tr) = ok!(c, "burn-fails", i.for_duration_with_traj(dir * dur / pieces as f64 * Unit::Second));
            let _ = k;
            check_steps(c, &tr.states, &bn, th, decr, inh, dir);
            if c.failed() {
                return;
            }
        }
    });
    m.group("exhaustion", 400, 8000, |c| {
        let o = leo(c);
        let mut s = sc(c, o);
        let th = thruster(c);
        s.thruster = Some(th);
        let (meth, opt, st) = opts(c);
        let dur = c.f(100.0, 600.0);
        let prct = c.pick(&[1.0, 0.5]);
        let rate = prct * th.thrust_N / (th.isp_s * G0);
        let frac = c.pick(&[0.0, 0.3, 0.9, 0.99, 1.01, 1.2, 3.0]);
        s.mass.prop_mass_kg = rate * dur * frac;
        c.p("tank", frac);
        let bn = burn(c, o.epoch - 1.0 * Unit::Minute, o.epoch + 1.0 * Unit::Day, prct);
        let p = Propagator::new(SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), Arc::new(bn.m)), meth, opt);
        let (tx, rx) = std::sync::mpsc::channel();
        let r = p.with(s, alm.clone()).for_duration_with_channel(dur * Unit::Second, tx);
        let got: Vec<Spacecraft> = rx.iter().collect();
        for q in &got {
            c.check("no-negative-propellant", q.mass.prop_mass_kg >= 0.0, || format!("{} kg on {}", q.mass.prop_mass_kg, q.epoch()));
        }
        if frac < 1.0 {
            match r {
                Ok(e) => c.fail("exhaustion-is-an-error", format!("finished with {} kg", e.mass.prop_mass_kg)),
                Err(PropagationError::Dynamics { source: DynamicsError::FuelExhausted { sc } }) => {
                    let t = (sc.epoch() - o.epoch).to_seconds();
                    c.check("exhaustion-on-time", t >= frac * dur - 1e-6 && t <= frac * dur + st + 1e-6, || format!("out of propellant after {t} s, tank of {} s", frac * dur));
                    c.obs("exhausted", 1);
                }
                Err(e) => c.fail("exhaustion-is-an-error", format!("{e}")),
            }
        } else {
            let e = ok!(c, "burn-fails", r);
            c.near("propellant-left", e.mass.prop_mass_kg, rate * dur * (frac - 1.0), 1e-9 * rate * dur + 1e-9);
        }
        c.obs("published", got.len() as u64);
        c.nontrivial();
    });
    // Coasting after a burn: nothing remains of the thrust
    m.group("coast", 100, 1500, |c| {
        let o = leo(c);
        let mut s = sc(c, o);
        s.thruster = Some(thruster(c));
        s.mode = if c.b(0.5) { GuidanceMode::Thrust } else { GuidanceMode::Coast };
        s.mut_thrust_direction(Some(unit(c)));
        let d = c.f(60.0, 3000.0) * if c.b(0.5) { -1.0 } else { 1.0 };
        c.p("duration", d);
        let prop = Propagator::default(SpacecraftDynamics::new(OrbitalDynamics::two_body()));
        let (end, traj) = ok!(c, "propagation-fails", prop.with(s, alm.clone()).quiet().for_duration_with_traj(d * Unit::Second));
        c.check("no-direction-left", end.thrust_direction().is_none(), || format!("{:?}", end.thrust_direction()));
        for t in &traj.states {
            c.check("no-direction-left", t.epoch() == s.epoch() || t.thrust_direction().is_none(), || format!("{:?} on {}", t.thrust_direction(), t.epoch()));
        }
        c.check("no-propellant-used", end.mass == s.mass, || format!("{:?}", end.mass));
        let (r, _) = kepler(o.frame.mu_km3_s2().unwrap(), o.radius_km, o.velocity_km_s, d);
        c.vnear("coasts", end.orbit.radius_km.as_slice(), r.as_slice(), 1e-5);
        c.nontrivial();
    });
    m.group("settings", 2000, 30000, |c| {
        // Directions, rates and accelerations set on a burn are read back, and the others are kept
        let e = epoch(c);
        let prct = c.f(0.0, 1.0);
        let b = burn(c, e, e + 600.0 * Unit::Second, prct);
        c.vnear("initial-vector", b.m.vector(e).as_slice(), b.local(e).as_slice(), 1e-12);
        c.vnear("initial-direction", b.m.direction().as_slice(), b.local(e).as_slice(), 1e-12);
        let t = e + c.f(0.0, 600.0) * Unit::Second;
        c.vnear("vector-at-epoch", b.m.vector(t).as_slice(), b.local(t).as_slice(), 1e-9);
        c.check("duration", b.m.duration() == 600.0 * Unit::Second, || format!("{}", b.m.duration()));
        let mut k = b.m;
        let (u, r, a) = (unit(c), unit(c), unit(c));
        let wr = c.b(0.5);
        let wa = c.b(0.5);
        ok!(c, "set-fails", k.set_direction_and_rates(u, if wr { r } else { V3::zeros() }, if wa { a } else { V3::zeros() }));
        c.vnear("direction-set", k.direction().as_slice(), u.as_slice(), 1e-9);
        if wr {
            c.vnear("rate-set", k.rate().as_slice(), r.as_slice(), 1e-9);
        }
        if wa {
            c.vnear("accel-set", k.accel().as_slice(), a.as_slice(), 1e-9);
        }
        let u2 = unit(c);
        ok!(c, "set-fails", k.set_direction(u2));
        c.vnear("direction-set", k.direction().as_slice(), u2.as_slice(), 1e-9);
        if wr {
            c.vnear("rate-kept", k.rate().as_slice(), r.as_slice(), 1e-9);
        }
        if wa {
            c.vnear("accel-kept", k.accel().as_slice(), a.as_slice(), 1e-9);
        }
        if wr && wa {
            let (r2, a2) = (unit(c), unit(c));
            ok!(c, "set-fails", k.set_rate(r2));
            c.vnear("rate-set", k.rate().as_slice(), r2.as_slice(), 1e-9);
            c.vnear("accel-kept", k.accel().as_slice(), a.as_slice(), 1e-9);
            c.vnear("direction-kept", k.direction().as_slice(), u2.as_slice(), 1e-9);
            ok!(c, "set-fails", k.set_accel(a2));
            c.vnear("accel-set", k.accel().as_slice(), a2.as_slice(), 1e-9);
            c.vnear("rate-kept", k.rate().as_slice(), r2.as_slice(), 1e-9);
            c.vnear("direction-kept", k.direction().as_slice(), u2.as_slice(), 1e-9);
        }
        c.check("window-kept", k.start == b.m.start && k.end == b.m.end && k.thrust_prct == b.m.thrust_prct && k.frame == b.m.frame, || format!("{k}"));
        c.nontrivial();
    });
    m.group("replay", 200, 4000, |c| {
        // A recorded profile replayed from the same state flies the same trajectory
        let o = leo(c);
        let mut s = sc(c, o);
        let th = Thruster { thrust_N: c.logu(1.0, 100.0), isp_s: 300.0 };
        s.thruster = Some(th);
        s.mass.prop_mass_kg = 1000.0;
        let st = 10.0;
        let n = c.u(10, 60) as f64;
        let (w0, w1) = (c.u(0, 12) as f64 - 3.0, c.u(1, 20) as f64);
        // a burn of only the first step is not recorded: the initial state holds no direction
        let w1 = if w0 <= 0.0 && w0 + w1 == 1.0 { w1 + 1.0 } else { w1 };
        let frame = LocalFrame::Inertial;
        let u = unit(c);
        c.p("window", (w0, w1, n));
        // half a step of margin so that the boundaries are not ambiguous
        let m = Maneuver::from_time_invariant(o.epoch + (w0 - 0.5) * st * Unit::Second, o.epoch + (w0 - 0.5 + w1) * st * Unit::Second, 1.0, u, frame);
        let opt = IntegratorOptions::with_fixed_step(st * Unit::Second);
        let p = Propagator::new(SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), Arc::new(m)), IntegratorMethod::RungeKutta89, opt);
        if w0 <= 0.0 && w0 + w1 > 0.0 {
            s.mode = GuidanceMode::Thrust;
        }
        let (_, tr) = ok!(c, "burn-fails", p.with(s, alm.clone()).for_duration_with_traj(n * st * Unit::Second));
        let law = tr.to_thrust_direction_replay();
        let law2 = law.clone();
        c.check("not-achieved", !law.achieved(tr.first()).unwrap(), || "achieved before the end".into());
        let p = Propagator::new(SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), law), IntegratorMethod::RungeKutta89, opt);
        let law = law2;
        let init = *tr.first();
        let (_, t2) = ok!(c, "replay-fails", p.with(init, alm.clone()).for_duration_with_traj(n * st * Unit::Second));
        c.check("same-number-of-states", tr.states.len() == t2.states.len(), || format!("{} vs {}", tr.states.len(), t2.states.len()));
        // The commands of the profile, held between its samples
        for _ in 0..20 {
            let k = c.u(0, tr.states.len() - 2);
            let mut q = tr.states[k];
            let prev = q.thrust_direction();
            q.orbit.epoch += c.f(0.0, st * 0.999) * Unit::Second;
            q.mode = GuidanceMode::Thrust;
            let (d, t) = (law.direction(&q).unwrap(), law.throttle(&q).unwrap());
            let want = if k == 0 && tr.states[0].mode() == GuidanceMode::Thrust { Some(u) } else { prev };
            c.check("command-held", (t == 1.0) == want.is_some() && (d - want.unwrap_or_default()).norm() < 1e-9, || format!("{d} {t} instead of {want:?}"));
        }
        for k in [-1.0, n * st + 1.0] {
            let mut q = *tr.first();
            q.orbit.epoch += k * Unit::Second;
            c.check("no-command-outside", law.throttle(&q).unwrap() == 0.0 && law.direction(&q).unwrap().norm() == 0.0, || format!("{k}"));
        }
        let (dm, dv) = (th.thrust_N / (300.0 * G0) * st, th.thrust_N * 1e-3 / 1000.0 * st);
        let switches = (w0 > 0.0) as u8 as f64 + 1.0;
        for (a, b) in tr.states.iter().zip(&t2.states) {
            let ok = (a.mass.prop_mass_kg - b.mass.prop_mass_kg).abs() < 0.3 * dm * switches && (a.orbit.velocity_km_s - b.orbit.velocity_km_s).norm() < dv * switches;
            if !c.check("replayed", ok, || format!("on {}: {:?} {:?} vs {:?} {:?}", a.epoch(), a.mass, a.orbit.velocity_km_s, b.mass, b.orbit.velocity_km_s)) {
                return;
            }
        }
        c.obs("replayed_states", tr.states.len() as u64);
        if tr.last().mass.prop_mass_kg < s.mass.prop_mass_kg {
            c.nontrivial();
        }
    });
    m.finish()
}

// ------------------------------------------------------------------------------------------ C11

fn el(e: OrbitalElement) -> StateParameter {
    StateParameter::Element(e)
}
const RUG: [OrbitalElement; 5] = [OrbitalElement::SemiMajorAxis, OrbitalElement::Eccentricity, OrbitalElement::Inclination, OrbitalElement::RAAN, OrbitalElement::AoP];

/// Gauss equations: rate of the element for a unit acceleration along R, C, N
fn gauss(o: &Orbit, e: OrbitalElement) -> V3 {
    let mu = o.frame.mu_km3_s2().unwrap();
    let (r, v) = (o.radius_km, o.velocity_km_s);
    let hv = r.cross(&v);
    let h = hv.norm();
    let rm = r.norm();
    let ev = v.cross(&hv) / mu - r / rm;
    let ecc = ev.norm();
    let a = 1.0 / (2.0 / rm - v.norm_squared() / mu);
    let p = h * h / mu;
    let rd = r.dot(&v) / rm;
    // e cos nu, e sin nu
    let ec = p / rm - 1.0;
    let es = rd * h / mu;
    let (cn, sn) = (ec / ecc, es / ecc);
    let inc = (hv.z / h).acos();
    let node = V3::new(-hv.y, hv.x, 0.0).normalize();
    let cu = node.dot(&r) / rm;
    let su = (hv / h).cross(&node).dot(&r) / rm;
    match e {
        OrbitalElement::SemiMajorAxis => V3::new(2.0 * a * a / h * es, 2.0 * a * a / h * p / rm, 0.0),
        OrbitalElement::Eccentricity => V3::new(p * sn / h, ((p + rm) * cn + rm * ecc) / h, 0.0),
        OrbitalElement::Inclination => V3::new(0.0, 0.0, rm * cu / h),
        OrbitalElement::RAAN => V3::new(0.0, 0.0, rm * su / (h * inc.sin())),
        OrbitalElement::AoP => V3::new(-p * cn / (h * ecc), (p + rm) * sn / (h * ecc), -rm * su * inc.cos() / (h * inc.sin())),
        _ => unreachable!(),
    }
}

fn val(s: &Spacecraft, e: OrbitalElement) -> f64 {
    s.value(el(e)).unwrap()
}

fn tol_of(c: &mut Case, e: OrbitalElement) -> f64 {
    match e {
        OrbitalElement::SemiMajorAxis => c.logu(0.01, 10.0),
        OrbitalElement::Eccentricity => c.logu(1e-5, 1e-2),
        _ => c.logu(1e-3, 0.5),
    }
}

fn c11() {
    let mut m = Mon::new(
        "C11",
        "Random orbits and objectives for the Ruggiero and Kluever laws: steering compared with the optimal direction given by the Gauss equations, blends with the documented weights, efficiencies with the ratio to the best point of the orbit, mode transitions with the objectives and the eclipse. Closed loop transfers flown to their target. Non-trivial: at least one objective to correct.",
    );
    m.assume("steering compared at osculating orbits with eccentricity above 5e-4");
    let alm = almanac();
    let mk = |c: &mut Case| {
        let o = leo(c);
        let mut s = sc(c, o);
        s.thruster = Some(Thruster { thrust_N: 1.0, isp_s: 1500.0 });
        s.mode = GuidanceMode::Thrust;
        s
    };
    let obj = |c: &mut Case, s: &Spacecraft, e: OrbitalElement| {
        let tol = tol_of(c, e);
        let k = if c.b(0.15) { c.f(-0.9, 0.9) } else { c.f(1.5, 40.0) * if c.b(0.5) { 1.0 } else { -1.0 } };
        Objective::within_tolerance(el(e), val(s, e) + k * tol, tol)
    };
    m.group("single", 8000, 150000, |c| {
        let s = mk(c);
        let e = c.pick(&RUG[..4]);
        let ob = obj(c, &s, e);
        c.p("objective", format!("{e:?} {} {}", ob.desired_value - val(&s, e), ob.tolerance));
        let err = ob.desired_value - val(&s, e);
        let g = gauss(&s.orbit, e);
        let best = l2i(LocalFrame::RCN, &s.orbit.radius_km, &s.orbit.velocity_km_s) * g.normalize() * err.signum();
        let rug = c.b(0.5);
        let law: Arc<dyn GuidanceLaw> = if rug { ok!(c, "law", Ruggiero::simple(&[ob], s)) } else { Kluever::new(&[ob], &[c.f(0.1, 5.0)]) };
        c.p("ruggiero", rug);
        let d = ok!(c, "direction-fails", law.direction(&s));
        let t = ok!(c, "throttle-fails", law.throttle(&s));
        let met = err.abs() <= ob.tolerance;
        c.check("achieved", law.achieved(&s).unwrap() == met, || format!("error {err:e} tolerance {:e}", ob.tolerance));
        if met {
            c.check("no-thrust-when-achieved", d.norm() == 0.0 && t == 0.0, || format!("{d} {t}"));
        } else {
            c.check("full-throttle", t == 1.0, || format!("{t}"));
            c.near("unit", d.norm(), 1.0, 1e-9);
            // steering angles from the elements: limited by the accuracy of the anomaly at low eccentricity
            c.check("optimal-steering", d.dot(&best) > 1.0 - 1e-9, || format!("{d} instead of {best}"));
            c.nontrivial();
        }
        for mode in [GuidanceMode::Coast, GuidanceMode::Inhibit] {
            let mut q = s;
            q.mode = mode;
            c.check("no-thrust-out-of-mode", law.direction(&q).unwrap().norm() == 0.0 && law.throttle(&q).unwrap() == 0.0, || format!("{mode:?}"));
        }
        c.obs("steering", 1);
    });
    m.group("aop", 2000, 40000, |c| {
        let s = mk(c);
        let ob = obj(c, &s, OrbitalElement::AoP);
        let err = ob.desired_value - val(&s, OrbitalElement::AoP);
        if err.abs() < ob.tolerance * 1.01 || s.orbit.ecc().unwrap() < 0.005 {
            return c.skip("achieved or circular");
        }
        let law = ok!(c, "law", Ruggiero::simple(&[ob], s));
        let d = ok!(c, "direction-fails", law.direction(&s));
        c.near("unit", d.norm(), 1.0, 1e-9);
        let l = l2i(LocalFrame::RCN, &s.orbit.radius_km, &s.orbit.velocity_km_s).transpose() * d;
        let g = gauss(&s.orbit, OrbitalElement::AoP) * err.signum();
        if l.z.abs() < 1e-12 {
            let best = V3::new(g.x, g.y, 0.0).normalize();
            c.check("optimal-in-plane", l.dot(&best) > 1.0 - 1e-7, || format!("{l} instead of {best}"));
            c.obs("in_plane", 1);
        } else {
            c.check("out-of-plane-side", l.z * g.z >= 0.0, || format!("{l} for a rate of {g}"));
            c.obs("out_of_plane", 1);
        }
        c.nontrivial();
    });
    m.group("equinoctial", 2000, 40000, |c| {
        let s = mk(c);
        let e = c.pick(&[OrbitalElement::EquinoctialH, OrbitalElement::EquinoctialK, OrbitalElement::EquinoctialP, OrbitalElement::EquinoctialQ]);
        let sg = if c.b(0.5) { 1.0 } else { -1.0 };
        let tol = c.logu(1e-5, 1e-3);
        let err = sg * tol * if c.b(0.1) { c.f(0.0, 0.9) } else { c.f(1.2, 50.0) };
        c.p("objective", format!("{e:?} {err} {tol}"));
        let ob = Objective::within_tolerance(el(e), val(&s, e) + err, tol);
        let law = Kluever::new(&[ob], &[c.f(0.1, 5.0)]);
        let d = ok!(c, "direction-fails", law.direction(&s));
        let t = ok!(c, "throttle-fails", law.throttle(&s));
        c.check("achieved", law.achieved(&s).unwrap() == (err.abs() <= tol), || format!("error {err:e} tolerance {tol:e}"));
        if err.abs() < tol {
            c.check("no-thrust-when-achieved", d.norm() == 0.0 && t == 0.0, || format!("{d} {t}"));
            return;
        }
        c.near("unit", d.norm(), 1.0, 1e-9);
        c.check("full-throttle", t == 1.0, || format!("{t}"));
        // rate of the element along each local direction
        let l = l2i(LocalFrame::RCN, &s.orbit.radius_km, &s.orbit.velocity_km_s);
        let h = 1e-5;
        let g = V3::from_fn(|i, _| {
            let u = l.column(i).into_owned() * h;
            let at = |k: f64| val(&Spacecraft { orbit: s.orbit.with_dv_km_s(u * k), ..s }, e);
            (at(1.0) - at(-1.0)) / (2.0 * h)
        }) * sg;
        let q = l.transpose() * d;
        if matches!(e, OrbitalElement::EquinoctialH | OrbitalElement::EquinoctialK) {
            let best = V3::new(g.x, g.y, 0.0).normalize();
            c.check("optimal-in-plane", q.dot(&best) > 1.0 - 1e-6, || format!("{q} instead of {best}"));
        } else {
            // The element is defined with the sine of the half inclination in ANISE, and its tangent in the law: only where these agree.
            let lon = (s.orbit.ta_deg().unwrap() + s.orbit.aop_deg().unwrap() + s.orbit.raan_deg().unwrap()).to_radians();
            let k = if e == OrbitalElement::EquinoctialP { lon.sin() } else { lon.cos() } * sg;
            if g.z.abs() < 1e-5 || k * g.z < 0.0 || k.abs() < 1e-6 {
                return c.skip("no authority here");
            }
            c.check("out-of-plane-side", q.z * g.z.signum() > 1.0 - 1e-9, || format!("{q} for a rate of {g}"));
        }
        c.nontrivial();
    });
    m.group("blend", 5000, 100000, |c| {
        let init = mk(c);
        let mut s = init;
        // the osculating orbit is not the initial one
        s.orbit = s.orbit.with_dv_km_s(unit(c) * c.f(0.0, 0.05));
        let n = c.u(2, 4);
        let mut els = RUG[..4].to_vec();
        let mut obs = vec![];
        let mut eta = vec![];
        for _ in 0..n {
            let k = c.u(0, els.len() - 1);
            let e = els.remove(k);
            obs.push((e, obj(c, &s, e)));
            eta.push(if c.b(0.4) { c.f(0.0, 1.1) } else { 0.0 });
        }
        c.p("objectives", obs.iter().zip(&eta).map(|((e, o), t)| format!("{e:?} {} {} {t}", o.desired_value, o.tolerance)).collect::<Vec<_>>());
        let list: Vec<Objective> = obs.iter().map(|x| x.1).collect();
        let law = ok!(c, "law", Ruggiero::from_ηthresholds(&list, &eta, init));
        let mut w = V3::zeros();
        let mut used = 0;
        for ((e, o), t) in obs.iter().zip(&eta) {
            let cur = val(&s, *e);
            let h = ok!(c, "efficiency-fails", Ruggiero::efficiency(&el(*e), &s.orbit));
            c.check("efficiency-in-range", (-1e-12..=1.0 + 1e-9).contains(&h), || format!("{h}"));
            if (cur - o.desired_value).abs() < o.tolerance || h < *t {
                continue;
            }
            if (h - t).abs() < 1e-9 {
                return c.skip("at the threshold");
            }
            let i0 = val(&init, *e);
            let i0 = if (i0 - o.desired_value).abs() < o.tolerance { i0 + o.tolerance } else { i0 };
            w += gauss(&s.orbit, *e).normalize() * (o.desired_value - cur) / (o.desired_value - i0).abs();
            used += 1;
        }
        let d = ok!(c, "direction-fails", law.direction(&s));
        let t = ok!(c, "throttle-fails", law.throttle(&s));
        let all = obs.iter().all(|(e, o)| (val(&s, *e) - o.desired_value).abs() <= o.tolerance);
        c.check("achieved", law.achieved(&s).unwrap() == all, || format!("{all}"));
        if used == 0 {
            c.check("no-thrust-when-nothing-to-do", d.norm() == 0.0 && t == 0.0, || format!("{d} {t}"));
        } else {
            let want = l2i(LocalFrame::RCN, &s.orbit.radius_km, &s.orbit.velocity_km_s) * w.normalize();
            c.check("blended-steering", d.dot(&want) > 1.0 - 1e-8, || format!("{d} instead of {want}"));
            c.near("unit", d.norm(), 1.0, 1e-9);
            c.check("full-throttle", t == 1.0, || format!("{t}"));
            c.nontrivial();
        }
        c.obs("corrected_objectives", used);
        // Kluever: the sum of the weighted, signed, steering vectors
        let ws: Vec<f64> = (0..n).map(|_| if c.b(0.2) { 0.0 } else { c.f(0.1, 3.0) }).collect();
        let kl = Kluever::new(&list, &ws);
        let d = ok!(c, "direction-fails", kl.direction(&s));
        let t = ok!(c, "throttle-fails", kl.throttle(&s));
        let live: Vec<usize> = (0..n).filter(|i| ws[*i] != 0.0 && (obs[*i].1.desired_value - val(&s, obs[*i].0)).abs() >= obs[*i].1.tolerance).collect();
        c.check("kluever-thrusts-iff-needed", (t > 0.0) == !live.is_empty() && (d.norm() > 0.5) == !live.is_empty(), || format!("{t} {d} {live:?}"));
        let (mut ip, mut oop) = (V3::zeros(), 0.0);
        for i in &live {
            let sg = (obs[*i].1.desired_value - val(&s, obs[*i].0)).signum() * ws[*i];
            let g = gauss(&s.orbit, obs[*i].0);
            match obs[*i].0 {
                // the blend of Kluever adds the tangents of the optimal angles, not unit vectors
                OrbitalElement::SemiMajorAxis => {
                    let rv = s.orbit.vmag_km_s() * (s.orbit.semi_parameter_km().unwrap() / s.orbit.frame.mu_km3_s2().unwrap()).sqrt();
                    ip += g.normalize() * rv * sg;
                }
                OrbitalElement::Eccentricity => {
                    let (e, nu) = (s.orbit.ecc().unwrap(), s.orbit.ta_deg().unwrap().to_radians());
                    let ce = (e + nu.cos()) / (1.0 + e * nu.cos());
                    ip += V3::new(nu.sin(), nu.cos() + ce, 0.0) * sg;
                }
                _ => oop += g.z.signum() * sg,
            }
        }
        if !live.is_empty() {
            let want = V3::new(ip.x, ip.y, oop);
            if want.norm() > 1e-6 {
                let want = l2i(LocalFrame::RCN, &s.orbit.radius_km, &s.orbit.velocity_km_s) * want.normalize();
                c.check("kluever-blend", d.dot(&want) > 1.0 - 1e-6, || format!("{d} instead of {want}"));
            }
            c.nontrivial();
        }
    });
    m.group("efficiency", 3000, 50000, |c| {
        let s = mk(c);
        let e = c.pick(&[OrbitalElement::SemiMajorAxis, OrbitalElement::Inclination, OrbitalElement::RAAN]);
        let o = s.orbit;
        let h = ok!(c, "efficiency-fails", Ruggiero::efficiency(&el(e), &o));
        let here = gauss(&o, e).norm();
        let mut best: f64 = 0.0;
        let (a, ec, i, ra, w) = (o.sma_km().unwrap(), o.ecc().unwrap(), o.inc_deg().unwrap(), o.raan_deg().unwrap(), o.aop_deg().unwrap());
        for k in 0..720 {
            let q = Orbit::try_keplerian(a, ec, i, ra, w, k as f64 * 0.5, o.epoch, o.frame).unwrap();
            best = best.max(gauss(&q, e).norm());
        }
        c.near("efficiency", h, here / best, 1e-3);
        c.check("efficiency-of-other-parameters", Ruggiero::efficiency(&StateParameter::PropMass(), &o).is_err(), || "efficiency of a mass".into());
        c.nontrivial();
    });
    m.group("modes", 6000, 80000, |c| {
        let mut s = mk(c);
        if c.b(0.5) {
            // behind the Earth
            let sun = rel_pos(10, 399, s.orbit.epoch).normalize();
            let side = sun.cross(&unit(c)).normalize();
            let r = s.orbit.rmag_km();
            let off = c.f(0.0, 1.2) * 6378.0;
            s.orbit.radius_km = (-sun * (r * r - off * off).max(1.0).sqrt() + side * off).normalize() * r;
            s.orbit.velocity_km_s = s.orbit.radius_km.cross(&unit(c)).normalize() * (MU_EARTH / r).sqrt() * c.f(1.0, 1.1);
        }
        let mode = c.pick(&[GuidanceMode::Thrust, GuidanceMode::Coast, GuidanceMode::Inhibit]);
        s.mode = mode;
        let e = c.pick(&RUG[..3]);
        let ob = obj(c, &s, e);
        let met = (val(&s, e) - ob.desired_value).abs() <= ob.tolerance;
        let max = c.pick(&[None, Some(0.5), Some(20.0), Some(90.0)]);
        let rug = c.b(0.5);
        c.p("law", (rug, format!("{max:?}"), met, format!("{mode:?}")));
        let law: Arc<dyn GuidanceLaw> = match (rug, max) {
            (true, None) => Ruggiero::simple(&[ob], s).unwrap(),
            (true, Some(x)) => {
                if c.b(0.5) {
                    Ruggiero::from_max_eclipse(&[ob], s, x).unwrap()
                } else {
                    let mut l = (*Ruggiero::simple(&[ob], s).unwrap()).clone();
                    l.set_max_eclipse(x);
                    Arc::new(l)
                }
            }
            (false, None) => Kluever::new(&[ob], &[1.0]),
            (false, Some(x)) => Kluever::from_max_eclipse(&[ob], &[1.0], x),
        };
        let occ = [399, 301]
            .iter()
            .map(|b| {
                let sun = rel_pos(10, 399, s.orbit.epoch) - s.orbit.radius_km;
                let body = rel_pos(*b, 399, s.orbit.epoch) - s.orbit.radius_km;
                let rb = if *b == 399 { 6378.1366 } else { 1737.4 };
                if body.norm() > sun.norm() {
                    return 0.0;
                }
                disk_overlap((695700.0 / sun.norm()).asin(), (rb / body.norm()).asin(), sun.angle(&body)) * 100.0
            })
            .fold(0.0, f64::max);
        if let Some(x) = max {
            if (occ - x).abs() < 0.5 {
                return c.skip("at the eclipse threshold");
            }
        }
        let dark = max.is_some_and(|x| occ > x);
        let mut q = s;
        law.next(&mut q, &alm);
        let want = if mode == GuidanceMode::Inhibit {
            GuidanceMode::Inhibit
        } else if met || dark {
            GuidanceMode::Coast
        } else {
            GuidanceMode::Thrust
        };
        c.check("mode", q.mode() == want, || format!("{:?} instead of {want:?} (occultation {occ} %, maximum {max:?}, achieved {met})", q.mode()));
        c.check("only-the-mode-changes", q.orbit == s.orbit && q.mass == s.mass, || "state changed".into());
        c.obs(&format!("next_{want:?}"), 1);
        if dark {
            c.obs("eclipsed", 1);
        }
        c.nontrivial();
    });
    m.group("transfer", 24, 400, |c| {
        let e = epoch(c);
        let o = Orbit::try_keplerian(c.f(6900.0, 8000.0), c.f(0.01, 0.1), c.f(10.0, 80.0), c.f(0.0, 360.0), c.f(0.0, 360.0), c.f(0.0, 360.0), e, eme2k()).unwrap();
        let mut s = sc(c, o);
        s.mass.prop_mass_kg = 500.0;
        s.thruster = Some(Thruster { thrust_N: s.mass.total_mass_kg() * 5e-3, isp_s: 3000.0 });
        let which = c.pick(&RUG[..3]);
        let (delta, tol) = match which {
            OrbitalElement::SemiMajorAxis => (c.f(20.0, 60.0), 1.0),
            OrbitalElement::Eccentricity => (c.f(0.002, 0.005), 2e-4),
            _ => (c.f(0.05, 0.15), 5e-3),
        };
        let delta = if c.b(0.5) { delta } else { -delta };
        let target = val(&s, which) + delta;
        c.p("transfer", format!("{which:?} {delta}"));
        let ob = Objective::within_tolerance(el(which), target, tol);
        let rug = c.b(0.5);
        let law: Arc<dyn GuidanceLaw> = if rug { Ruggiero::simple(&[ob], s).unwrap() } else { Kluever::new(&[ob], &[1.0]) };
        let dy = SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), law);
        let p = Propagator::new(dy.clone(), IntegratorMethod::RungeKutta89, IntegratorOptions::with_fixed_step(10.0 * Unit::Second));
        let (end, tr) = ok!(c, "transfer-fails", p.with(s, alm.clone()).for_duration_with_traj(6.0 * Unit::Hour));
        c.check("target-reached", dy.guidance_achieved(&end).unwrap_or(false), || format!("{which:?} = {} instead of {target}", val(&end, which)));
        let first = tr.states.iter().position(|x| (val(x, which) - target).abs() <= tol);
        if let Some(k) = first {
            let m0 = tr.states[k].mass.prop_mass_kg;
            c.check("coasts-once-achieved", (end.mass.prop_mass_kg - m0).abs() < 0.02 * (s.mass.prop_mass_kg - m0).abs() + 1e-9, || format!("{} then {} kg", m0, end.mass.prop_mass_kg));
            c.check("thrusted", m0 < s.mass.prop_mass_kg, || "no propellant used".into());
        }
        c.obs("flown_states", tr.states.len() as u64);
        c.nontrivial();
    });
    m.group("setup", 800, 10000, |c| {
        let s = mk(c);
        let n = c.u(0, 7);
        let list: Vec<Objective> = (0..n).map(|i| obj(c, &s, RUG[i % 5])).collect();
        let k = c.u(0, 6);
        let th = vec![0.1; k];
        let r = Ruggiero::from_ηthresholds(&list, &th, s);
        c.check("number-of-objectives", r.is_ok() == ((1..=5).contains(&n) && n <= k), || format!("{n} objectives, {k} thresholds"));
        c.check("number-of-objectives", Ruggiero::simple(&list, s).is_ok() == (1..=5).contains(&n), || format!("{n} objectives"));
        c.check("number-of-objectives", Ruggiero::from_max_eclipse(&list, s, 10.0).is_ok() == (1..=5).contains(&n), || format!("{n} objectives with an eclipse limit"));
        let bad = c.pick(&[StateParameter::PropMass(), el(OrbitalElement::TrueAnomaly), el(OrbitalElement::Rmag), StateParameter::Cr()]);
        let mut l2 = list.clone();
        if n >= 5 {
            l2.truncate(3);
        }
        l2.push(Objective::within_tolerance(bad, 1.0, 0.1));
        c.check("unsupported-objective-refused", Ruggiero::simple(&l2, s).is_err() && Ruggiero::from_max_eclipse(&l2, s, 1.0).is_err(), || format!("{bad:?}"));
        c.check("unsupported-objective-refused", Kluever::new(&[Objective::new(el(OrbitalElement::Rmag), 1.0)], &[1.0]).direction(&s).is_err(), || format!("{bad:?}"));
        c.nontrivial();
    });
    m.finish()
}

// ------------------------------------------------------------------------------------------ C16

fn c16() {
    let mut m = Mon::new(
        "C16",
        "Random sequences of phases (coasts, finite burns, staging, docking, frame swaps, disabled phases) flown from the first phase, from the middle of a phase, or up to a named phase, and compared phase by phase with an independent flight of the same plan; invalid plans. Non-trivial: at least two phases flown.",
    );
    m.assume("two body dynamics, fixed steps");
    let alm = almanac();
    #[derive(Clone, Debug)]
    enum Ev {
        None,
        Stage(Option<(usize, V3)>, Option<(Mass, f64, f64)>),
        Dock(Option<(usize, V3)>, Option<(Mass, f64, f64)>),
        Swap(Frame),
    }
    m.group("plan", 400, 8000, |c| {
        let o = leo(c);
        let mut s = sc(c, o);
        s.mass.dry_mass_kg = 3000.0;
        s.mass.prop_mass_kg = 2000.0;
        s.mass.extra_mass_kg = 300.0;
        s.srp.area_m2 = 40.0;
        s.drag.area_m2 = 40.0;
        let th = Thruster { thrust_N: c.f(5.0, 100.0), isp_s: c.f(200.0, 400.0) };
        let n = c.u(1, 5);
        let mut t = o.epoch;
        let mut phases: Vec<(Epoch, bool, Ev, Option<(V3, usize, bool)>)> = vec![];
        let mut swapped = false;
        for _ in 0..n {
            let ev = match c.u(0, 5) {
                0 | 1 => Ev::None,
                k @ (2 | 3 | 4) => {
                    let dv = c.b(0.6).then(|| (c.u(0, 3), unit(c) * c.f(1e-4, 0.05)));
                    let pr = c.b(0.6).then(|| (Mass { dry_mass_kg: c.f(0.0, 300.0), prop_mass_kg: c.f(0.0, 50.0), extra_mass_kg: c.f(0.0, 40.0) }, c.f(0.0, 5.0), c.f(0.0, 5.0)));
                    if k == 4 { Ev::Dock(dv, pr) } else { Ev::Stage(dv, pr) }
                }
                _ if !swapped => {
                    swapped = true;
                    let f = c.pick(&[moonj2k(), eme2k().with_orient(17)]);
                    let f = if f.ephemeris_id == 399 { f.with_mu_km3_s2(MU_EARTH) } else { f };
                    Ev::Swap(f)
                }
                _ => Ev::None,
            };
            // no burn around the Moon: the far two body problem is of no interest
            let g = (c.b(0.4) && !swapped).then(|| (unit(c), c.u(0, 3), c.b(0.3)));
            // a state before the first enabled phase is not part of the plan
            phases.push((t, !phases.is_empty() && c.b(0.15), ev, g));
            t += c.u(5, 60) as f64 * 10.0 * Unit::Second;
        }
        let end = t;
        c.p("phases", phases.iter().map(|p| format!("{} {:?} {:?} {}", p.0, p.2, p.3, p.1)).collect::<Vec<_>>());
        let mut seq = SpacecraftSequence::default();
        let pc = PropagatorConfig {
            method: IntegratorMethod::RungeKutta89,
            options: IntegratorOptions::with_fixed_step(10.0 * Unit::Second),
            dynamics: Dynamics { accel_models: AccelModels::default(), force_models: ForceModels::default() },
        };
        seq.propagators.insert("P".into(), pc);
        seq.thruster_sets.insert("T".into(), th);
        for (i, (e, dis, ev, g)) in phases.iter().enumerate() {
            let imp = |d: &Option<(usize, V3)>| d.map(|(f, v)| ImpulsiveManeuver { local_frame: FRAMES[f], dv_km_s: v });
            let pp = |p: &Option<(Mass, f64, f64)>| p.map(|(m, a, b)| PhysicalProperties { mass: Some(m), srp: Some(SRPData { area_m2: a, coeff_reflectivity: 0.0 }), drag: Some(DragData { area_m2: b, coeff_drag: 0.0 }) });
            let on = match ev {
                Ev::None => None,
                Ev::Stage(d, p) => Some(DiscreteEvent::Staging { impulsive_maneuver: imp(d), decrement_properties: pp(p) }),
                Ev::Dock(d, p) => Some(DiscreteEvent::Docking { impulsive_maneuver: imp(d), increment_properties: pp(p) }),
                Ev::Swap(f) => Some(DiscreteEvent::FrameSwap { new_frame: *f }),
            };
            // The burn covers the whole phase, if it ends with the next enabled one
            let stop = phases[i + 1..].iter().find(|p| !p.1).map(|p| p.0).unwrap_or(end);
            let guid = g.as_ref().map(|(u, f, dis)| {
                Box::new(GuidanceConfig { thruster_model: "T".into(), disable_prop_mass: *dis, law: SteeringLaw::FiniteBurn(Maneuver::from_time_invariant(*e, stop, 1.0, *u, FRAMES[*f])) })
            });
            seq.seq.insert(*e, Phase::Activity { name: format!("phase {i}"), propagator: "P".into(), guidance: guid, on_entry: on.map(Box::new), disabled: *dis });
        }
        seq.seq.insert(end, Phase::Terminate);
        ok!(c, "setup-fails", seq.setup(alm.clone()));
        // Where to start from, and to stop
        let mid = c.b(0.3);
        let start = if mid { o.epoch + ((end - o.epoch).to_seconds() * c.f(0.0, 0.95) / 10.0).floor() * 10.0 * Unit::Second } else { o.epoch };
        s.orbit.epoch = start;
        let until = c.b(0.3).then(|| c.u(0, n - 1));
        c.p("start", (mid, (start - o.epoch).to_seconds(), until));
        let got = ok!(c, "plan-fails", seq.propagate(s, until.map(|k| format!("phase {k}")), alm.clone()));
        // The reference flight
        let enabled: Vec<usize> = (0..n).filter(|i| !phases[*i].1).collect();
        let mut cur = s;
        let mut want = vec![];
        let first = enabled.iter().rposition(|i| phases[*i].0 <= start);
        let from = first.map(|k| k).unwrap_or(0);
        let stop_epoch = until.map(|k| phases[k].0);
        for (pos, i) in enabled.iter().enumerate().skip(from) {
            let ph = &phases[*i];
            if let (Some(k), Some(se)) = (until, stop_epoch) {
                // Stops on the named phase, disabled or not
                if *i == k || (ph.0 > se && se >= start) {
                    break;
                }
            }
            let mut fin = enabled.get(pos + 1).map(|j| phases[*j].0).unwrap_or(end);
            if let Some(se) = stop_epoch {
                if se > ph.0 && se < fin && se >= start {
                    fin = se;
                }
            }
            if ph.0 >= start {
                let dv = |s: &mut Spacecraft, d: &Option<(usize, V3)>| {
                    if let Some((f, v)) = d {
                        let q = l2i(FRAMES[*f], &s.orbit.radius_km, &s.orbit.velocity_km_s);
                        s.orbit.velocity_km_s += q * v;
                    }
                };
                match &ph.2 {
                    Ev::None => {}
                    Ev::Stage(d, p) | Ev::Dock(d, p) => {
                        dv(&mut cur, d);
                        let k = if matches!(ph.2, Ev::Stage(..)) { -1.0 } else { 1.0 };
                        if let Some((ms, a, b)) = p {
                            cur.mass.dry_mass_kg += k * ms.dry_mass_kg;
                            cur.mass.prop_mass_kg += k * ms.prop_mass_kg;
                            cur.mass.extra_mass_kg += k * ms.extra_mass_kg;
                            cur.srp.area_m2 += k * a;
                            cur.drag.area_m2 += k * b;
                        }
                    }
                    Ev::Swap(f) => {
                        let dr = rel_pos(399, f.ephemeris_id, cur.orbit.epoch);
                        let dvv = rel_vel(399, f.ephemeris_id, cur.orbit.epoch);
                        let q = if f.orientation_id == 17 { alm.rotate(EARTH_J2000, EARTH_ECLIPJ2000, cur.orbit.epoch).unwrap().rot_mat } else { nalgebra::Matrix3::identity() };
                        if cur.orbit.frame.ephemeris_id == 399 {
                            cur.orbit.radius_km = q * (cur.orbit.radius_km + dr);
                            cur.orbit.velocity_km_s = q * (cur.orbit.velocity_km_s + dvv);
                            cur.orbit.frame = *f;
                        }
                    }
                }
            }
            let mu = cur.orbit.frame.mu_km3_s2().unwrap();
            let dt = (fin - cur.orbit.epoch).to_seconds();
            let a0 = cur;
            let sub = (dt / 2.0).ceil() as usize;
            let (r, v, ms) = match &ph.3 {
                Some((u, f, dis)) => {
                    let rate = if *dis { 0.0 } else { th.thrust_N / (th.isp_s * G0) };
                    fly(mu, &cur, dt, sub, |_, r, v| l2i(FRAMES[*f], r, v) * u * th.thrust_N, rate)
                }
                None => fly(mu, &cur, dt, sub, |_, _, _| V3::zeros(), 0.0),
            };
            cur.mass.prop_mass_kg += ms - cur.mass.total_mass_kg();
            cur.orbit.radius_km = r;
            cur.orbit.velocity_km_s = v;
            cur.orbit.epoch = fin;
            want.push((*i, a0, cur));
        }
        c.check("one-trajectory-per-phase", got.len() == want.len(), || format!("{} trajectories, {} phases to fly: {:?}", got.len(), want.len(), got.iter().map(|t| t.name.clone()).collect::<Vec<_>>()));
        for (tr, (i, a, b)) in got.iter().zip(&want) {
            let (x, y): (&Spacecraft, &Spacecraft) = (tr.first(), tr.last());
            c.check("phase-name", tr.name.as_deref() == Some(&format!("phase {i}")), || format!("{:?} for phase {i}", tr.name));
            c.check("phase-span", x.epoch() == a.epoch() && y.epoch() == b.epoch(), || format!("{} to {} instead of {} to {}", x.epoch(), y.epoch(), a.epoch(), b.epoch()));
            c.check("frame", x.orbit.frame.ephemeris_id == a.orbit.frame.ephemeris_id && x.orbit.frame.orientation_id == a.orbit.frame.orientation_id, || format!("{} instead of {}", x.orbit.frame, a.orbit.frame));
            c.vnear("entry-state", v6(&x.orbit.radius_km, &x.orbit.velocity_km_s).as_slice(), v6(&a.orbit.radius_km, &a.orbit.velocity_km_s).as_slice(), 1e-5);
            c.vnear("final-state", v6(&y.orbit.radius_km, &y.orbit.velocity_km_s).as_slice(), v6(&b.orbit.radius_km, &b.orbit.velocity_km_s).as_slice(), 1e-5);
            c.near("entry-velocity", (x.orbit.velocity_km_s - a.orbit.velocity_km_s).norm(), 0.0, 1e-8);
            for (g, w) in [(x, a), (y, b)] {
                c.near("propellant", g.mass.prop_mass_kg, w.mass.prop_mass_kg, 1e-7);
                c.near("dry-mass", g.mass.dry_mass_kg, w.mass.dry_mass_kg, 1e-7);
                c.near("extra-mass", g.mass.extra_mass_kg, w.mass.extra_mass_kg, 1e-7);
                c.near("srp-area", g.srp.area_m2, w.srp.area_m2, 1e-9);
                c.near("drag-area", g.drag.area_m2, w.drag.area_m2, 1e-9);
                c.check("coefficients", g.srp.coeff_reflectivity == s.srp.coeff_reflectivity && g.drag.coeff_drag == s.drag.coeff_drag, || "coefficients changed".into());
            }
        }
        c.obs("phases_flown", got.len() as u64);
        if got.len() > 1 {
            c.nontrivial();
        }
    });
    m.group("guided", 30, 600, |c| {
        // A closed loop law configured in a phase is the one which is flown
        let o = leo(c);
        let mut s = sc(c, o);
        s.mass.prop_mass_kg = 500.0;
        let th = Thruster { thrust_N: s.mass.total_mass_kg() * 1e-3, isp_s: 2000.0 };
        let rug = c.b(0.5);
        let mut ob = vec![Objective::within_tolerance(el(OrbitalElement::SemiMajorAxis), o.sma_km().unwrap() + c.f(-20.0, 20.0), 0.5)];
        if c.b(0.6) {
            ob.push(Objective::within_tolerance(el(OrbitalElement::Inclination), o.inc_deg().unwrap() + c.f(-1.0, 1.0), 1e-3));
        }
        let wt: Vec<f64> = ob.iter().map(|_| c.f(0.2, 3.0)).collect();
        let eff: Vec<f64> = ob.iter().map(|_| if c.b(0.6) { c.f(0.0, 0.95) } else { 0.0 }).collect();
        let maxe = c.b(0.5).then_some(10.0);
        let law = if rug { SteeringLaw::Ruggiero { objectives: ob.iter().zip(&eff).map(|(o, e)| ObjectiveEfficiency { objective: *o, efficiency: *e }).collect(), max_eclipse_prct: maxe } } else { SteeringLaw::Kluever { objectives: ob.iter().zip(&wt).map(|(o, w)| ObjectiveWeight { objective: *o, weight: *w }).collect(), max_eclipse_prct: maxe } };
        let noprop = c.b(0.3);
        c.p("law", (rug, maxe, noprop, &wt, &eff));
        let mut seq = SpacecraftSequence::default();
        let opt = IntegratorOptions::with_fixed_step(10.0 * Unit::Second);
        seq.propagators.insert("P".into(), PropagatorConfig { method: IntegratorMethod::DormandPrince78, options: opt, dynamics: Dynamics { accel_models: AccelModels { point_masses: Some(PointMasses::new(vec![301, 10])), ..Default::default() }, force_models: ForceModels::default() } });
        seq.thruster_sets.insert("T".into(), th);
        seq.seq.insert(o.epoch, Phase::Activity { name: "raise".into(), propagator: "P".into(), guidance: Some(Box::new(GuidanceConfig { thruster_model: "T".into(), disable_prop_mass: noprop, law })), on_entry: None, disabled: false });
        seq.seq.insert(o.epoch + 1.0 * Unit::Hour, Phase::Terminate);
        ok!(c, "setup-fails", seq.setup(alm.clone()));
        let got = ok!(c, "plan-fails", seq.propagate(s, None, alm.clone()));
        s.thruster = Some(th);
        let l: Arc<dyn GuidanceLaw> = match (rug, maxe) {
            (true, None) => Ruggiero::from_ηthresholds(&ob, &eff, s).unwrap(),
            (true, Some(e)) => {
                let mut l = (*Ruggiero::from_ηthresholds(&ob, &eff, s).unwrap()).clone();
                l.set_max_eclipse(e);
                Arc::new(l)
            }
            (false, None) => Kluever::new(&ob, &wt),
            (false, Some(e)) => Kluever::from_max_eclipse(&ob, &wt, e),
        };
        let od = OrbitalDynamics::point_masses(vec![301, 10]);
        let dy = if noprop { SpacecraftDynamics::from_guidance_law_no_decr(od, l) } else { SpacecraftDynamics::from_guidance_law(od, l) };
        let (e, _): (Spacecraft, Trajectory) = ok!(c, "flight-fails", Propagator::new(dy, IntegratorMethod::DormandPrince78, opt).with(s, alm.clone()).for_duration_with_traj(1.0 * Unit::Hour));
        let y = got[0].last();
        c.vnear("guided-state", v6(&y.orbit.radius_km, &y.orbit.velocity_km_s).as_slice(), v6(&e.orbit.radius_km, &e.orbit.velocity_km_s).as_slice(), 1e-7);
        c.near("guided-propellant", y.mass.prop_mass_kg, e.mass.prop_mass_kg, 1e-9);
        c.nontrivial();
    });
    m.group("models", 60, 1200, |c| {
        // The configured propagator flies with exactly the configured models, with and without a burn
        let o = leo(c);
        let s = sc(c, o);
        let pm = c.b(0.5).then(|| c.pick(&[vec![301, 10], vec![10], vec![301]]));
        let gr = c.b(0.5).then(|| {
            let d = c.u(2, 12);
            (d, c.u(0, d))
        });
        let td = c.b(0.4);
        let sp = c.b(0.5).then(|| c.f(500.0, 2000.0));
        let dg = c.b(0.5).then(|| c.logu(1e-13, 1e-10));
        c.p("models", (&pm, gr, td, sp, dg));
        let tides = ok!(c, "tides", SolidTides::earth_moon_system(iau_earth(), moonj2k(), &alm));
        let srp = sp.map(|f| SolarPressure::with_flux(f, vec![eme2k()], &alm).unwrap());
        let drag = dg.map(|rho| Drag { density: AtmDensity::Constant(rho), frame: iau_earth(), estimate: false });
        let path = "/repo/data/01_planetary/JGM3.cof.gz";
        let meth = c.pick(&[IntegratorMethod::RungeKutta89, IntegratorMethod::DormandPrince78, IntegratorMethod::DormandPrince45, IntegratorMethod::RungeKutta4, IntegratorMethod::CashKarp45, IntegratorMethod::Verner56]);
        let opt = IntegratorOptions::with_fixed_step(c.u(20, 60) as f64 * Unit::Second);
        c.p("method", (meth, opt.init_step.to_string()));
        let cfg = PropagatorConfig {
            method: meth,
            options: opt,
            dynamics: Dynamics {
                accel_models: AccelModels { point_masses: pm.clone().map(PointMasses::new), gravity_field: gr.map(|(d, m)| GravityFieldConfig { degree: d, order: m, filepath: path.into(), gunzipped: true, frame: IAU_EARTH_FRAME.into() }), solid_tides: td.then(|| tides.clone()) },
                force_models: ForceModels { solar_pressure: srp.as_ref().map(|x| SolarPressure { phi: x.phi, shadow_model: x.shadow_model.clone(), estimate: x.estimate }), drag },
            },
        };
        // Independent assembly
        let mut orb = OrbitalDynamics::two_body();
        if let Some(v) = &pm {
            orb = OrbitalDynamics::from_model(Arc::new(PointMasses::new(v.clone())));
        }
        if let Some((d, m)) = gr {
            orb.accel_models.push(GravityField::new(ok!(c, "gravity", GravityFieldData::from_cof(path, d, m, true, iau_earth()))));
        }
        if td {
            orb.accel_models.push(Arc::new(tides));
        }
        let mut dy = SpacecraftDynamics::new(orb);
        if let Some(x) = srp {
            dy.force_models.push(x);
        }
        if let Some(x) = drag {
            dy.force_models.push(Arc::new(x));
        }
        let th = Thruster { thrust_N: 10.0, isp_s: 300.0 };
        let burn = c.b(0.5);
        let (mid, end) = (o.epoch + 10.0 * Unit::Minute, o.epoch + 25.0 * Unit::Minute);
        let mnv = Maneuver::from_time_invariant(mid, end, 1.0, V3::new(0.0, 1.0, 0.0), LocalFrame::RIC);
        let mut seq = SpacecraftSequence::default();
        seq.propagators.insert("P".into(), cfg);
        // another propagator, of another phase, does not matter
        seq.propagators.insert("A".into(), PropagatorConfig { method: IntegratorMethod::RungeKutta4, options: opt, dynamics: Dynamics { accel_models: AccelModels::default(), force_models: ForceModels::default() } });
        seq.thruster_sets.insert("T".into(), th);
        let kep = c.b(0.3);
        seq.seq.insert(o.epoch, Phase::Activity { name: "coast".into(), propagator: if kep { "A" } else { "P" }.into(), guidance: None, on_entry: None, disabled: false });
        seq.seq.insert(mid, Phase::Activity { name: "next".into(), propagator: "P".into(), guidance: burn.then(|| Box::new(GuidanceConfig { thruster_model: "T".into(), disable_prop_mass: false, law: SteeringLaw::FiniteBurn(mnv) })), on_entry: None, disabled: false });
        seq.seq.insert(end, Phase::Terminate);
        let mut s0 = s;
        s0.mass.prop_mass_kg += 50.0;
        ok!(c, "setup-fails", seq.setup(alm.clone()));
        let got = ok!(c, "plan-fails", seq.propagate(s0, None, alm.clone()));
        c.check("phases", got.len() == 2, || format!("{} phases", got.len()));
        if c.failed() {
            return;
        }
        let first = if kep { Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorMethod::RungeKutta4, opt) } else { Propagator::new(dy.clone(), meth, opt) };
        let a = ok!(c, "flight-fails", first.with(s0, alm.clone()).quiet().until_epoch(mid));
        let mut a2 = a;
        if burn {
            a2.thruster = Some(th);
            dy.guid_law = Some(Arc::new(mnv));
        }
        dy.decrement_mass = true;
        let b = ok!(c, "flight-fails", Propagator::new(dy, meth, opt).with(a2, alm.clone()).quiet().until_epoch(end));
        for (i, (g, w)) in [(got[0].last(), &a), (got[1].last(), &b)].into_iter().enumerate() {
            c.check("epoch", g.epoch() == w.epoch(), || format!("phase {i} ends at {} instead of {}", g.epoch(), w.epoch()));
            c.vnear("state of the phase", v6(&g.orbit.radius_km, &g.orbit.velocity_km_s).as_slice(), v6(&w.orbit.radius_km, &w.orbit.velocity_km_s).as_slice(), 2e-9);
            c.near("propellant of the phase", g.mass.prop_mass_kg, w.mass.prop_mass_kg, 1e-9);
        }
        c.obs("configured_models", pm.is_some() as u64 + gr.is_some() as u64 + td as u64 + sp.is_some() as u64 + dg.is_some() as u64);
        if pm.is_some() || gr.is_some() || td || sp.is_some() || dg.is_some() {
            c.nontrivial();
        }
    });
    m.group("invalid", 300, 3000, |c| {
        let o = leo(c);
        let s = sc(c, o);
        let kind = c.u(0, 4);
        c.p("kind", kind);
        let mut seq = SpacecraftSequence::default();
        seq.propagators.insert("P".into(), PropagatorConfig { method: IntegratorMethod::DormandPrince78, options: IntegratorOptions::default(), dynamics: Dynamics { accel_models: AccelModels::default(), force_models: ForceModels::default() } });
        let guid = (kind == 1).then(|| Box::new(GuidanceConfig { thruster_model: "missing".into(), disable_prop_mass: false, law: SteeringLaw::FiniteBurn(Maneuver::from_impulsive(o.epoch, V3::x(), LocalFrame::VNC)) }));
        if c.b(0.5) {
            // Another thruster, which the plan does not name.
            seq.thruster_sets.insert("T".into(), Thruster { thrust_N: 1.0, isp_s: 300.0 });
        }
        if kind != 4 {
            seq.seq.insert(o.epoch, Phase::Activity { name: "a".into(), propagator: if kind == 0 { "Q" } else { "P" }.into(), guidance: guid, on_entry: None, disabled: false });
        }
        if kind == 3 {
            seq.seq.insert(o.epoch + 1.0 * Unit::Minute, Phase::Terminate);
        }
        match kind {
            0 | 1 | 2 => {
                if kind != 2 {
                    seq.seq.insert(o.epoch + 1.0 * Unit::Minute, Phase::Terminate);
                }
                c.check("invalid-plan-refused", seq.validate().is_err() && seq.setup(alm.clone()).is_err(), || format!("kind {kind}"));
            }
            3 => {
                // past the end of the plan
                ok!(c, "setup-fails", seq.setup(alm.clone()));
                let mut q = s;
                q.orbit.epoch = o.epoch + 1.0 * Unit::Hour;
                let r = seq.propagate(q, None, alm.clone());
                c.check("nothing-after-the-end", r.map(|t| t.is_empty()).unwrap_or(true), || "flown past the end".into());
            }
            _ => {
                let r = seq.propagate(s, None, alm.clone());
                c.check("nothing-in-an-empty-plan", r.map(|t| t.is_empty()).unwrap_or(true), || "flown without phases".into());
            }
        }
        c.nontrivial();
    });
    m.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C10") => c10(),
        Some("C11") => c11(),
        Some("C16") => c16(),
        x => {
            eprintln!("unknown property {x:?}");
            std::process::exit(2)
        }
    }
}
