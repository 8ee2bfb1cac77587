//! C19 B-plane, C20 Lambert, C21 targeting.
use anise::analysis::prelude::OrbitalElement;
use anise::prelude::*;
use hifitime::{Epoch, Unit};
use nalgebra::Matrix3;
use nyx_space::cosmic::{try_achieve_b_plane, BPlane, BPlaneTarget, Spacecraft, State};
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::dynamics::{OrbitalDynamics, PointMasses, SpacecraftDynamics};
use nyx_space::md::objective::Objective;
use nyx_space::md::opti::target_variable::{Variable, Vary};
use nyx_space::md::opti::targeter::Targeter;
use nyx_space::md::StateParameter;
use nyx_space::propagators::*;
use nyx_space::tools::lambert::{gooding, izzo, LambertInput, LambertSolution, TransferKind};
use nyxmon::alm::*;
use nyxmon::gens::*;
use nyxmon::math::*;
use nyxmon::mon::*;
use nyxmon::ok;

const EL: fn(OrbitalElement) -> StateParameter = StateParameter::Element;

fn rand_dir(c: &mut Case) -> V3 {
    loop {
        let v = V3::new(c.gauss(), c.gauss(), c.gauss());
        if v.norm() > 1e-3 {
            return v.normalize();
        }
    }
}

/// State of a conic of a given eccentricity and periapsis radius, in a random plane, at the true anomaly nu.
fn conic(c: &mut Case, mu: f64, rp: f64, e: f64, nu: f64) -> (V3, V3) {
    let h = rand_dir(c);
    let p0 = rand_dir(c);
    let p = (p0 - h * h.dot(&p0)).normalize();
    let q = h.cross(&p);
    let par = rp * (1.0 + e);
    let r = par / (1.0 + e * nu.cos());
    let s = (mu / par).sqrt();
    ((p * nu.cos() + q * nu.sin()) * r, (p * (-nu.sin()) + q * (e + nu.cos())) * s)
}

fn frame(c: &mut Case) -> Frame {
    c.pick(&[eme2k(), moonj2k(), marsj2k(), sunj2k()])
}

// ---------------------------------------------------------------- C19
struct Bp {
    s: V3,
    t: V3,
    r: V3,
    b: V3,
    vinf: f64,
}
fn bplane(mu: f64, r: &V3, v: &V3) -> Bp {
    let h = r.cross(v);
    let ev = v.cross(&h) / mu - r / r.norm();
    let e = ev.norm();
    let eh = ev / e;
    let n = h.normalize().cross(&eh);
    let vinf = (v.norm_squared() - 2.0 * mu / r.norm()).sqrt();
    let s = (eh / e + n * (1.0 - 1.0 / (e * e)).sqrt()).normalize();
    let b = s.cross(&h) / vinf;
    let t = s.cross(&V3::z()).normalize();
    let rr = s.cross(&t);
    Bp { s, t, r: rr, b, vinf }
}

fn hyper(c: &mut Case) -> (Frame, Orbit) {
    let f = frame(c);
    let mu = f.mu_km3_s2().unwrap();
    let req = f.mean_equatorial_radius_km().unwrap();
    let e = if c.b(0.3) { c.f(1.05, 1.3) } else { c.logu(1.2, 12.0) };
    let rp = req * c.logu(1.1, 30.0);
    let lim = (-1.0f64 / e).acos();
    let nu = lim * if c.b(0.7) { -c.f(0.0, 0.97) } else { c.f(0.0, 0.97) };
    let (r, v) = conic(c, mu, rp, e, nu);
    c.p("frame", f.to_string());
    c.p("ecc", e);
    c.p("rp", rp);
    c.p("nu", nu);
    let ep = epoch(c);
    c.p("r", r);
    c.p("v", v);
    (f, Orbit { radius_km: r, velocity_km_s: v, epoch: ep, frame: f })
}

fn c19() {
    let mut m = Mon::new("C19", "a case is nontrivial when a hyperbolic approach was reduced to its B plane, or a target was achieved");
    m.assume("the incoming asymptote is at least 2 degrees away from the pole of the frame");
    m.group("definition", 3000, 200000, |c| {
        let (f, o) = hyper(c);
        let mu = f.mu_km3_s2().unwrap();
        let w = bplane(mu, &o.radius_km, &o.velocity_km_s);
        if w.s.z.abs() > 0.9994 {
            c.skip("asymptote along the pole");
            return;
        }
        let b = ok!(c, "hyperbolic", BPlane::new(o));
        let sc = 1e-9 * w.b.norm() / (1.0 - w.s.z * w.s.z) + 1e-9;
        let br = w.b.dot(&w.r);
        let bt = w.b.dot(&w.t);
        c.near("BdotR", b.b_dot_r_km(), br, sc);
        c.near("BdotT", b.b_dot_t_km(), bt, sc);
        c.near("magnitude", b.magnitude_km(), w.b.norm(), sc);
        let dang = (b.angle_deg() - br.atan2(bt).to_degrees() + 540.0).rem_euclid(360.0) - 180.0;
        c.near("angle", dang, 0.0, 1e-6);
        c.check("angle range", b.angle_deg().abs() <= 180.0, || format!("{}", b.angle_deg()));
        let want = Matrix3::from_rows(&[w.s.transpose(), w.t.transpose(), w.r.transpose()]);
        c.near("rotation", (b.inertial_to_bplane() - want).norm(), 0.0, 1e-7);
        c.check("frame and epoch", b.frame == o.frame && b.epoch == o.epoch, || format!("{} {}", b.frame, b.epoch));
        let s = Spacecraft::from(o);
        let vr = ok!(c, "value", s.value(StateParameter::BdotR()));
        let vt = ok!(c, "value", s.value(StateParameter::BdotT()));
        c.near("spacecraft BdotR", vr, br, sc);
        c.near("spacecraft BdotT", vt, bt, sc);
        // Follow the orbit back to where it is nearly straight: the offset from the center, across the velocity, is B.
        let h = o.radius_km.cross(&o.velocity_km_s);
        let ev = o.velocity_km_s.cross(&h) / mu - o.radius_km.normalize();
        let (e, par) = (ev.norm(), h.norm_squared() / mu);
        let far = 3e4 * w.b.norm().max(mu / (w.vinf * w.vinf));
        let nu = -((par / far - 1.0) / e).acos();
        let (ph, qh) = (ev / e, h.normalize().cross(&(ev / e)));
        let rf = (ph * nu.cos() + qh * nu.sin()) * far;
        let vf = (ph * (-nu.sin()) + qh * (e + nu.cos())) * (mu / par).sqrt();
        let sf = vf.normalize();
        let off = rf - sf * sf.dot(&rf);
        let tol = 3e-3 * w.b.norm() + 3e-3 * mu / (w.vinf * w.vinf);
        c.vnear("far away", &[off.dot(&w.t), off.dot(&w.r)], &[b.b_dot_t_km(), b.b_dot_r_km()], tol);
        // Gradients
        let jac = b.jacobian();
        let par = [b.b_r_km, b.b_t_km];
        let dv = o.velocity_km_s.norm() * 1e-6;
        let dr = o.radius_km.norm() * 1e-6;
        let cond = 1.0 / (1.0 - w.s.z * w.s.z);
        for k in 0..6 {
            let h = if k < 3 { dr } else { dv };
            let ev = |sg: f64| {
                let mut r = o.radius_km;
                let mut v = o.velocity_km_s;
                if k < 3 {
                    r[k] += sg * h
                } else {
                    v[k - 3] += sg * h
                }
                let q = bplane(mu, &r, &v);
                (q.b.dot(&q.r), q.b.dot(&q.t))
            };
            let (p1, m1, p2, m2) = (ev(1.0), ev(-1.0), ev(2.0), ev(-2.0));
            let d = |p1: f64, m1: f64, p2: f64, m2: f64| (8.0 * (p1 - m1) - (p2 - m2)) / (12.0 * h);
            let want = [d(p1.0, m1.0, p2.0, m2.0), d(p1.1, m1.1, p2.1, m2.1)];
            for (n, pt) in par.iter().enumerate() {
                let got = [pt.wrt_x(), pt.wrt_y(), pt.wrt_z(), pt.wrt_vx(), pt.wrt_vy(), pt.wrt_vz()][k];
                let scale = par.iter().map(|q| if k < 3 { (q.wrt_x().powi(2) + q.wrt_y().powi(2) + q.wrt_z().powi(2)).sqrt() } else { (q.wrt_vx().powi(2) + q.wrt_vy().powi(2) + q.wrt_vz().powi(2)).sqrt() }).fold(0.0, f64::max);
                c.near("partials", got, want[n], 2e-6 * scale * cond + 1e-6 * w.b.norm() / (if k < 3 { o.radius_km.norm() } else { o.velocity_km_s.norm() }));
                if k >= 3 {
                    c.near("jacobian", jac[(n, k - 3)], got, 1e-12 * got.abs());
                }
            }
        }
        for (inv, keep) in [(OrbitalElement::VX, [1, 2]), (OrbitalElement::VY, [0, 2]), (OrbitalElement::VZ, [0, 1])] {
            let j2 = ok!(c, "jacobian2", b.jacobian2(EL(inv)));
            for a in 0..2 {
                for k in 0..2 {
                    c.near("jacobian2", j2[(a, k)], jac[(a, keep[k])], 1e-12 * jac[(a, keep[k])].abs());
                }
            }
        }
        c.check("no invariant", b.jacobian2(EL(OrbitalElement::X)).is_err(), || "accepted X".into());
        c.obs("hyperbolic approaches", 1);
        c.nontrivial();
    });
    m.group("closed orbits are refused", 200, 4000, |c| {
        let mut o = any_orbit(c);
        if c.b(0.5) {
            // Just below the escape speed
            let mu = o.frame.mu_km3_s2().unwrap();
            let esc = (2.0 * mu / o.radius_km.norm()).sqrt();
            o.velocity_km_s *= esc * (1.0 - c.logu(1e-9, 1e-2)) / o.velocity_km_s.norm();
            c.p("speed over the escape one", o.velocity_km_s.norm() / esc);
        }
        c.check("refused", BPlane::new(o).is_err(), || "a B plane of an ellipse".into());
        c.check("refused value", Spacecraft::from(o).value(StateParameter::BdotR()).is_err() && Spacecraft::from(o).value(StateParameter::BdotT()).is_err(), || "a B plane value of an ellipse".into());
        c.check("refused target", try_achieve_b_plane(o, BPlaneTarget::from_bt_br(1e4, 1e4)).is_err(), || "a target from an ellipse".into());
        c.obs("ellipses", 1);
        c.nontrivial();
    });
    m.group("targets", 2000, 100000, |c| {
        let (f, o) = hyper(c);
        let mu = f.mu_km3_s2().unwrap();
        let w = bplane(mu, &o.radius_km, &o.velocity_km_s);
        if w.s.z.abs() > 0.9994 {
            c.skip("asymptote along the pole");
            return;
        }
        let small = c.b(0.6);
        let k = if small { 0.002 } else { c.f(0.05, 1.5) };
        let bt = w.b.dot(&w.t) + k * w.b.norm() * c.f(-1.0, 1.0);
        let br = w.b.dot(&w.r) + k * w.b.norm() * c.f(-1.0, 1.0);
        c.p("bt", bt);
        c.p("br", br);
        c.p("small", small);
        let tgt = if c.b(0.2) { BPlaneTarget::from_targets(bt, br, c.f(-3600.0, 3600.0) * Unit::Second) } else { BPlaneTarget::from_bt_br(bt, br) };
        match try_achieve_b_plane(o, tgt) {
            Err(e) => {
                c.obs("refused", 1);
                let inbound = o.radius_km.dot(&o.velocity_km_s) < 0.0 && o.radius_km.norm() > 5.0 * w.b.norm();
                if small && inbound && w.s.z.abs() < 0.98 && !tgt.ltof_target_set() {
                    c.fail("small correction", format!("{e}"));
                }
            }
            Ok((dv, b)) => {
                let q = bplane(mu, &o.radius_km, &(o.velocity_km_s + dv));
                let tol = 1.1e-6 + 1e-10 * (q.b.norm() + o.radius_km.norm()) / (1.0 - q.s.z * q.s.z);
                c.near("achieved BdotT", q.b.dot(&q.t), bt, tol);
                c.near("achieved BdotR", q.b.dot(&q.r), br, tol);
                c.near("reported BdotT", b.b_dot_t_km(), bt, tol);
                c.near("reported BdotR", b.b_dot_r_km(), br, tol);
                c.obs("achieved", 1);
                c.nontrivial();
            }
        }
        let tol = c.logu(1e-4, 1e2);
        let ob = tgt.to_objectives_with_tolerance(tol);
        c.check("tolerances", ob.iter().all(|o| o.tolerance == tol), || format!("{ob:?} for {tol}"));
        let ob = tgt.to_all_objectives_with_tolerance(tol);
        c.check("all objectives", ob[0].parameter == StateParameter::BdotR() && ob[0].desired_value == br && ob[0].tolerance == tol && ob[1].parameter == StateParameter::BdotT() && ob[1].desired_value == bt && ob[1].tolerance == tol && ob[2].parameter == StateParameter::BLTOF() && ob[2].desired_value == tgt.ltof_s, || format!("{ob:?} for {tol}"));
        c.check("time of flight set", tgt.ltof_target_set() == (tgt.ltof_s != 0.0), || format!("{}", tgt.ltof_s));
        let ob = tgt.to_objectives();
        c.check("objectives", ob[0].parameter == StateParameter::BdotR() && ob[0].desired_value == br && ob[1].parameter == StateParameter::BdotT() && ob[1].desired_value == bt, || format!("{ob:?}"));
    });
    m.finish()
}

// ---------------------------------------------------------------- C20
fn lam(o1: Orbit, r2: V3, v2: V3, dt: f64) -> (LambertInput, f64) {
    let o2 = Orbit { radius_km: r2, velocity_km_s: v2, epoch: o1.epoch + dt * Unit::Second, frame: o1.frame };
    (LambertInput::from_planetary_states(o1, o2).unwrap(), (o2.epoch - o1.epoch).to_seconds())
}

/// Whether the arc returned does fly from one point to the other.
fn flies(c: &mut Case, what: &str, s: &LambertSolution, mu: f64, tof: f64, tol_t: f64, sens: f64) -> bool {
    let r1 = s.input.initial_state.radius_km;
    let r2 = s.input.final_state.radius_km;
    let (rf, vf) = kepler(mu, r1, s.v_init_km_s, tof);
    let vmax = vf.norm().max(s.v_init_km_s.norm());
    let tol_r = 10.0 * (tol_t * vmax * sens + 2e-8 * r2.norm() * sens);
    let a = c.vnear(&format!("{what}: reaches the target"), rf.as_slice(), r2.as_slice(), tol_r);
    let acc = mu / r1.norm().min(r2.norm()).powi(2);
    let tol_v = (tol_t * acc + 2e-8 * vmax) * sens + tol_r * vmax / r1.norm().min(r2.norm());
    let b = c.vnear(&format!("{what}: arrival velocity"), s.v_final_km_s.as_slice(), vf.as_slice(), tol_v);
    a && b
}

fn c20() {
    let mut m = Mon::new("C20", "a case is nontrivial when a solver returned a transfer which was flown");
    m.assume("transfer angles between 3 and 357 degrees, at least 2 degrees away from 180, eccentricity of the transfer up to 3");
    m.group("known transfers", 8000, 600000, |c| {
        let f = frame(c);
        let mu = f.mu_km3_s2().unwrap();
        let req = f.mean_equatorial_radius_km().unwrap();
        let hyp = c.b(0.25);
        let e = if hyp { c.f(1.05, 3.0) } else { c.f(0.0, 0.85) };
        let rp = req * c.logu(1.1, 50.0);
        let lim = if hyp { 0.9 * (-1.0f64 / e).acos() } else { std::f64::consts::PI };
        let nu1 = c.f(-lim, lim);
        // Close to colinear, where the plane is still well defined.
        let close = !hyp && c.b(0.15);
        let off = c.logu(1e-3, 0.05);
        let ang = if close {
            c.pick(&[off, std::f64::consts::PI - off, std::f64::consts::PI + off, std::f64::consts::TAU - off])
        } else if hyp {
            c.f(0.05, 1.0) * (lim - nu1).max(0.1)
        } else {
            c.f(0.06, 6.22)
        };
        if !close && (ang < 0.06 || (ang - std::f64::consts::PI).abs() < 0.035) {
            c.skip("too close to colinear");
            return;
        }
        let (r1, v1) = conic(c, mu, rp, e, nu1);
        // time of flight from the anomalies, by bisection on the reference propagator
        let h = r1.cross(&v1).normalize();
        let angle_at = |t: f64| {
            let (r, _) = kepler(mu, r1, v1, t);
            r1.cross(&r).dot(&h).atan2(r1.dot(&r)).rem_euclid(std::f64::consts::TAU)
        };
        let tof = if hyp {
            let (mut a, mut b) = (0.0, 1.0);
            while angle_at(b) < ang && b < 1e12 {
                b *= 2.0;
            }
            if b >= 1e12 {
                c.skip("beyond the asymptote");
                return;
            }
            for _ in 0..60 {
                let x = 0.5 * (a + b);
                if angle_at(x) < ang { a = x } else { b = x }
            }
            b
        } else {
            let a = rp / (1.0 - e);
            let per = std::f64::consts::TAU * (a * a * a / mu).sqrt();
            let (mut lo, mut hi) = (1e-6 * per, per * (1.0 - 1e-6));
            for _ in 0..60 {
                let x = 0.5 * (lo + hi);
                if angle_at(x) < ang { lo = x } else { hi = x }
            }
            hi
        };
        if !(tof > 5.0) {
            c.skip("too short");
            return;
        }
        let ep = epoch(c);
        c.p("frame", f.to_string());
        c.p("mu", mu);
        c.p("r1", r1);
        c.p("v1", v1);
        c.p("e", e);
        c.p("angle", ang.to_degrees());
        c.p("tof", tof);
        let pv = rand_dir(c) * v1.norm();
        let o1 = Orbit { radius_km: r1, velocity_km_s: pv, epoch: ep, frame: f };
        let (r2, _) = kepler(mu, r1, v1, tof);
        let qv = rand_dir(c) * v1.norm();
        let (inp, tof) = lam(o1, r2, qv, tof);
        let (r2k, v2) = kepler(mu, r1, v1, tof);
        let _ = r2k;
        let short = ang < std::f64::consts::PI;
        let prograde = h.z > 0.0;
        let auto = prograde && c.b(0.5) && h.z > 0.02;
        let kind = || if auto { TransferKind::Auto } else if short { TransferKind::ShortWay } else { TransferKind::LongWay };
        c.p("kind", if auto { "auto" } else if short { "short" } else { "long" });
        c.p("prograde", prograde);
        let sens = 1.0 / (ang.sin().abs()).max(5e-4);
        for (nm, sol, tt) in [("izzo", izzo(inp, kind()), 1e-6), ("gooding", gooding(inp, kind()), 1.1e-4)] {
            let s = match sol {
                Ok(s) => s,
                Err(e) => {
                    c.obs(&format!("{nm} refused"), 1);
                    if nm == "izzo" || (!hyp && ang < 6.0) {
                        c.fail("solution", format!("{nm} finds no transfer: {e}"));
                    }
                    continue;
                }
            };
            let fin = s.v_init_km_s.iter().chain(s.v_final_km_s.iter()).all(|x| x.is_finite());
            if !c.check("finite", fin, || format!("{nm} {s:?}")) {
                continue;
            }
            flies(c, nm, &s, mu, tof, tt, sens);
            let hs = r1.cross(&s.v_init_km_s);
            c.check("direction of motion", hs.dot(&h) > 0.0, || format!("{nm}: flies the other way around"));
            // The transfer of less than one revolution is unique.
            let tv = 3e-7 * v1.norm() * sens + tt * 30.0 * sens * mu / r1.norm().min(r2.norm()).powi(2) + tt * sens * v1.norm() / tof * 3.0;
            c.vnear(&format!("{nm}: departure"), s.v_init_km_s.as_slice(), v1.as_slice(), tv * 3.0);
            let vi = s.v_inf_outgoing_km_s();
            c.vnear("v inf out", vi.as_slice(), (pv - s.v_init_km_s).as_slice(), 1e-12 * pv.norm());
            c.vnear("v inf in", s.v_inf_incoming_km_s().as_slice(), (qv - s.v_final_km_s).as_slice(), 1e-12 * pv.norm());
            let d = s.v_init_km_s - pv;
            c.near("c3", s.c3_km2_s2(), d.norm_squared(), 1e-10 * d.norm_squared());
            c.near("declination", s.v_inf_outgoing_declination_deg(), (d.z / d.norm()).asin().to_degrees(), 1e-6);
            let dra = (s.v_inf_outgoing_right_ascension_deg() - d.y.atan2(d.x).to_degrees() + 540.0).rem_euclid(360.0) - 180.0;
            if d.x.hypot(d.y) > 1e-3 * d.norm() {
                c.near("right ascension", dra, 0.0, 1e-8);
            }
            let t = s.transfer_orbit();
            let a = s.arrival_orbit();
            c.check("transfer orbit", t.radius_km == r1 && t.velocity_km_s == s.v_init_km_s && t.epoch == ep && t.frame == f, || format!("{t}"));
            c.check("arrival orbit", a.radius_km == r2 && a.velocity_km_s == s.v_final_km_s && a.epoch == inp.final_state.epoch, || format!("{a}"));
            c.obs(&format!("{nm} transfers flown"), 1);
            c.obs(if short { "short way" } else { "long way" }, 1);
            c.obs(if prograde { "prograde" } else { "retrograde" }, 1);
            c.nontrivial();
        }
        let _ = v2;
        c.check("gooding refuses several revolutions", gooding(inp, TransferKind::NRevs(1)).is_err(), || "accepted".into());
    });
    m.group("several revolutions", 4000, 300000, |c| {
        let f = frame(c);
        let mu = f.mu_km3_s2().unwrap();
        let req = f.mean_equatorial_radius_km().unwrap();
        let e = c.f(0.0, 0.7);
        let rp = req * c.logu(1.1, 20.0);
        let (nu1, n) = (c.f(-3.1, 3.1), c.u(1, 5));
        let (r1, mut v1) = conic(c, mu, rp, e, nu1);
        if r1.cross(&v1).z < 0.0 {
            // mirror the plane's direction
            v1 = -v1;
        }
        let a = rp / (1.0 - e);
        let per = std::f64::consts::TAU * (a * a * a / mu).sqrt();
        let tof = per * (n as f64 + c.f(0.03, 0.97));
        let (r2, _) = kepler(mu, r1, v1, tof);
        let cosang = r1.normalize().dot(&r2.normalize());
        if cosang.abs() > 0.999 {
            c.skip("too close to colinear");
            return;
        }
        let hz = r1.cross(&v1).normalize().z;
        if hz < 0.01 {
            c.skip("polar");
            return;
        }
        let ep = epoch(c);
        c.p("n", n);
        c.p("r1", r1);
        c.p("v1", v1);
        c.p("tof", tof);
        let (inp, tof) = lam(Orbit { radius_km: r1, velocity_km_s: v1, epoch: ep, frame: f }, r2, v1, tof);
        match izzo(inp, TransferKind::NRevs(n as u8)) {
            Err(e) => {
                c.obs("refused", 1);
                c.fail("solution", format!("no transfer of {n} revolutions: {e}"));
            }
            Ok(s) => {
                let fin = s.v_init_km_s.iter().chain(s.v_final_km_s.iter()).all(|x| x.is_finite());
                if !c.check("finite", fin, || format!("{s:?}")) {
                    return;
                }
                flies(c, "izzo", &s, mu, tof, 1e-5, 30.0 * n as f64);
                let en = s.v_init_km_s.norm_squared() / 2.0 - mu / r1.norm();
                c.check("closed", en < 0.0, || format!("energy {en}"));
                let sa = -mu / (2.0 * en);
                let sp = std::f64::consts::TAU * (sa * sa * sa / mu).sqrt();
                c.check("revolutions", (tof / sp).floor() as usize == n, || format!("{} revolutions instead of {n}", tof / sp));
                c.check("prograde", r1.cross(&s.v_init_km_s).z > 0.0, || "retrograde".into());
                c.obs("transfers flown", 1);
                c.nontrivial();
            }
        }
        // More revolutions than can possibly fit
        let s = 0.5 * (r1.norm() + r2.norm() + (r2 - r1).norm());
        let pmin = std::f64::consts::TAU * ((s / 2.0).powi(3) / mu).sqrt();
        let too = (tof / pmin).ceil() as usize + 1;
        if too < 250 {
            c.check("too many revolutions", izzo(inp, TransferKind::NRevs(too as u8)).is_err(), || format!("{too} revolutions in {} times the shortest period", tof / pmin));
            c.obs("refused as infeasible", 1);
        }
    });
    m.group("degenerate problems", 2000, 100000, |c| {
        let f = frame(c);
        let mu = f.mu_km3_s2().unwrap();
        let req = f.mean_equatorial_radius_km().unwrap();
        let r1 = rand_dir(c) * req * c.logu(1.1, 20.0);
        let perp = r1.cross(&rand_dir(c)).normalize();
        let which = c.u(0, 4);
        let r2 = match which {
            0 => r1,
            1 => r1 * c.f(0.3, 3.0),
            2 => -r1 * c.f(0.3, 3.0),
            3 => (r1.normalize() * c.f(-1.0, 1.0) + perp * c.f(0.1, 1.0)).normalize() * r1.norm() * c.f(0.5, 2.0),
            _ => (-r1 + perp * r1.norm() * c.logu(1e-13, 1e-6)) * c.f(0.5, 2.0),
        };
        let per = std::f64::consts::TAU * (r1.norm().powi(3) / mu).sqrt();
        let tof = if which == 3 { c.pick(&[0.0, -0.3 * per, -10.0 * per]) } else { per * c.f(0.1, 0.9) };
        c.p("which", which);
        c.p("r1", r1);
        c.p("r2", r2);
        c.p("tof", tof);
        let ep = epoch(c);
        let (inp, tof) = lam(Orbit { radius_km: r1, velocity_km_s: V3::zeros(), epoch: ep, frame: f }, r2, V3::zeros(), tof);
        for k in 0..4 {
            let kind = || match k {
                0 => TransferKind::Auto,
                1 => TransferKind::ShortWay,
                2 => TransferKind::LongWay,
                _ => TransferKind::NRevs(1),
            };
            for (nm, sol) in [("izzo", izzo(inp, kind())), ("gooding", gooding(inp, kind()))] {
                match sol {
                    Err(_) => c.obs("refused", 1),
                    Ok(s) => {
                        let fin = s.v_init_km_s.iter().chain(s.v_final_km_s.iter()).all(|x| x.is_finite());
                        if c.check("finite or refused", fin, || format!("{nm} returns {} and {}", s.v_init_km_s, s.v_final_km_s)) {
                            let (rf, _) = kepler(mu, r1, s.v_init_km_s, tof);
                            c.vnear("solved or refused", rf.as_slice(), r2.as_slice(), if which == 4 { 0.1 } else { 1e-3 } * r2.norm());
                        }
                        c.obs("solved", 1);
                    }
                }
            }
        }
        c.nontrivial();
    });
    m.group("frames", 40, 400, |c| {
        let e = epoch(c);
        let o1 = Orbit { radius_km: V3::new(7000.0, 10.0, 0.0), velocity_km_s: V3::y(), epoch: e, frame: eme2k() };
        let o2 = Orbit { radius_km: V3::new(0.0, 8000.0, 0.0), velocity_km_s: V3::y(), epoch: e + 1000.0 * Unit::Second, frame: c.pick(&[moonj2k(), marsj2k(), iau_earth()]) };
        c.check("frame mismatch", LambertInput::from_planetary_states(o1, o2).is_err(), || "accepted".into());
        c.nontrivial();
    });
    m.finish()
}

// ---------------------------------------------------------------- C21
fn elements(mu: f64, r: &V3, v: &V3) -> (f64, f64, f64) {
    let h = r.cross(v);
    let en = v.norm_squared() / 2.0 - mu / r.norm();
    let ev = v.cross(&h) / mu - r / r.norm();
    (-mu / (2.0 * en), ev.norm(), (h.z / h.norm()).acos().to_degrees())
}

/// The value of a parameter, by the reference formulas.
fn val(p: StateParameter, o: &Orbit) -> f64 {
    let mu = o.frame.mu_km3_s2().unwrap();
    let (r, v) = (o.radius_km, o.velocity_km_s);
    match p {
        StateParameter::BdotR() | StateParameter::BdotT() => {
            let b = bplane(mu, &r, &v);
            if p == StateParameter::BdotR() { b.b.dot(&b.r) } else { b.b.dot(&b.t) }
        }
        StateParameter::Element(e) => match e {
            OrbitalElement::X => r.x,
            OrbitalElement::Y => r.y,
            OrbitalElement::Z => r.z,
            OrbitalElement::VX => v.x,
            OrbitalElement::VY => v.y,
            OrbitalElement::VZ => v.z,
            OrbitalElement::Rmag => r.norm(),
            OrbitalElement::SemiMajorAxis => elements(mu, &r, &v).0,
            OrbitalElement::Eccentricity => elements(mu, &r, &v).1,
            OrbitalElement::Inclination => elements(mu, &r, &v).2,
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}

struct Prob {
    init: Spacecraft,
    corr: Epoch,
    ach: Epoch,
    prop: Propagator<SpacecraftDynamics>,
}

fn problem(c: &mut Case, bodies: bool) -> Prob {
    let e = epoch(c);
    let o = if bodies { orbit(c, eme2k(), e, 0.3, 6.0) } else { orbit(c, eme2k(), e, 0.3, 2.0) };
    let init = sc(c, o);
    let per = period_s(&o);
    let t1 = if c.b(0.2) { 0.0 } else { (per * c.f(0.05, 0.6)).round() };
    let t2 = (per * c.f(0.08, 0.35)).round();
    let corr = e + t1 * Unit::Second;
    let ach = corr + t2 * Unit::Second;
    c.p("corr", corr.to_string());
    c.p("ach", ach.to_string());
    let dynx = if bodies { OrbitalDynamics::from_model(std::sync::Arc::new(PointMasses::new(vec![301, 10]))) } else { OrbitalDynamics::two_body() };
    let prop = Propagator::default(SpacecraftDynamics::new(dynx));
    Prob { init, corr, ach, prop }
}

fn start(pb: &Prob) -> Spacecraft {
    pb.prop.with(pb.init, almanac()).until_epoch(pb.corr).unwrap()
}
fn end(pb: &Prob, s: Spacecraft) -> Spacecraft {
    pb.prop.with(s, almanac()).until_epoch(pb.ach).unwrap()
}

fn is_pos(v: Vary) -> bool {
    matches!(v, Vary::PositionX | Vary::PositionY | Vary::PositionZ)
}
fn comp(v: Vary) -> usize {
    match v {
        Vary::PositionX | Vary::VelocityX => 0,
        Vary::PositionY | Vary::VelocityY => 1,
        _ => 2,
    }
}

/// Judges a solution: what was corrected, by how much, and whether the objectives are met when it is flown.
#[allow(clippy::too_many_arguments)]
fn judge<const V: usize, const O: usize>(c: &mut Case, pb: &Prob, tg: &Targeter<V, O>, sol: &nyx_space::md::opti::solution::TargeterSolution<V, O>, obj_frame: Option<Frame>, local: bool) {
    let xs = start(pb);
    // The correction is the one announced
    let (mut dr, mut dv) = (V3::zeros(), V3::zeros());
    for (i, v) in tg.variables.iter().enumerate() {
        if is_pos(v.component) {
            dr[comp(v.component)] += sol.correction[i];
        } else {
            dv[comp(v.component)] += sol.correction[i];
        }
        let k = sol.correction[i];
        c.check("step limit", (k - v.init_guess).abs() <= (sol.iterations as f64) * v.max_step * (1.0 + 1e-9) + 1e-15, || format!("{:?} is corrected by {k} in {} steps of {}", v.component, sol.iterations, v.max_step));
        c.check("bounds of the variable", k <= v.max_value * (1.0 + 1e-12) && k >= v.min_value * (1.0 + 1e-12) - 1e-15, || format!("{:?} is corrected by {k}, allowed [{}; {}]", v.component, v.min_value, v.max_value));
    }
    if local {
        dv = vnc(&xs.orbit.radius_km, &xs.orbit.velocity_km_s).transpose() * dv;
    }
    let cs = sol.corrected_state;
    c.check("epoch of the correction", cs.epoch() == pb.corr, || format!("{}", cs.epoch()));
    c.vnear("corrected position", cs.orbit.radius_km.as_slice(), (xs.orbit.radius_km + dr).as_slice(), 1e-8 + 1e-12 * xs.orbit.radius_km.norm());
    c.vnear("corrected velocity", cs.orbit.velocity_km_s.as_slice(), (xs.orbit.velocity_km_s + dv).as_slice(), 1e-11);
    c.near("mass untouched", cs.mass.total_mass_kg(), xs.mass.total_mass_kg(), 1e-9);
    // Fly it
    let xf = end(pb, cs);
    c.check("epoch of the achievement", sol.achieved_state.epoch() == pb.ach, || format!("{}", sol.achieved_state.epoch()));
    c.vnear("achieved position", sol.achieved_state.orbit.radius_km.as_slice(), xf.orbit.radius_km.as_slice(), 1e-6);
    c.vnear("achieved velocity", sol.achieved_state.orbit.velocity_km_s.as_slice(), xf.orbit.velocity_km_s.as_slice(), 1e-9);
    let o = match obj_frame {
        Some(f) => almanac().transform_to(xf.orbit, f, None).unwrap(),
        None => xf.orbit,
    };
    for (i, ob) in tg.objectives.iter().enumerate() {
        let got = val(ob.parameter, &o);
        let slack = 1e-6 + 1e-10 * got.abs();
        c.check("objective met", (got - ob.desired_value).abs() <= ob.tolerance + slack, || format!("{:?} is {got} instead of {} +/- {}", ob.parameter, ob.desired_value, ob.tolerance));
        c.near("announced error", sol.achieved_errors[i], ob.desired_value - got, slack);
    }
    // And what apply does
    match tg.apply(sol, almanac()) {
        Ok(x) => {
            c.vnear("applied position", x.orbit.radius_km.as_slice(), xf.orbit.radius_km.as_slice(), 1e-6);
            c.check("applied epoch", x.epoch() == pb.ach, || format!("{}", x.epoch()));
        }
        Err(e) => {
            // only excusable at the very edge of the tolerance
            let edge = tg.objectives.iter().any(|ob| ((val(ob.parameter, &o) - ob.desired_value).abs() - ob.tolerance).abs() <= 1e-6 + 1e-10 * ob.desired_value.abs());
            c.check("apply accepts the solution", edge, || format!("{e}").chars().take(300).collect());
        }
    }
    c.obs("solutions flown", 1);
    c.nontrivial();
}

fn vars(c: &mut Case, pos: bool) -> [Variable; 3] {
    let k = if pos { [Vary::PositionX, Vary::PositionY, Vary::PositionZ] } else { [Vary::VelocityX, Vary::VelocityY, Vary::VelocityZ] };
    let mut v = k.map(Variable::from);
    if pos {
        for x in v.iter_mut() {
            x.max_step = 50.0;
            x.max_value = 500.0;
            x.min_value = -500.0;
            x.perturbation = 0.01;
        }
    }
    if c.b(0.3) {
        for x in v.iter_mut() {
            x.init_guess = if pos { c.f(-5.0, 5.0) } else { c.f(-0.005, 0.005) };
        }
    }
    v
}

const XYZ: [OrbitalElement; 3] = [OrbitalElement::X, OrbitalElement::Y, OrbitalElement::Z];

fn c21() {
    let mut m = Mon::new("C21", "a case is nontrivial when a targeter returned a solution, which was then flown, or refused a problem");
    m.assume("impulsive corrections (position or velocity components); finite burns are not claimed");
    m.group("reach a position", 60, 2500, |c| {
        let bodies = c.b(0.5);
        let pb = problem(c, bodies);
        let (pos, local, dual) = (c.b(0.25), c.b(0.4), c.b(0.4));
        let local = local && !pos && !dual;
        let xs = start(&pb);
        let mut w = xs;
        let size = c.logu(1e-4, 0.05);
        if pos {
            w.orbit.radius_km += rand_dir(c) * size * 1000.0;
        } else {
            w.orbit.velocity_km_s += rand_dir(c) * size;
        }
        let xw = end(&pb, w);
        let tol = c.logu(1e-4, 1.0);
        let objs = XYZ.map(|e| Objective::within_tolerance(EL(e), val(EL(e), &xw.orbit), tol));
        let vs = vars(c, pos);
        c.p("pos", pos);
        c.p("local", local);
        c.p("dual", dual);
        c.p("size", size);
        c.p("tol", tol);
        let mut tg = Targeter::new(&pb.prop, vs, objs);
        if local {
            tg.correction_frame = Some(LocalFrame::VNC);
        }
        let s = if dual { tg.try_achieve_dual(pb.init, pb.corr, pb.ach, almanac()) } else { tg.try_achieve_from(pb.init, pb.corr, pb.ach, almanac()) };
        let s = ok!(c, "a small correction is found", s);
        c.obs(if dual { "hyperdual" } else { "finite differences" }, 1);
        if local {
            c.obs("local frame", 1);
        }
        if pos {
            c.obs("position corrections", 1);
        }
        judge(c, &pb, &tg, &s, None, local);
    });
    m.group("orbital elements", 60, 2500, |c| {
        let pb = problem(c, false);
        let xs = start(&pb);
        let mut w = xs;
        let local = c.b(0.5);
        w.orbit.velocity_km_s += rand_dir(c) * c.logu(1e-4, 0.05);
        let xw = end(&pb, w);
        let dual = c.b(0.4) && !local;
        let objs = [
            Objective::within_tolerance(EL(OrbitalElement::SemiMajorAxis), val(EL(OrbitalElement::SemiMajorAxis), &xw.orbit), 0.01),
            Objective::within_tolerance(EL(OrbitalElement::Eccentricity), val(EL(OrbitalElement::Eccentricity), &xw.orbit), 1e-5),
        ];
        let vs = vars(c, false);
        let mut tg = Targeter::new(&pb.prop, vs, objs);
        if local {
            tg.correction_frame = Some(LocalFrame::VNC);
        }
        c.p("local", local);
        c.p("dual", dual);
        let s = if dual { tg.try_achieve_dual(pb.init, pb.corr, pb.ach, almanac()) } else { tg.try_achieve_fd(pb.init, pb.corr, pb.ach, almanac()) };
        match s {
            Ok(s) => judge(c, &pb, &tg, &s, None, local),
            Err(_) => c.obs("not found", 1),
        }
    });
    m.group("tight bounds", 40, 1500, |c| {
        let pb = problem(c, false);
        let xs = start(&pb);
        let mut w = xs;
        let dir = rand_dir(c);
        let need = dir * c.f(0.01, 0.05);
        w.orbit.velocity_km_s += need;
        let xw = end(&pb, w);
        let objs = XYZ.map(|e| Objective::within_tolerance(EL(e), val(EL(e), &xw.orbit), 0.1));
        let mut vs = vars(c, false);
        let (lim, stp) = (c.f(0.002, 0.06), c.logu(0.001, 0.2));
        for v in vs.iter_mut() {
            v.init_guess = 0.0;
            v.max_value = lim * c.pick(&[1.0, 1.0, 0.5, 3.0]);
            v.min_value = -lim * c.pick(&[1.0, 1.0, 0.5, 3.0]);
            v.max_step = stp;
        }
        let inside = vs.iter().zip(need.iter()).all(|(v, k)| *k < 0.7 * v.max_value && *k > 0.7 * v.min_value);
        let steps = (need.amax() / stp).ceil() as usize;
        let mut tg = Targeter::new(&pb.prop, vs, objs);
        // Just enough, when the bounds do not interfere.
        tg.iterations = if inside { 2 * steps + 10 } else { 25 };
        c.p("inside", inside);
        let dual = c.b(0.5);
        c.p("lim", lim);
        c.p("step", stp);
        c.p("dual", dual);
        let s = if dual { tg.try_achieve_dual(pb.init, pb.corr, pb.ach, almanac()) } else { tg.try_achieve_fd(pb.init, pb.corr, pb.ach, almanac()) };
        match s {
            Ok(s) => {
                judge(c, &pb, &tg, &s, None, false);
                c.obs("within the bounds", 1);
            }
            Err(e) => {
                if inside {
                    c.fail("a solution within the bounds is found", format!("{need:?} in {steps} steps of {stp}: {e}").chars().take(400).collect::<String>());
                }
                c.obs("out of reach", 1);
                c.nontrivial();
            }
        }
    });
    m.group("objectives about another body", 40, 1500, |c| {
        // A flyby of the Moon, in the integration frame of the Earth
        let e = epoch(c);
        let mu = moonj2k().mu_km3_s2().unwrap();
        let ecc = c.f(1.3, 3.0);
        let (rp, nu) = (c.f(2000.0, 6000.0), -c.f(0.6, 0.85) * (-1.0f64 / ecc).acos());
        let (r, v) = conic(c, mu, rp, ecc, nu);
        if bplane(mu, &r, &v).s.z.abs() > 0.9 {
            c.skip("near the pole");
            return;
        }
        let om = Orbit { radius_km: r, velocity_km_s: v, epoch: e, frame: moonj2k() };
        let oe = ok!(c, "to the Earth", almanac().transform_to(om, eme2k(), None));
        let oe = Orbit { frame: eme2k(), ..oe };
        let prop = Propagator::default(SpacecraftDynamics::new(OrbitalDynamics::from_model(std::sync::Arc::new(PointMasses::new(vec![301])))));
        let back = c.f(0.2, 1.0) * Unit::Day;
        let s0 = sc(c, oe);
        let i0 = ok!(c, "back", prop.with(s0, almanac()).for_duration(-back));
        let corr = i0.epoch() + c.f(0.0, 0.3) * back;
        let pb = Prob { init: i0, corr, ach: e, prop };
        let xs = start(&pb);
        let mut w = xs;
        w.orbit.velocity_km_s += rand_dir(c) * c.logu(1e-4, 3e-3);
        let xw = end(&pb, w);
        let ow = ok!(c, "to the Moon", almanac().transform_to(xw.orbit, moonj2k(), None));
        let bp = c.b(0.6);
        let ps = if bp { [StateParameter::BdotR(), StateParameter::BdotT()] } else { [EL(OrbitalElement::X), EL(OrbitalElement::Y)] };
        let objs = ps.map(|p| Objective::within_tolerance(p, val(p, &ow), 0.1));
        let vs = vars(c, false);
        c.p("bplane", bp);
        let tg = Targeter::in_frame(&pb.prop, vs, objs, moonj2k());
        let s = ok!(c, "a small correction is found", tg.try_achieve_fd(pb.init, pb.corr, pb.ach, almanac()));
        judge(c, &pb, &tg, &s, Some(moonj2k()), false);
        c.obs(if bp { "B plane objectives" } else { "position objectives" }, 1);
    });
    m.group("hopeless problems", 40, 1000, |c| {
        let pb = problem(c, false);
        let vs = vars(c, false);
        let kind = c.u(0, 3);
        c.p("kind", kind);
        let objs = match kind {
            // a B plane of a closed orbit
            0 => [Objective::within_tolerance(StateParameter::BdotR(), 1e4, 0.1), Objective::within_tolerance(StateParameter::BdotT(), 1e4, 0.1)],
            // out of reach
            1 => [Objective::within_tolerance(EL(OrbitalElement::X), 1e7, 0.1), Objective::within_tolerance(EL(OrbitalElement::Y), 1e7, 0.1)],
            // contradictory
            2 => [Objective::within_tolerance(EL(OrbitalElement::X), 7000.0, 0.1), Objective::within_tolerance(EL(OrbitalElement::X), 7100.0, 0.1)],
            // very large values of a coarse tolerance
            _ => [Objective::within_tolerance(EL(OrbitalElement::X), 4e9, 1e3), Objective::within_tolerance(EL(OrbitalElement::Y), 1e9, 1e5)],
        };
        let mut tg = Targeter::new(&pb.prop, vs, objs);
        tg.iterations = 5;
        for dual in [false, true] {
            let s = if dual { tg.try_achieve_dual(pb.init, pb.corr, pb.ach, almanac()) } else { tg.try_achieve_fd(pb.init, pb.corr, pb.ach, almanac()) };
            c.check("refused", s.is_err(), || format!("kind {kind} is solved"));
        }
        // Invalid variables
        let mut bad = vs;
        match c.u(0, 2) {
            0 => bad[1].max_step = -1.0,
            1 => bad[1].max_value = -1.0,
            _ => bad[1].min_value = bad[1].max_value + 1.0,
        }
        let easy = [Objective::within_tolerance(EL(OrbitalElement::X), 7000.0, 1e9), Objective::within_tolerance(EL(OrbitalElement::Y), 7000.0, 1e9)];
        let tb = Targeter::new(&pb.prop, bad, easy);
        c.check("invalid variable", tb.try_achieve_fd(pb.init, pb.corr, pb.ach, almanac()).is_err() && tb.try_achieve_dual(pb.init, pb.corr, pb.ach, almanac()).is_err(), || format!("{:?} accepted", bad[1]));
        // A position in a local frame
        let pv = vars(c, true);
        let tp = Targeter::vnc_with_components(&pb.prop, pv, easy);
        c.check("position in a local frame", tp.try_achieve_fd(pb.init, pb.corr, pb.ach, almanac()).is_err() && tp.try_achieve_dual(pb.init, pb.corr, pb.ach, almanac()).is_err(), || "accepted".into());
        // A burn without a thruster
        let v = c.pick(&[Vary::MnvrAlpha, Vary::MnvrAlphaDot, Vary::MnvrAlphaDDot, Vary::MnvrDelta, Vary::MnvrDeltaDot, Vary::MnvrDeltaDDot, Vary::StartEpoch, Vary::Duration, Vary::EndEpoch, Vary::ThrustX, Vary::ThrustY, Vary::ThrustZ, Vary::ThrustLevel, Vary::ThrustRateX, Vary::ThrustRateY, Vary::ThrustRateZ, Vary::ThrustAccelX, Vary::ThrustAccelY, Vary::ThrustAccelZ]);
        let mut fb = vs;
        fb[c.u(0, vs.len() - 1)] = v.into();
        let tf = Targeter::new(&pb.prop, fb, easy);
        let mut coasting = pb.init;
        coasting.thruster = None;
        c.check("a burn without a thruster", v.is_finite_burn() && tf.try_achieve_fd(coasting, pb.corr, pb.ach, almanac()).is_err() && tf.try_achieve_dual(coasting, pb.corr, pb.ach, almanac()).is_err(), || format!("{v:?} accepted"));
        // Nothing to do
        let t0 = Targeter::new(&pb.prop, vs.map(|mut v| { v.init_guess = 0.0; v }), easy);
        let s = ok!(c, "nothing to do", t0.try_achieve_fd(pb.init, pb.corr, pb.ach, almanac()));
        c.check("no correction", s.correction.norm() == 0.0 && s.iterations == 0, || format!("{}", s.correction));
        c.obs("refusals", 1);
        c.nontrivial();
    });
    m.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C19") => c19(),
        Some("C20") => c20(),
        Some("C21") => c21(),
        _ => std::process::exit(3),
    }
}
