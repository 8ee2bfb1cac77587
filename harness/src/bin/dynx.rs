//! C05-C09, C38: environment models.
use anise::constants::frames::*;
use anise::prelude::*;
use hifitime::Unit;
use nalgebra::{Matrix3, Vector3};
use nyx_space::cosmic::eclipse::ShadowModel;
use nyx_space::cosmic::{Spacecraft, State};
use nyx_space::dynamics::*;
use nyx_space::io::gravity::*;
use nyxmon::alm::*;
use nyxmon::gens::*;
use nyxmon::math::*;
use nyxmon::mon::*;
use nyxmon::ok;
use std::io::Write;
use std::sync::{Arc, OnceLock};

const C_M_S: f64 = 299_792_458.0;

fn jac(f: impl Fn(&V3) -> V3, r: &V3, h: f64) -> Matrix3<f64> {
    let mut m = Matrix3::zeros();
    for j in 0..3 {
        let mut e = V3::zeros();
        e[j] = h;
        let d = (f(&(r + e)) - f(&(r - e))) * (8.0 / (12.0 * h)) - (f(&(r + 2.0 * e)) - f(&(r - 2.0 * e))) * (1.0 / (12.0 * h));
        m.set_column(j, &d);
    }
    m
}

/// A random state about a body, in any of the inertial or body fixed orientations.
fn state(c: &mut Case) -> Orbit {
    let o = any_orbit(c);
    if c.b(0.25) {
        let fr = o.frame.with_orient(17);
        c.p("orient", "ECLIPJ2000");
        let mut t = almanac().transform_to(o, fr, None).expect("rotation to ECLIPJ2000");
        t.frame.mu_km3_s2 = o.frame.mu_km3_s2;
        t.frame.shape = o.frame.shape;
        t
    } else {
        o
    }
}
/// Rotation from J2000 into the frame of this orbit
fn from_j2000(o: &Orbit) -> Matrix3<f64> {
    if o.frame.orientation_id == 17 {
        let e = 84381.448f64 / 3600.0;
        let (s, c) = e.to_radians().sin_cos();
        Matrix3::new(1.0, 0.0, 0.0, 0.0, c, s, 0.0, -s, c)
    } else {
        Matrix3::identity()
    }
}
fn body_of(o: &Orbit) -> i32 {
    o.frame.ephemeris_id
}
fn mu_of(b: i32) -> f64 {
    match b {
        399 => MU_EARTH,
        301 => MU_MOON,
        10 => MU_SUN,
        5 => MU_JUP,
        2 | 299 => MU_VENUS,
        4 | 499 => MU_MARS,
        _ => unreachable!(),
    }
}

fn third(o: &Orbit, r: &V3, bodies: &[i32]) -> V3 {
    let q = from_j2000(o);
    let mut a = V3::zeros();
    for b in bodies {
        if *b == body_of(o) {
            continue;
        }
        let s = q * rel_pos(*b, body_of(o), o.epoch);
        let d = s - r;
        a += mu_of(*b) * (d / d.norm().powi(3) - s / s.norm().powi(3));
    }
    a
}

fn c05() {
    let mut m = Mon::new(
        "C05",
        "Random states about five bodies in J2000 and ecliptic axes, with every subset of six perturbing point masses (the central body included), and random combinations of acceleration and force models; accelerations compared with analytic ephemerides, gradients with finite differences. Non-trivial: at least one perturber contributes.",
    );
    m.assume("synthetic ephemerides (circular motions), accurate to 1e-5 km");
    let alm = almanac();
    m.group("point-masses", 12000, 400000, |c| {
        let o = state(c);
        let mut bodies = vec![];
        for b in [399, 301, 10, 5, 299, 499] {
            if c.b(0.5) {
                bodies.push(b);
            }
        }
        if c.b(0.3) {
            bodies.reverse();
        }
        c.p("bodies", &bodies);
        let pm = PointMasses::new(bodies.clone());
        let got = ok!(c, "acceleration-fails", pm.eom(&o, &alm));
        let want = third(&o, &o.radius_km, &bodies);
        let scale: f64 = bodies.iter().filter(|b| **b != body_of(&o)).map(|b| mu_of(*b) / rel_pos(*b, body_of(&o), o.epoch).norm_squared()).sum();
        c.vnear("third-body-acceleration", got.as_slice(), want.as_slice(), 1e-9 * want.norm() + 1e-11 * scale);
        let (ga, gm) = ok!(c, "gradient-fails", pm.gradient(&o, &alm));
        c.vnear("gradient-acceleration", ga.as_slice(), want.as_slice(), 1e-9 * want.norm() + 1e-11 * scale);
        let h = 1e-3 * o.rmag_km();
        let gw = jac(|r| third(&o, r, &bodies), &o.radius_km, h);
        c.vnear("third-body-gradient", gm.as_slice(), gw.as_slice(), 2e-5 * gw.norm() + 1e-14 * scale / h);
        // the whole dynamics
        let dy = SpacecraftDynamics::new(OrbitalDynamics::from_model(Arc::new(pm)));
        let s = sc(c, o);
        let dt = c.f(-300.0, 300.0);
        let d = ok!(c, "eom-fails", dy.eom(0.0, &s.to_vector(), &s, &alm));
        let central = -o.frame.mu_km3_s2().unwrap() / o.rmag_km().powi(3) * o.radius_km;
        let tot = central + want;
        c.vnear("velocity", &d.as_slice()[..3], o.velocity_km_s.as_slice(), 1e-14);
        c.vnear("total-acceleration", &d.as_slice()[3..6], tot.as_slice(), 1e-12 * central.norm() + 1e-9 * want.norm() + 1e-11 * scale);
        c.check("rest-constant", d.as_slice()[6..].iter().all(|x| *x == 0.0), || format!("{d}"));
        // within a step, the epoch is that of the stage
        let d2 = ok!(c, "eom-fails", dy.eom(dt, &s.to_vector(), &s, &alm));
        let mut o2 = o;
        o2.epoch += dt * Unit::Second;
        let w2 = central + third(&o2, &o.radius_km, &bodies);
        c.vnear("stage-epoch", &d2.as_slice()[3..6], w2.as_slice(), 1e-12 * central.norm() + 1e-9 * want.norm() + 1e-11 * scale);
        c.obs("perturbers", bodies.iter().filter(|b| **b != body_of(&o)).count() as u64);
        if want.norm() > 0.0 {
            c.nontrivial();
        }
    });
    // Light time corrections of the perturbers
    m.group("light-time", 3000, 60000, |c| {
        let o = state(c);
        let ab = c.pick(&[Aberration::LT, Aberration::CN]);
        let bodies: Vec<i32> = [399, 301, 10, 5].into_iter().filter(|b| *b != body_of(&o) && c.b(0.6)).collect();
        c.p("bodies", &bodies);
        c.p("correction", format!("{ab:?}"));
        let pm = PointMasses::with_correction(bodies.clone(), ab);
        let et = o.epoch.to_et_seconds();
        let obs = ssb_pos(body_of(&o), et);
        let q = from_j2000(&o);
        let apparent: Vec<(i32, V3)> = bodies
            .iter()
            .map(|b| {
                let mut lt = 0.0;
                for _ in 0..6 {
                    lt = (ssb_pos(*b, et - lt) - obs).norm() / 299_792.458;
                }
                (*b, q * (ssb_pos(*b, et - lt) - obs))
            })
            .collect();
        let f = |r: &V3| {
            let mut a = V3::zeros();
            for (b, s) in &apparent {
                let d = s - r;
                a += mu_of(*b) * (d / d.norm().powi(3) - s / s.norm().powi(3));
            }
            a
        };
        let want = f(&o.radius_km);
        let scale: f64 = apparent.iter().map(|(b, s)| mu_of(*b) / s.norm_squared()).sum();
        let got = ok!(c, "acceleration-fails", pm.eom(&o, &alm));
        c.vnear("light-time-acceleration", got.as_slice(), want.as_slice(), 2e-6 * want.norm() + 1e-11 * scale);
        let (ga, gg) = ok!(c, "gradient-fails", pm.gradient(&o, &alm));
        c.vnear("light-time-gradient-acceleration", ga.as_slice(), got.as_slice(), 1e-9 * want.norm() + 1e-11 * scale);
        let h = 1e-3 * o.rmag_km();
        let gw = jac(f, &o.radius_km, h);
        c.vnear("light-time-gradient", gg.as_slice(), gw.as_slice(), 2e-5 * gw.norm() + 1e-14 * scale / h);
        if want.norm() > 0.0 {
            c.nontrivial();
        }
    });
    m.group("superposition", 5000, 100000, |c| {
        let e = epoch(c);
        let o = orbit(c, eme2k(), e, 0.2, 1.4);
        let mut s = sc(c, o);
        s.mass.extra_mass_kg = c.f(0.0, 500.0);
        let mut accel: Vec<Arc<dyn AccelModel + Sync>> = vec![];
        let mut force: Vec<Arc<dyn ForceModel>> = vec![];
        let pm = PointMasses::new(vec![301, 10]);
        let gf = GravityField::new(GravityFieldData::from_j2(-4.84e-4, iau_earth()));
        let st = ok!(c, "tides", SolidTides::earth_moon_system(iau_earth(), moonj2k(), &alm));
        let srp = ok!(c, "srp", SolarPressure::default_flux(eme2k(), &alm));
        let drag = ok!(c, "drag", Drag::earth_exp(&alm));
        let mut want = -MU_EARTH / o.rmag_km().powi(3) * o.radius_km;
        let sel = c.u(0, 31);
        c.p("models", sel);
        let mut n = 0;
        if sel & 1 != 0 {
            want += pm.eom(&o, &alm).unwrap();
            accel.push(Arc::new(pm));
            n += 1;
        }
        if sel & 2 != 0 {
            want += gf.eom(&o, &alm).unwrap();
            accel.push(gf);
            n += 1;
        }
        if sel & 4 != 0 {
            want += st.eom(&o, &alm).unwrap();
            accel.push(Arc::new(st));
            n += 1;
        }
        let mass = s.mass.dry_mass_kg + s.mass.prop_mass_kg + s.mass.extra_mass_kg;
        let grav = want;
        if sel & 8 != 0 {
            want += srp.eom(&s, &alm).unwrap() / mass;
            force.push(srp);
            n += 1;
        }
        if sel & 16 != 0 {
            want += drag.eom(&s, &alm).unwrap() / mass;
            force.push(drag);
            n += 1;
        }
        let dy = SpacecraftDynamics::from_models(OrbitalDynamics::new(accel), force);
        let d = ok!(c, "eom-fails", dy.eom(0.0, &s.to_vector(), &s, &alm));
        c.vnear("sum-of-models", &d.as_slice()[3..6], want.as_slice(), 1e-11 * want.norm() + 1e-25);
        c.check("rest-constant", d.as_slice()[6..].iter().all(|x| *x == 0.0), || format!("{d}"));
        // Within a step, the mass is that of the stage
        if n > 0 && s.mass.prop_mass_kg > 0.0 {
            let mut v = s.to_vector();
            v[8] *= c.f(0.1, 0.9);
            let d2 = ok!(c, "eom-fails", dy.eom(0.0, &v, &s, &alm));
            let m2 = s.mass.dry_mass_kg + v[8] + s.mass.extra_mass_kg;
            let w2 = grav + (want - grav) * (mass / m2);
            c.vnear("mass-of-the-stage", &d2.as_slice()[3..6], w2.as_slice(), 1e-11 * w2.norm() + 1e-25);
        }
        if sel & 16 == 0 {
            // With the partials
            let s2 = s.with_stm();
            let d = ok!(c, "eom-fails", dy.eom(0.0, &s2.to_vector(), &s2, &alm));
            c.vnear("sum-of-models-with-partials", &d.as_slice()[3..6], want.as_slice(), 1e-11 * want.norm());
        } else {
            let s2 = s.with_stm();
            c.check("undefined-partials-are-refused", dy.eom(0.0, &s2.to_vector(), &s2, &alm).is_err(), || "drag has no partials".into());
        }
        c.obs("models_combined", n);
        if n > 0 {
            c.nontrivial();
        }
    });
    m.group("errors", 20, 40, |c| {
        let o = leo(c);
        let pm = PointMasses::new(vec![301, 799]);
        c.check("unknown-body-is-an-error", pm.eom(&o, &alm).is_err() && pm.gradient(&o, &alm).is_err(), || "body 799 is not loaded".into());
        let mut s = sc(c, o);
        s.mass = nyx_space::cosmic::Mass { dry_mass_kg: 0.0, prop_mass_kg: 0.0, extra_mass_kg: 0.0 };
        let dy = SpacecraftDynamics::from_model(OrbitalDynamics::two_body(), Drag::earth_exp(&alm).unwrap());
        c.check("massless-is-an-error", dy.eom(0.0, &s.to_vector(), &s, &alm).is_err(), || "force on a massless spacecraft".into());
    });
    m.finish()
}

// ---------- gravity fields

struct Coeffs {
    n: usize,
    c: Vec<Vec<f64>>,
    s: Vec<Vec<f64>>,
    /// Largest order written to the file
    top: usize,
}
impl Coeffs {
    fn random(rng: &mut Case, n: usize, m: usize, scale: f64) -> Self {
        let mut c = vec![vec![0.0; n + 1]; n + 1];
        let mut s = vec![vec![0.0; n + 1]; n + 1];
        for i in 2..=n {
            for j in 0..=i.min(m) {
                c[i][j] = rng.f(-1.0, 1.0) * scale / (i * i) as f64;
                if j > 0 {
                    s[i][j] = rng.f(-1.0, 1.0) * scale / (i * i) as f64;
                }
            }
        }
        let top = if rng.b(0.3) { m } else { n };
        Coeffs { n, c, s, top }
    }
    fn shadr(&self, commas: bool, dexp: bool) -> String {
        let mut t = String::from("  0.6378136300000000E+04, 0.3986004415000000E+06, 0.0E+00, 20, 20, 1, 0.0, 0.0\n");
        for n in 1..=self.n {
            for m in 0..=n.min(self.top) {
                let sep = if commas { "," } else { " " };
                let mut l = format!("{n:5}{sep}{m:5}{sep}{:.16E}{sep}{:.16E}{sep}1.0E-12{sep}1.0E-12", self.c[n][m], self.s[n][m]);
                if dexp {
                    l = l.replace('E', "D");
                }
                t.push_str(&l);
                t.push('\n');
            }
        }
        t
    }
    fn cof(&self) -> String {
        let mut t = String::from("C comment\nPOTFIELD  20 20  1  0.39860044E+15  0.63781363E+07 1.0\n");
        for n in 2..=self.n {
            for m in 0..=n.min(self.top) {
                t.push_str(&format!("RECOEF  {n:3}{m:5}   {}{}\n", sci(self.c[n][m]), if m == 0 { String::new() } else if self.s[n][m] < 0.0 { sci(self.s[n][m]) } else { format!(" {}", sci(self.s[n][m])) }));
            }
        }
        t.push_str("END\n");
        t
    }
    /// Acceleration by the Cunningham recursion on solid harmonics (in the body frame).
    fn accel(&self, mu: f64, re: f64, r: &V3, deg: usize, ord: usize) -> V3 {
        let deg = deg.min(self.n);
        let k = deg + 2;
        let r2 = r.norm_squared();
        let (x, y, z) = (r.x * re / r2, r.y * re / r2, r.z * re / r2);
        let q = re * re / r2;
        let mut v = vec![vec![0.0; k + 1]; k + 1];
        let mut w = vec![vec![0.0; k + 1]; k + 1];
        v[0][0] = re / r2.sqrt();
        for m in 0..=k {
            if m > 0 {
                let f = (2 * m - 1) as f64;
                v[m][m] = f * (x * v[m - 1][m - 1] - y * w[m - 1][m - 1]);
                w[m][m] = f * (x * w[m - 1][m - 1] + y * v[m - 1][m - 1]);
            }
            for n in m + 1..=k {
                let a = (2 * n - 1) as f64 / (n - m) as f64;
                let b = (n + m) as f64 - 1.0;
                let b = b / (n - m) as f64;
                v[n][m] = a * z * v[n - 1][m] - if n >= m + 2 { b * q * v[n - 2][m] } else { 0.0 };
                w[n][m] = a * z * w[n - 1][m] - if n >= m + 2 { b * q * w[n - 2][m] } else { 0.0 };
            }
        }
        let mut acc = V3::zeros();
        for n in 1..=deg {
            for m in 0..=n.min(ord) {
                // (2 - d0m)(2n+1)(n-m)!/(n+m)!
                let mut fac = (2 * n + 1) as f64 * if m == 0 { 1.0 } else { 2.0 };
                for i in (n - m + 1)..=(n + m) {
                    fac /= i as f64;
                }
                let nf = fac.sqrt();
                let (cc, ss) = (self.c[n][m] * nf, self.s[n][m] * nf);
                if m == 0 {
                    acc.x -= cc * v[n + 1][1];
                    acc.y -= cc * w[n + 1][1];
                } else {
                    let g = ((n - m + 2) * (n - m + 1)) as f64;
                    acc.x += 0.5 * (-cc * v[n + 1][m + 1] - ss * w[n + 1][m + 1] + g * (cc * v[n + 1][m - 1] + ss * w[n + 1][m - 1]));
                    acc.y += 0.5 * (-cc * w[n + 1][m + 1] + ss * v[n + 1][m + 1] + g * (-cc * w[n + 1][m - 1] + ss * v[n + 1][m - 1]));
                }
                acc.z += (n - m + 1) as f64 * (-cc * v[n + 1][m] - ss * w[n + 1][m]);
            }
        }
        acc * mu / (re * re)
    }
}
fn sci(x: f64) -> String {
    // 0.123456E-06 style with a two digit exponent, as in COF files
    let s = format!("{x:.14E}");
    let (a, b) = s.split_once('E').unwrap();
    let e: i32 = b.parse().unwrap();
    format!("{a}E{}{:02}", if e < 0 { '-' } else { '+' }, e.abs())
}

fn scratch() -> &'static std::path::PathBuf {
    static D: OnceLock<std::path::PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("nyxmon-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    })
}
fn cleanup() {
    let d = std::env::temp_dir().join(format!("nyxmon-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(d);
}

fn gz(path: &std::path::Path, txt: &[u8]) {
    let f = std::fs::File::create(path).unwrap();
    let mut e = flate2::write::GzEncoder::new(f, flate2::Compression::fast());
    e.write_all(txt).unwrap();
    e.finish().unwrap();
}

fn c06() {
    let mut m = Mon::new(
        "C06",
        "Random gravity fields (degree 2 to 24, thorough 60, any order), truncated at random degree and order, evaluated about the Earth, Moon and Mars from 1.01 to 6 radii including the poles and the equator, from body centered inertial, ecliptic and other bodies' frames; accelerations compared with a Cunningham recursion, gradients with its finite differences, Laplace's equation, symmetry. Non-trivial: some tesseral or zonal coefficient is active.",
    );
    m.assume("fully normalised coefficients");
    let alm = almanac();
    let mk = |c: &mut Case, maxn: usize| -> Option<(Coeffs, GravityFieldData, usize, usize, Frame)> {
        let n = c.u(2, maxn);
        let mm = c.u(0, n);
        let co = Coeffs::random(c, n, mm, 1e-3);
        let p = scratch().join(format!("g{}.shadr", c.idx));
        std::fs::write(&p, co.shadr(c.b(0.5), c.b(0.3))).unwrap();
        let fr = c.pick(&[iau_earth(), iau_moon(), alm.frame_info(IAU_MARS_FRAME).unwrap()]);
        let deg = if c.b(0.4) { n } else { c.u(2, n) };
        let ord = if c.b(0.4) { deg } else { c.u(0, deg) };
        c.p("field", (n, mm));
        c.p("truncated", (deg, ord));
        c.p("frame", fr.to_string());
        let r = GravityFieldData::from_shadr(&p, deg, ord, false, fr);
        let _ = std::fs::remove_file(&p);
        let d = c.ok("load", r)?;
        Some((co, d, deg, ord, fr))
    };
    let maxn = if m.thorough { 60 } else { 24 };
    m.group("field", 5000, 40000, |c| {
        let Some((co, data, deg, ord, fr)) = mk(c, maxn) else { return };
        let re = fr.mean_equatorial_radius_km().unwrap();
        let mu = fr.mu_km3_s2().unwrap();
        let gf = GravityField::new(data);
        for _ in 0..4 {
            let e = epoch(c);
            // position in the body frame
            let mut dir = V3::new(c.gauss(), c.gauss(), c.gauss()).normalize();
            match c.u(0, 9) {
                0 => dir = V3::new(0.0, 0.0, if c.b(0.5) { 1.0 } else { -1.0 }),
                1 => dir = V3::new(dir.x, dir.y, 0.0).normalize(),
                2 => dir = V3::new(1e-9, 1e-9, 1.0).normalize(),
                _ => {}
            }
            let rb = dir * re * c.logu(1.01, 6.0);
            c.p("rb", rb.as_slice());
            let base = alm.frame_info(Frame::from_ephem_j2000(fr.ephemeris_id)).unwrap();
            let which = c.u(0, 3);
            let inert = match which {
                0 => base.with_orient(17),
                _ => base,
            };
            let dcm = alm.rotate(fr, inert, e).unwrap().rot_mat;
            let mut r = dcm * rb;
            let mut frame = inert;
            let other = which == 3 && fr.ephemeris_id == 301;
            if other {
                // seen from the Earth
                r += rel_pos(301, 399, e);
                frame = eme2k();
                c.obs("other_body", 1);
            }
            frame.mu_km3_s2 = Some(mu);
            let o = Orbit::from_cartesian_pos_vel(nalgebra::Vector6::new(r.x, r.y, r.z, 1.0, 2.0, 3.0), e, frame);
            let got = ok!(c, "field-fails", gf.eom(&o, &alm));
            let f = |rb: &V3| co.accel(mu, re, rb, deg, ord);
            let want = dcm * f(&rb);
            let scale = 1e-3 * mu / rb.norm_squared();
            let loose = if other { 1e4 } else { 1.0 };
            c.vnear("harmonic-acceleration", got.as_slice(), want.as_slice(), 1e-9 * want.norm() * if other { 100.0 } else { 1.0 } + 1e-12 * scale * loose);
            let (ga, gg) = ok!(c, "gradient-fails", gf.gradient(&o, &alm));
            c.vnear("gradient-acceleration", ga.as_slice(), want.as_slice(), 1e-9 * want.norm() * if other { 100.0 } else { 1.0 } + 1e-12 * scale * loose);
            let h = 2e-4 * rb.norm() / (1.0 + deg as f64 / 10.0);
            let gw = dcm * jac(f, &rb, h) * dcm.transpose();
            c.vnear("harmonic-gradient", gg.as_slice(), gw.as_slice(), 1e-6 * gw.norm() + 1e-10 * scale / rb.norm() * deg as f64 * loose);
            let gn = gg.norm();
            c.check("laplace", gg.trace().abs() <= 1e-9 * gn + 1e-20, || format!("trace {:e} of {gg}", gg.trace()));
            c.check("symmetric-gradient", (gg - gg.transpose()).norm() <= 1e-9 * gn + 1e-20, || format!("{gg}"));
            c.obs("evaluations", 1);
            if want.norm() > 0.0 {
                c.nontrivial();
            }
        }
    });
    m.group("j2", 3000, 30000, |c| {
        // closed form of the degree two zonal
        let e = epoch(c);
        let o = orbit(c, eme2k(), e, 0.4, 3.0);
        let j2 = c.f(-1e-2, 1e-2);
        let gf = GravityField::new(GravityFieldData::from_j2(j2, iau_earth()));
        let dcm = alm.rotate(iau_earth(), eme2k(), e).unwrap().rot_mat;
        let rb = dcm.transpose() * o.radius_km;
        let r = rb.norm();
        let re = 6378.1366;
        let jj = -j2 * 5f64.sqrt();
        let z2 = rb.z * rb.z / (r * r);
        let k = -1.5 * jj * MU_EARTH * re * re / r.powi(5);
        let ab = V3::new(k * rb.x * (1.0 - 5.0 * z2), k * rb.y * (1.0 - 5.0 * z2), k * rb.z * (3.0 - 5.0 * z2));
        let want = dcm * ab;
        let got = ok!(c, "field-fails", gf.eom(&o, &alm));
        c.vnear("zonal-closed-form", got.as_slice(), want.as_slice(), 1e-11 * want.norm());
        let (g2, _) = ok!(c, "gradient-fails", gf.gradient(&o, &alm));
        c.vnear("zonal-closed-form-gradient", g2.as_slice(), want.as_slice(), 1e-11 * want.norm());
        c.nontrivial();
    });
    cleanup();
    m.finish()
}

fn c38() {
    let mut m = Mon::new(
        "C38",
        "Random coefficient sets written as SHADR (commas or blanks, E or D exponents) and COF (with fused negative S), plain or gzipped, loaded at every kind of requested degree and order, directly and from a configuration; and damaged files (truncated, bit flips, garbage, missing, wrong compression flag). Non-trivial: some coefficients beyond degree two are read back.",
    );
    m.assume("files are ordered by degree (documented)");
    let alm = almanac();
    m.group("roundtrip", 4000, 60000, |c| {
        let n = c.u(2, 16);
        let mm = c.u(0, n);
        let co = Coeffs::random(c, n, mm, 1e-3);
        let cof = c.b(0.5);
        let zip = c.b(0.5);
        let cfg = c.b(0.5);
        let txt = if cof { co.cof() } else { co.shadr(c.b(0.5), c.b(0.3)) };
        let p = scratch().join(format!("r{}.{}{}", c.idx, if cof { "cof" } else { "tab" }, if zip { ".gz" } else { "" }));
        if zip {
            gz(&p, txt.as_bytes());
        } else {
            std::fs::write(&p, &txt).unwrap();
        }
        let deg = match c.u(0, 3) {
            0 => n,
            1 => n + c.u(1, 5),
            _ => c.u(2, n),
        };
        let ord = match c.u(0, 3) {
            0 => deg,
            1 => 0,
            2 => deg + 3,
            _ => c.u(0, deg),
        };
        c.p("n", (n, mm));
        c.p("req", (deg, ord));
        c.p("fmt", (cof, zip, cfg));
        let r = if cfg {
            GravityFieldData::from_config(GravityFieldConfig { degree: deg, order: ord, filepath: p.clone(), gunzipped: zip, frame: IAU_EARTH_FRAME.into() }, &alm)
        } else if cof {
            GravityFieldData::from_cof(&p, deg, ord, zip, iau_earth())
        } else {
            GravityFieldData::from_shadr(&p, deg, ord, zip, iau_earth())
        };
        let _ = std::fs::remove_file(&p);
        let d = ok!(c, "load-fails", r);
        c.check("degree", d.max_degree_n() == deg.min(n), || format!("degree {} for a file of degree {n} and a request of {deg}", d.max_degree_n()));
        c.check("order-not-above-degree", d.max_order_m() <= d.max_degree_n(), || format!("{}", d.max_order_m()));
        c.check("order-covers-request", d.max_order_m() >= ord.min(co.top).min(deg.min(n)), || format!("order {} for a request of {ord}", d.max_order_m()));
        c.check("frame", d.frame.ephemeris_id == 399 && d.frame.orientation_id == IAU_EARTH_FRAME.orientation_id && d.frame.mu_km3_s2.is_some(), || format!("{}", d.frame));
        for i in 2..=deg.min(n) {
            for j in 0..=i {
                let (cc, ss) = d.cs_nm(i, j);
                let (wc, ws) = if j <= ord { (co.c[i][j], co.s[i][j]) } else { (0.0, 0.0) };
                let ok = (cc - wc).abs() <= 1e-13 * wc.abs() && (ss - ws).abs() <= 1e-13 * ws.abs();
                if !c.check("coefficients", ok, || format!("C,S({i},{j}) = {cc:e},{ss:e} instead of {wc:e},{ws:e}")) {
                    return;
                }
                c.obs("coefficients_read", 1);
            }
        }
        // and the field is usable
        let o = leo(c);
        let gf = GravityField::new(d);
        let a = ok!(c, "field-fails", gf.eom(&o, &alm));
        c.check("finite", a.iter().all(|x| x.is_finite()), || format!("{a}"));
        if deg > 2 {
            c.nontrivial();
        }
    });
    m.group("jgm3", 40, 600, |c| {
        // The file shipped with nyx
        let p = "/repo/data/01_planetary/JGM3.cof.gz";
        let deg = c.u(2, 70);
        let ord = c.u(0, deg);
        c.p("req", (deg, ord));
        let d = if c.b(0.5) {
            ok!(c, "load-fails", GravityFieldData::from_config(GravityFieldConfig { degree: deg, order: ord, filepath: p.into(), gunzipped: true, frame: IAU_EARTH_FRAME.into() }, &alm))
        } else {
            ok!(c, "load-fails", GravityFieldData::from_cof(p, deg, ord, true, iau_earth()))
        };
        let mut txt = String::new();
        std::io::Read::read_to_string(&mut flate2::read::GzDecoder::new(std::fs::File::open(p).unwrap()), &mut txt).unwrap();
        let mut seen = 0;
        for l in txt.lines().filter(|l| l.starts_with("RECOEF")) {
            // fixed columns: degree 8..11, order 11..14, C 17..38, S 38..59
            let n: usize = l[6..11].trim().parse().unwrap();
            let k: usize = l[11..14].trim().parse().unwrap();
            if n > deg {
                continue;
            }
            let (wc, ws): (f64, f64) = (l[17..38].trim().parse().unwrap(), l.get(38..59).map(|s| s.trim().parse().unwrap_or(0.0)).unwrap_or(0.0));
            let (cc, ss) = d.cs_nm(n, k);
            let (wc, ws) = if k <= ord { (wc, ws) } else { (0.0, 0.0) };
            c.check("coefficients", cc == wc && ss == ws, || format!("C,S({n},{k}) = {cc:e},{ss:e} instead of {wc:e},{ws:e}: {l}"));
            seen += 1;
        }
        c.obs("jgm3_coefficients", seen);
        if seen > 5 {
            c.nontrivial();
        }
    });
    m.group("damaged", 6000, 100000, |c| {
        let n = c.u(2, 8);
        let co = Coeffs::random(c, n, n, 1e-3);
        let cof = c.b(0.5);
        let mut txt = if cof { co.cof() } else { co.shadr(c.b(0.5), false) }.into_bytes();
        let zip = c.b(0.4);
        let mut flag = zip;
        let kind = c.u(0, 7);
        c.p("damage", kind);
        c.p("cof", cof);
        match kind {
            0 => {
                let k = c.u(0, txt.len());
                txt.truncate(k);
            }
            1 => {
                for _ in 0..c.u(1, 20) {
                    let k = c.u(0, txt.len() - 1);
                    txt[k] = c.u(32, 126) as u8;
                }
            }
            2 => {
                for _ in 0..c.u(1, 20) {
                    let k = c.u(0, txt.len() - 1);
                    txt[k] = c.u(0, 255) as u8;
                }
            }
            3 => txt = (0..c.u(0, 400)).map(|_| c.u(0, 255) as u8).collect(),
            4 => flag = !flag,
            5 => {
                let l = if cof { "RECOEF    3    9   1.0E-06 1.0E-06\n" } else { "3, 9, 1.0E-6, 1.0E-6\n" };
                let at = if cof { txt.len() / 2 } else { txt.iter().position(|b| *b == b'\n').unwrap() + 1 };
                let at = txt[..at].iter().rposition(|b| *b == b'\n').unwrap() + 1;
                for (i, b) in l.bytes().enumerate() {
                    txt.insert(at + i, b);
                }
            }
            6 => {
                // drop random lines
                let s = String::from_utf8(txt).unwrap();
                let keep: Vec<&str> = s.lines().filter(|_| c.rng_bool()).collect();
                txt = keep.join("\n").into_bytes();
            }
            _ => {}
        }
        let p = scratch().join(format!("d{}", c.idx));
        if zip {
            gz(&p, &txt);
            if kind == 7 {
                let b = std::fs::read(&p).unwrap();
                let k = c.u(0, b.len());
                std::fs::write(&p, &b[..k]).unwrap();
            }
        } else if kind != 7 {
            std::fs::write(&p, &txt).unwrap();
        }
        let deg = c.u(0, n + 2);
        let ord = c.u(0, n + 12);
        c.p("req", (deg, ord));
        let r = if cof { GravityFieldData::from_cof(&p, deg, ord, flag, iau_earth()) } else { GravityFieldData::from_shadr(&p, deg, ord, flag, iau_earth()) };
        let missing = kind == 7 && !zip;
        if missing {
            c.check("missing-file-is-an-error", r.is_err(), || "loaded a missing file".into());
        }
        let _ = std::fs::remove_file(&p);
        match r {
            Err(_) => c.obs("refused", 1),
            Ok(d) => {
                c.obs("accepted", 1);
                c.check("consistent", d.max_degree_n() <= deg && d.max_order_m() <= d.max_degree_n(), || format!("{} {}", d.max_degree_n(), d.max_order_m()));
                if d.max_degree_n() >= 1 {
                    let o = leo(c);
                    let gf = GravityField::new(d);
                    let _ = ok!(c, "field-fails", gf.eom(&o, &alm));
                    let _ = ok!(c, "gradient-fails", gf.gradient(&o, &alm));
                }
            }
        }
        c.nontrivial();
    });
    cleanup();
    m.finish()
}

// ---------- solar radiation pressure and eclipses

/// Occultation of the Sun by this body, in [0, 1], with angular radii and a planar overlap.
fn occulted(sun: &V3, body: &V3, rb: f64) -> (f64, f64, f64, f64) {
    let a = (695700.0 / sun.norm()).asin();
    let b = (rb / body.norm()).min(1.0).asin();
    let d = sun.normalize().cross(&body.normalize()).norm().atan2(sun.normalize().dot(&body.normalize()));
    (disk_overlap(a, b, d), a, b, d)
}

fn c07() {
    let mut m = Mon::new(
        "C07",
        "Random spacecraft about five bodies, in J2000 and ecliptic axes, in sunlight, penumbra and umbra of one or two bodies; force compared with flux, area, reflectivity and distance to the analytic Sun, occultation with an independent overlap of disks, gradient with finite differences. Non-trivial: the Sun is at least partly visible; penumbrae, umbrae are counted.",
    );
    m.assume("penumbra compared within 1e-5 of the planar overlap of the two disks");
    let alm = almanac();
    let radius = |b: i32| match b {
        399 => 6378.1366,
        301 => 1737.4,
        _ => 3396.19,
    };
    m.group("pressure", 15000, 400000, |c| {
        let mut o = state(c);
        if body_of(&o) == 10 {
            // keep clear of the Sun itself
            o.radius_km *= c.f(20.0, 200.0);
        }
        let q = from_j2000(&o);
        let mut bodies: Vec<Frame> = vec![];
        for f in [eme2k(), moonj2k(), marsj2k()] {
            if c.b(0.5) {
                bodies.push(f);
            }
        }
        // place some states in the shadow of the central body
        let b = body_of(&o);
        if [399, 301, 499].contains(&b) && c.b(0.5) {
            let sun = q * rel_pos(10, b, o.epoch);
            let anti = -sun.normalize();
            let mut perp = V3::new(c.gauss(), c.gauss(), c.gauss());
            perp -= anti * perp.dot(&anti);
            let perp = perp.normalize();
            let l = radius(b) * c.logu(1.2, 40.0);
            let edge = match c.u(0, 3) {
                0 => c.f(0.0, 0.9) * radius(b),
                1 => c.f(1.2, 4.0) * radius(b),
                _ => radius(b) + c.f(-1.5, 1.5) * l * 695700.0 / sun.norm(),
            };
            o.radius_km = anti * l + perp * edge;
            c.p("edge", edge);
        }
        let mut s = sc(c, o);
        s.srp.area_m2 = c.logu(0.1, 1000.0);
        s.srp.coeff_reflectivity = c.f(0.01, 2.0);
        let flux = if c.b(0.5) { 1367.0 } else { c.f(500.0, 2500.0) };
        c.p("bodies", bodies.iter().map(|f| f.ephemeris_id).collect::<Vec<_>>());
        c.p("flux", flux);
        let mut estimated = true;
        let srp = if flux == 1367.0 {
            match c.u(0, 1) {
                0 => ok!(c, "model", SolarPressure::new(bodies.clone(), &alm)),
                _ => {
                    estimated = false;
                    ok!(c, "model", SolarPressure::default_no_estimation(bodies.clone(), &alm))
                }
            }
        } else {
            ok!(c, "model", SolarPressure::with_flux(flux, bodies.clone(), &alm))
        };
        let sun = q * rel_pos(10, b, o.epoch) - o.radius_km; // from the spacecraft
        let occ = bodies
            .iter()
            .map(|f| {
                let rb = q * rel_pos(f.ephemeris_id, b, o.epoch) - o.radius_km;
                let (x, a, bb, d) = occulted(&sun, &rb, radius(f.ephemeris_id));
                // behind the light source: no occultation
                if rb.norm() > sun.norm() { (0.0, a, bb, d) } else { (x, a, bb, d) }
            })
            .fold((0.0, 0.0, 0.0, 9.0), |a: (f64, f64, f64, f64), b| if b.0 > a.0 { b } else { a });
        let got = ok!(c, "force-fails", srp.eom(&s, &alm));
        let au = 149_597_870.7;
        let full = 1e-3 * flux / C_M_S * (au / sun.norm()).powi(2) * s.srp.coeff_reflectivity * s.srp.area_m2;
        let want = -sun.normalize() * full * (1.0 - occ.0);
        let soft = if occ.0 > 0.0 && occ.0 < 1.0 { 1e-5 } else { 0.0 };
        let graz = (occ.3 - (occ.2 - occ.1)).abs() < 3e-5 || (occ.3 - (occ.1 + occ.2)).abs() < 3e-5;
        let tol = full * (1e-6 + soft + if graz { 1e-3 } else { 0.0 });
        c.vnear("srp-force", got.as_slice(), want.as_slice(), tol);
        if got.norm() > 0.0 {
            c.check("away-from-the-sun", got.normalize().dot(&-sun.normalize()) > 1.0 - 1e-9, || format!("{got} vs sun at {sun}"));
        }
        // Occultation itself
        let sm = &srp.shadow_model;
        let oc = ok!(c, "shadow-fails", sm.compute(o, &alm));
        c.check("percentage-in-range", (0.0..=100.0).contains(&oc.percentage), || format!("{}", oc.percentage));
        c.near("occultation", oc.percentage / 100.0, occ.0, 1e-6 + soft + if graz { 1e-3 } else { 0.0 });
        if occ.0 >= 1.0 && !graz {
            c.obs("umbra", 1);
            c.check("no-pressure-in-umbra", got.norm() == 0.0, || format!("{got}"));
        } else if occ.0 > 0.0 {
            c.obs("penumbra", 1);
        } else {
            c.obs("sunlight", 1);
        }
        // The largest occultation is retained, each body alone gives at most that
        let mut best: f64 = 0.0;
        for f in &bodies {
            let one = ShadowModel { light_source: sm.light_source, shadow_bodies: vec![*f] };
            best = best.max(ok!(c, "shadow-fails", one.compute(o, &alm)).percentage);
        }
        c.check("largest-occultation", (oc.percentage - best).abs() < 1e-9, || format!("{} vs {best}", oc.percentage));
        // partials
        let (gf, gg) = ok!(c, "gradient-fails", srp.gradient(&s, &alm));
        c.vnear("gradient-force", gf.as_slice(), got.as_slice(), 1e-12 * full + 1e-30);
        let k = if full > 0.0 { got.norm() / full } else { 0.0 };
        let g = |r: &V3| {
            let d = q * rel_pos(10, b, o.epoch) - r;
            -d.normalize() * (full * sun.norm_squared() / d.norm_squared() * k)
        };
        let gw = jac(g, &o.radius_km, 1e-4 * sun.norm());
        let got_g = gg.fixed_view::<3, 3>(0, 0).into_owned();
        c.vnear("srp-gradient", got_g.as_slice(), gw.as_slice(), 1e-6 * gw.norm() + 1e-14 * full / sun.norm());
        let wcr = got / s.srp.coeff_reflectivity;
        let got_cr = gg.row(3).transpose();
        // as the dynamics use it: the partial with respect to the reflectivity only when it is estimated
        let s2 = s.with_stm();
        let dy = SpacecraftDynamics::from_model(OrbitalDynamics::two_body(), srp.clone());
        let (_, gd) = ok!(c, "dynamics-gradient-fails", dy.dual_eom(0.0, &s2, &alm));
        let mass = s.mass.dry_mass_kg + s.mass.prop_mass_kg + s.mass.extra_mass_kg;
        for i in 0..3 {
            let w = if estimated { wcr[i] / mass } else { 0.0 };
            c.near("estimated-reflectivity", gd[(i + 3, 6)], w, 1e-12 * full / mass + 1e-30);
        }
        // The events of this shadow model
        for (what, evs, lim) in [("umbra", sm.to_umbra_events(), 99.0), ("penumbra", sm.to_penumbra_events(), 1.0)] {
            c.check("one-event-per-body", evs.len() == bodies.len(), || format!("{what}: {} events", evs.len()));
            for (ev, f) in evs.iter().zip(&bodies) {
                let one = ShadowModel { light_source: sm.light_source, shadow_bodies: vec![*f] };
                let pc = ok!(c, "shadow-fails", one.compute(o, &alm)).percentage;
                let v = ok!(c, "event-fails", ev.eval(o, &alm));
                c.check("shadow-event", (pc - lim).abs() < 1e-6 || (v > 0.0) == (pc > lim), || format!("{what} event is {v} where {pc} % of the Sun is hidden by {f}"));
            }
        }
        c.vnear("reflectivity-partial", got_cr.as_slice(), wcr.as_slice(), 1e-12 * full + 1e-30);
        if k > 0.0 {
            c.nontrivial();
        }
    });
    m.group("scaling", 2000, 30000, |c| {
        // Proportional to area, reflectivity, flux, and to the inverse of the squared distance
        let o = leo(c);
        let s = sc(c, o);
        let srp = ok!(c, "model", SolarPressure::with_flux(1000.0, vec![], &alm));
        let f0 = ok!(c, "force-fails", srp.eom(&s, &alm));
        let k = c.f(0.1, 0.9);
        let mut s2 = s;
        s2.srp.area_m2 *= k;
        let f = ok!(c, "force-fails", srp.eom(&s2, &alm));
        c.vnear("proportional-to-area", f.as_slice(), (f0 * k).as_slice(), 1e-11 * f0.norm());
        let mut s2 = s;
        s2.srp.coeff_reflectivity *= k;
        let f = ok!(c, "force-fails", srp.eom(&s2, &alm));
        c.vnear("proportional-to-reflectivity", f.as_slice(), (f0 * k).as_slice(), 1e-11 * f0.norm());
        let srp2 = ok!(c, "model", SolarPressure::with_flux(1000.0 * k, vec![], &alm));
        let f = ok!(c, "force-fails", srp2.eom(&s, &alm));
        c.vnear("proportional-to-flux", f.as_slice(), (f0 * k).as_slice(), 1e-11 * f0.norm());
        // independent of the mass (it is a force)
        let mut s2 = s;
        s2.mass.dry_mass_kg *= 2.0;
        let f = ok!(c, "force-fails", srp.eom(&s2, &alm));
        c.vnear("force-independent-of-mass", f.as_slice(), f0.as_slice(), 1e-11 * f0.norm());
        let mut s2 = s;
        s2.srp.coeff_reflectivity = 0.0;
        let (f, g) = ok!(c, "gradient-fails", srp.gradient(&s2, &alm));
        c.check("zero-reflectivity", f.norm() == 0.0 && g.iter().all(|x| x.is_finite()), || format!("{f} {g}"));
        c.nontrivial();
    });
    m.finish()
}

fn c08() {
    let mut m = Mon::new(
        "C08",
        "Random low orbits about the Earth (and Mars with an explicit exponential atmosphere) in J2000 and ecliptic axes, with constant, exponential and standard densities from 120 to 1500 km; force compared with the velocity relative to the rotating atmosphere. Non-trivial: the density is positive.",
    );
    m.assume("the atmosphere rotates with the drag frame");
    let alm = almanac();
    m.group("force", 15000, 300000, |c| {
        let e = epoch(c);
        let mars = c.b(0.2);
        let (fr, bf) = if mars { (marsj2k(), alm.frame_info(IAU_MARS_FRAME).unwrap()) } else { (eme2k(), iau_earth()) };
        let o = orbit(c, fr, e, 0.05, 1.2);
        let re = bf.mean_equatorial_radius_km().unwrap();
        let alt = c.logu(120.0, 1500.0);
        let mut o = o;
        o.radius_km *= (re + alt) / o.rmag_km();
        let o = if c.b(0.3) {
            let mut t = alm.transform_to(o, o.frame.with_orient(17), None).unwrap();
            t.frame.mu_km3_s2 = o.frame.mu_km3_s2;
            t
        } else {
            o
        };
        let q = from_j2000(&o);
        let s = sc(c, o);
        let alt = o.rmag_km() - re;
        c.p("alt", alt);
        let kind = c.u(0, if mars { 2 } else { 4 });
        c.p("kind", kind);
        let (got, rho) = match kind {
            0 => {
                let rho = c.logu(1e-15, 1e-9);
                let d = ConstantDrag { rho, frame: bf, estimate: false };
                (d.eom(&s, &alm), rho)
            }
            1 => {
                let rho = c.logu(1e-15, 1e-9);
                let d = Drag { density: AtmDensity::Constant(rho), frame: bf, estimate: false };
                (d.eom(&s, &alm), rho)
            }
            2 => {
                let (rho0, r0, h) = (c.logu(1e-14, 1e-9), c.f(1e5, 9e5), c.f(2e4, 2e5));
                let d = Drag { density: AtmDensity::Exponential { rho0, r0, ref_alt_m: h }, frame: bf, estimate: false };
                (d.eom(&s, &alm), rho0 * (-(alt * 1e3 - r0) / h).exp())
            }
            3 => {
                let d = ok!(c, "model", Drag::earth_exp(&alm));
                (d.eom(&s, &alm), 3.614e-13 * (-(alt * 1e3 - 7e5) / 88667.0).exp())
            }
            _ => {
                let (d, max) = if c.b(0.5) {
                    (*ok!(c, "model", Drag::std_atm1976(&alm)), 1000.0)
                } else {
                    let mx = c.f(300.0, 1200.0);
                    (Drag { density: AtmDensity::StdAtm { max_alt_m: mx * 1e3 }, frame: bf, estimate: false }, mx)
                };
                let rho = if alt > max {
                    10f64.powf(-7e-5 * alt - 14.464)
                } else {
                    let x = (alt - 526.8) / 292.8563;
                    let cf = [-12.575, -2.3024, 0.60713, 1.0036, -0.5269, -0.5889, 0.34047];
                    10f64.powf(cf.iter().rev().fold(0.0, |a, b| a * x + b))
                };
                (d.eom(&s, &alm), rho)
            }
        };
        let got = ok!(c, "force-fails", got);
        // pole and spin rate of the synthetic planetary constants
        let t = e.to_et_seconds() / 86400.0;
        let cent = t / 36525.0;
        let (ra, dec, w): (f64, f64, f64) = if mars {
            (317.68143 - 0.1061 * cent, 52.8865 - 0.0609 * cent, 350.89198226)
        } else {
            (-0.641 * cent, 90.0 - 0.557 * cent, 360.9856235)
        };
        let (ra, dec) = (ra.to_radians(), dec.to_radians());
        let pole = q * V3::new(dec.cos() * ra.cos(), dec.cos() * ra.sin(), dec.sin());
        let om = pole * (w.to_radians() / 86400.0);
        let v = o.velocity_km_s - om.cross(&o.radius_km);
        let want = -0.5 * 1e3 * rho * s.drag.coeff_drag * s.drag.area_m2 * v.norm() * v;
        c.vnear("drag-force", got.as_slice(), want.as_slice(), 1e-5 * want.norm());
        c.check("opposes-relative-motion", got.dot(&v) <= 0.0, || format!("power {:e}", got.dot(&v)));
        // scaling
        let d = Drag { density: AtmDensity::Constant(1e-12), frame: bf, estimate: false };
        let f0 = ok!(c, "force-fails", d.eom(&s, &alm));
        let mut s2 = s;
        s2.drag.area_m2 *= 0.5;
        s2.drag.coeff_drag *= 3.0;
        s2.mass.dry_mass_kg *= 7.0;
        s2.srp.area_m2 *= 5.0;
        let f1 = ok!(c, "force-fails", d.eom(&s2, &alm));
        c.vnear("proportional-to-ballistics", f1.as_slice(), (f0 * 1.5).as_slice(), 1e-11 * f0.norm());
        c.obs(&format!("kind{kind}"), 1);
        if want.norm() > 0.0 {
            c.nontrivial();
        }
    });
    // Energy relative to the atmosphere is dissipated along a propagated orbit.
    m.group("decay", 100, 3000, |c| {
        use nyx_space::propagators::Propagator;
        let e = epoch(c);
        let o = Orbit::keplerian(6378.1366 + c.f(250.0, 500.0), 0.001, c.f(1.0, 100.0), c.f(0.0, 360.0), c.f(0.0, 360.0), c.f(0.0, 360.0), e, eme2k());
        let mut s = sc(c, o);
        s.drag.area_m2 = 50.0;
        s.mass.dry_mass_kg = 100.0;
        s.mass.prop_mass_kg = 0.0;
        let m = if c.b(0.5) { Drag::earth_exp(&alm) } else { Drag::std_atm1976(&alm) }.unwrap();
        let p = Propagator::default(SpacecraftDynamics::from_model(OrbitalDynamics::two_body(), m));
        let f = ok!(c, "propagation-fails", p.with(s, alm.clone()).quiet().for_duration(2 * Unit::Hour));
        let (a0, a1) = (o.sma_km().unwrap(), f.orbit.sma_km().unwrap());
        c.p("sma", (a0, a1));
        c.check("semi-major-axis-decays", a1 < a0 - 1e-6, || format!("{a0} -> {a1} km"));
        c.nontrivial();
    });
    m.finish()
}

fn c09() {
    let mut m = Mon::new(
        "C09",
        "Random orbits about the Earth and Moon with random Love numbers and up to three perturbers (with and without degree three); accelerations compared with the closed form of the tidal potential, gradients with its finite differences. Non-trivial: non-null Love numbers and perturbers.",
    );
    m.assume("synthetic ephemerides");
    let alm = almanac();
    m.group("tides", 15000, 300000, |c| {
        let e = epoch(c);
        let lunar = c.b(0.3);
        let (fr, bf) = if lunar { (moonj2k(), iau_moon()) } else { (eme2k(), iau_earth()) };
        let o = orbit(c, fr, e, 0.3, 4.0);
        let o = if c.b(0.3) {
            let mut t = alm.transform_to(o, o.frame.with_orient(17), None).unwrap();
            t.frame.mu_km3_s2 = o.frame.mu_km3_s2;
            t
        } else {
            o
        };
        let q = from_j2000(&o);
        let default = !lunar && c.b(0.3);
        let (k2, k3) = if default { (0.3019, 0.093) } else { (c.f(0.0, 0.6), c.f(0.0, 0.3)) };
        let mut perts: Vec<(i32, bool)> = vec![];
        let central = fr.ephemeris_id;
        if default {
            perts = vec![(301, true), (10, false)];
        } else {
            for b in [399, 301, 10] {
                if b != central && c.b(0.7) {
                    perts.push((b, c.b(0.5)));
                }
            }
        }
        c.p("k", (k2, k3));
        c.p("perturbers", &perts);
        let st = if default {
            ok!(c, "model", SolidTides::earth_moon_system(bf, moonj2k(), &alm))
        } else {
            SolidTides::builder()
                .frame(bf)
                .k2(k2)
                .k3(k3)
                .perturbers(perts.iter().map(|(b, d3)| TidalPerturber::builder().frame(alm.frame_info(Frame::from_ephem_j2000(*b)).unwrap()).compute_degree_3(*d3).build()).collect())
                .build()
        };
        let re = bf.mean_equatorial_radius_km().unwrap();
        let f = |r: &V3| {
            let mut a = V3::zeros();
            for (b, d3) in &perts {
                let s = q * rel_pos(*b, central, e);
                let (rj, eh) = (s.norm(), s.normalize());
                let rn = r.norm();
                let rh = r / rn;
                let x = rh.dot(&eh);
                for n in 2..=(if *d3 { 3 } else { 2 }) {
                    let k = if n == 2 { k2 } else { k3 };
                    let (p, dp) = if n == 2 { (1.5 * x * x - 0.5, 3.0 * x) } else { (2.5 * x.powi(3) - 1.5 * x, 7.5 * x * x - 1.5) };
                    let kk = k * mu_of(*b) * re.powi(2 * n + 1) / rj.powi(n + 1);
                    a += kk * (-(n as f64 + 1.0) * rn.powi(-(n + 2)) * p * rh + rn.powi(-(n + 2)) * dp * (eh - x * rh));
                }
            }
            a
        };
        let want = f(&o.radius_km);
        let got = ok!(c, "tides-fail", st.eom(&o, &alm));
        c.vnear("tidal-acceleration", got.as_slice(), want.as_slice(), 1e-7 * want.norm() + 1e-22);
        let (ga, gg) = ok!(c, "gradient-fails", st.gradient(&o, &alm));
        c.vnear("gradient-acceleration", ga.as_slice(), want.as_slice(), 1e-7 * want.norm() + 1e-22);
        let gw = jac(f, &o.radius_km, 1e-3 * o.rmag_km());
        c.vnear("tidal-gradient", gg.as_slice(), gw.as_slice(), 1e-6 * gw.norm() + 1e-24);
        c.obs("perturbers", perts.len() as u64);
        if want.norm() > 0.0 {
            c.nontrivial();
        }
    });
    m.finish()
}

trait RB {
    fn rng_bool(&mut self) -> bool;
}
impl RB for Case {
    fn rng_bool(&mut self) -> bool {
        self.b(0.7)
    }
}

fn main() {
    let _ = Vector3::<f64>::zeros();
    let _: Option<Spacecraft> = None;
    match std::env::args().nth(1).as_deref() {
        Some("C05") => c05(),
        Some("C06") => c06(),
        Some("C07") => c07(),
        Some("C08") => c08(),
        Some("C09") => c09(),
        Some("C38") => c38(),
        x => {
            eprintln!("unknown property {x:?}");
            std::process::exit(2)
        }
    }
}
