//! C18: vectors, angles, polynomials and small matrices.
use nalgebra::{Complex, DMatrix, Matrix3, OVector, SMatrix, U3, Vector3, Vector6};
use nyx_space::polyfit::{CommonPolynomial, Polynomial};
use nyx_space::pseudo_inverse;
use nyx_space::utils::*;
use anise::analysis::prelude::OrbitalElement;
use anise::prelude::*;
use hifitime::{Duration, Epoch};
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::md::StateParameter;
use nyx_space::md::opti::ctrlnodes::{Node, NodeSerde};
use nyx_space::md::opti::multipleshooting::CostFunction;
use nyx_space::md::opti::multishoot::{MultipleShooting, MultishootNode};
use nyx_space::md::prelude::{Objective, Propagator};
use nyx_space::md::targeter::Targeter;
use nyx_space::cosmic::Spacecraft;
use nyx_space::State;
use nyxmon::math::kepler;
use nyxmon::alm::*;
use nyxmon::gens;
use nyxmon::mon::*;

type V3 = Vector3<f64>;

fn vec3(c: &mut Case) -> V3 {
    let k = c.logu(1e-3, 1e6);
    let mut v = V3::new(c.gauss(), c.gauss(), c.gauss()) * k;
    if c.b(0.2) {
        let i = c.u(0, 2);
        v[i] = 0.0;
    }
    if c.b(0.1) {
        let i = c.u(0, 2);
        let x = v[i];
        v = V3::zeros();
        v[i] = x;
    }
    v
}
fn ang(c: &mut Case) -> f64 {
    if c.b(0.2) {
        c.pick(&[0.0, 90.0, 180.0, -180.0, 270.0, 360.0, -360.0, 540.0, -540.0, 720.0]) + c.pick(&[0.0, 1e-9, -1e-9])
    } else {
        c.f(-2000.0, 2000.0)
    }
}
fn near3(c: &mut Case, what: &str, a: &V3, b: &V3, tol: f64) {
    c.vnear(what, a.as_slice(), b.as_slice(), tol);
}

fn vectors(c: &mut Case) {
    let (a, b) = (vec3(c), vec3(c));
    let s = a.norm() * b.norm();
    let cross = V3::new(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x);
    near3(c, "cross product matrix", &(tilde_matrix(&a) * b), &cross, 1e-13 * s + 1e-300);
    // Rodrigues: the rotated vector keeps its norm and its component along the axis, and turns by the angle.
    let th = ang(c).to_radians();
    if b.norm() > 1e-6 {
        let r = rotv(&a, &b, th);
        let u = b / b.norm();
        let t = 1e-11 * a.norm();
        c.near("rotated norm", r.norm(), a.norm(), t);
        c.near("rotated along the axis", r.dot(&u), a.dot(&u), t);
        let (pa, pr) = (a - u * a.dot(&u), r - u * r.dot(&u));
        let p2 = pa.norm_squared();
        c.near("cosine of the rotation", pa.dot(&pr), p2 * th.cos(), 1e-10 * a.norm_squared());
        c.near("sine of the rotation", u.dot(&pa.cross(&pr)), p2 * th.sin(), 1e-10 * a.norm_squared());
        // Both parts of the vector.
        let (p, q) = (projv(&a, &b), perpv(&a, &b));
        near3(c, "sum of both parts", &(p + q), &a, t);
        c.near("perpendicular part", q.dot(&u), 0.0, t);
        near3(c, "projected part", &p, &(u * a.dot(&u)), t);
        near3(c, "perpendicular to nothing", &perpv(&a, &V3::zeros()), &a, 0.0);
        near3(c, "projected on nothing", &projv(&a, &V3::zeros()), &V3::zeros(), 0.0);
        near3(c, "part of nothing", &perpv(&V3::zeros(), &b), &V3::zeros(), 0.0);
    }
    // Elementary rotations of the axes.
    let (sn, cs) = th.sin_cos();
    for (k, m) in [r1(th), r2(th), r3(th)].into_iter().enumerate() {
        let (i, j) = ((k + 1) % 3, (k + 2) % 3);
        let mut w = V3::zeros();
        w[k] = a[k];
        w[i] = cs * a[i] + sn * a[j];
        w[j] = -sn * a[i] + cs * a[j];
        near3(c, "rotated axes", &(m * a), &w, 1e-13 * a.norm());
    }
    if a.norm() > 1e-6 {
        near3(c, "unit vector", &unitize(a), &(a / a.norm()), 1e-14);
        let (rho, theta, phi) = cartesian_to_spherical(&a);
        c.near("range", rho, a.norm(), 1e-13 * a.norm());
        c.check("angles", (-std::f64::consts::PI..=std::f64::consts::PI).contains(&theta) && (0.0..=std::f64::consts::PI).contains(&phi), || format!("{theta} {phi}"));
        near3(c, "spherical coordinates", &spherical_to_cartesian(rho, theta, phi), &a, 1e-7 * a.norm());
        c.near("colatitude", phi.cos() * rho, a.z, 1e-12 * rho);
        if a.x.hypot(a.y) > 1e-9 * rho {
            c.near("longitude", theta.sin() * a.x.hypot(a.y), a.y, 1e-12 * rho);
            c.near("longitude", theta.cos() * a.x.hypot(a.y), a.x, 1e-12 * rho);
        }
    }
    near3(c, "unit vector of nothing", &unitize(V3::zeros()), &V3::zeros(), 0.0);
    near3(c, "spherical coordinates of nothing", &spherical_to_cartesian(0.0, th, 1.0), &V3::zeros(), 0.0);
    c.check("spherical coordinates of nothing", cartesian_to_spherical(&V3::zeros()) == (0.0, 0.0, 0.0), || String::new());
    // Distances
    let x = Vector6::new(a.x, a.y, a.z, b.x, b.y, b.z);
    let (d, e) = (vec3(c), vec3(c));
    let y = Vector6::new(d.x, d.y, d.z, e.x, e.y, e.z);
    let w = ((a - d).norm(), (b - e).norm());
    let g = rss_orbit_vec_errors(&x, &y);
    c.near("distance", g.0, w.0, 1e-13 * (a.norm() + d.norm()));
    c.near("distance", g.1, w.1, 1e-13 * (b.norm() + e.norm()));
    c.near("distance", rss_errors(&x, &y), w.0.hypot(w.1), 1e-13 * (x.norm() + y.norm()));
    let ep = gens::epoch(c);
    let (o, q) = (gens::orbit(c, eme2k(), ep, 0.5, 4.0), gens::orbit(c, eme2k(), ep, 0.5, 4.0));
    let g = rss_orbit_errors(&o, &q);
    c.near("distance of orbits", g.0, (o.radius_km - q.radius_km).norm(), 1e-9);
    c.near("distance of orbits", g.1, (o.velocity_km_s - q.velocity_km_s).norm(), 1e-12);
    c.nontrivial();
    c.obs("vectors", 2);
}

fn angles(c: &mut Case) {
    let a = ang(c);
    let x = c.pick(&[180.0, 90.0, 1.0, std::f64::consts::PI]);
    for (what, got, lo, hi, turn) in
        [("0 to 360", between_0_360(a), 0.0, 360.0, 360.0), ("-180 to 180", between_pm_180(a), -180.0, 180.0, 360.0), ("-x to x", between_pm_x(a, x), -x, x, 2.0 * x)]
    {
        c.check(what, (lo..=hi).contains(&got), || format!("{a} gave {got}"));
        let k = (a - got) / turn;
        c.near(&format!("{what}: whole turns"), k, k.round(), 1e-9);
    }
    let b = a + c.pick(&[0.0, 1e-6, -1e-6, 1.0]);
    c.check("kronecker", kronecker(a, b) == if a == b { 1.0 } else { 0.0 }, || format!("{a} {b}"));
    let v = c.logu(1e-12, 1e12) * c.pick(&[1.0, -1.0]);
    let k = mag_order(v);
    c.check("order of magnitude", (10f64.powi(k)..10f64.powi(k + 1)).contains(&(v.abs() * (1.0 + 1e-12))) || (10f64.powi(k)..10f64.powi(k + 1)).contains(&(v.abs() * (1.0 - 1e-12))), || format!("{v} {k}"));
    let (lo, w) = (c.f(-100.0, 100.0), c.logu(1e-3, 1e3));
    let hi = lo + w;
    let t = c.f(lo, hi);
    c.near("normalized", normalize(t, lo, hi), (t - (lo + hi) / 2.0) / (w / 2.0), 1e-9);
    c.near("normalized", normalize(lo, lo, hi), -1.0, 1e-9);
    c.near("normalized", normalize(hi, lo, hi), 1.0, 1e-9);
    c.near("denormalized", denormalize(normalize(t, lo, hi), lo, hi), t, 1e-9);
    let s = c.pick(&["range", "dOPPLER", "", "éa", "x", "1a"]);
    let g = capitalize(s);
    c.check("capitalized", g.chars().skip(1).eq(s.chars().skip(1)) && g.chars().next() == s.chars().next().and_then(|x| x.to_uppercase().next()), || format!("{s} {g}"));
    c.p("a", a);
    c.nontrivial();
    c.obs("angles", 1);
}

fn poly_n<const N: usize>(c: &mut Case) {
    let co: [f64; N] = std::array::from_fn(|_| if c.b(0.1) { 0.0 } else { c.gauss() * 3.0 });
    let p = Polynomial { coefficients: co };
    let x = c.f(-5.0, 5.0);
    let val = |co: &[f64]| co.iter().enumerate().map(|(i, a)| a * x.powi(i as i32)).sum::<f64>();
    let der = |co: &[f64]| co.iter().enumerate().skip(1).map(|(i, a)| a * i as f64 * x.powi(i as i32 - 1)).sum::<f64>();
    let t = 1e-12 * co.iter().enumerate().map(|(i, a)| (i + 1) as f64 * a.abs() * x.abs().max(1.0).powi(i as i32)).sum::<f64>() + 1e-300;
    c.near("value", p.eval(x), val(&co), t);
    c.near("derivative", p.deriv(x), der(&co), t);
    let (v, d) = p.eval_n_deriv(x);
    c.near("value and derivative", v, val(&co), t);
    c.near("value and derivative", d, der(&co), t);
    let mut rev = co;
    rev.reverse();
    c.check("most significant first", Polynomial::from_most_significant(rev) == p, || format!("{p}"));
    c.check("order", p.order() == N - 1, || format!("{}", p.order()));
    let k = c.f(-3.0, 3.0);
    c.near("scaled", (p * k).eval(x), k * val(&co), 4.0 * t);
    c.near("scaled", (k * p).eval(x), k * val(&co), 4.0 * t);
    c.near("scaled", (&p * k).eval(x), k * val(&co), 4.0 * t);
    let mut q = p;
    q += k;
    c.near("shifted", q.eval(x), val(&co) + k, 4.0 * t + 1e-12);
    let i = c.u(0, N + 1);
    let mut q = p;
    q.zero_power(i);
    for j in 0..N {
        c.check("power removed", q.coefficients[j] == if i == j { 0.0 } else { co[j] }, || format!("{p} {i} {q}"));
    }
    let tol = c.f(0.0, 3.0);
    let mut q = p;
    q.zero_below_tolerance(tol);
    for j in 0..N {
        c.check("small powers removed", q.coefficients[j] == if co[j].abs() < tol { 0.0 } else { co[j] }, || format!("{p} {tol} {q}"));
    }
    c.check("not a number", !p.is_nan(), || format!("{p}"));
    let mut q = p;
    q.coefficients[i.min(N - 1)] = f64::NAN;
    c.check("not a number", q.is_nan(), || format!("{q}"));
    // With one of at most that order.
    let oc: [f64; 2] = [c.gauss(), c.gauss()];
    if N >= 2 {
        let o = Polynomial { coefficients: oc };
        c.near("sum", (o + p).eval(x), val(&co) + val(&oc), 4.0 * t + 1e-11);
        c.near("difference", (p - o).eval(x), val(&co) - val(&oc), 4.0 * t + 1e-11);
    }
    c.near("sum", (p + p).eval(x), 2.0 * val(&co), 4.0 * t);
    c.near("difference", (p - p).eval(x), 0.0, 4.0 * t);
    c.nontrivial();
    c.obs("polynomials", 1);
}
fn polynomials(c: &mut Case) {
    match c.u(1, 6) {
        1 => poly_n::<1>(c),
        2 => poly_n::<2>(c),
        3 => poly_n::<3>(c),
        4 => poly_n::<4>(c),
        5 => poly_n::<5>(c),
        _ => poly_n::<9>(c),
    }
    let (a, b, d) = (c.gauss(), c.gauss(), c.gauss());
    let x = c.f(-10.0, 10.0);
    for (p, co) in [
        (CommonPolynomial::Constant { a }, vec![a]),
        (CommonPolynomial::Linear { a, b }, vec![b, a]),
        (CommonPolynomial::Quadratic { a, b, c: d }, vec![d, b, a]),
    ] {
        let v: f64 = co.iter().enumerate().map(|(i, a)| a * x.powi(i as i32)).sum();
        let w: f64 = co.iter().enumerate().skip(1).map(|(i, a)| a * i as f64 * x.powi(i as i32 - 1)).sum();
        c.near("value of a common polynomial", p.eval(x), v, 1e-11);
        c.near("derivative of a common polynomial", p.deriv(x), w, 1e-11);
        for k in 0..5 {
            match p.coeff_in_order(k) {
                Ok(g) => c.check("coefficient", k < co.len() && g == co[k], || format!("{p} {k} {g}")),
                Err(_) => c.check("coefficient", k >= co.len(), || format!("{p} {k}")),
            };
            // The k-th of the coefficients as they are declared: a, then b, then c.
            let (n, q) = (co.len(), c.gauss());
            for (what, add) in [("set a coefficient", false), ("add to a coefficient", true)] {
                let r = if add { p.add_val_in_order(q, k) } else { p.with_val_in_order(q, k) };
                match r {
                    Ok(g) if k < n => {
                        let mut v = co.clone();
                        v[n - 1 - k] = if add { v[n - 1 - k] + q } else { q };
                        for i in 0..n {
                            c.near(what, g.coeff_in_order(i).unwrap_or(f64::NAN), v[i], 1e-14);
                        }
                    }
                    r => {
                        c.check(what, r.is_err() == (k >= n), || format!("{p} {k}"));
                    }
                }
            }
        }
    }
}

fn matrices(c: &mut Case) {
    let e = OVector::<Complex<f64>, U3>::from_fn(|_, _| Complex::new(if c.b(0.2) { 0.0 } else { c.gauss() - 1.0 }, c.gauss()));
    c.check("stable", are_eigenvalues_stable(&e) == e.iter().all(|x| x.re <= 0.0), || format!("{e}"));
    let mut m = Matrix3::from_diagonal(&vec3(c));
    c.check("diagonal", is_diagonal(&m), || format!("{m}"));
    let (i, j) = (c.u(0, 2), c.u(1, 2));
    m[(i, (i + j) % 3)] = c.logu(1e-12, 1.0) * c.pick(&[1.0, -1.0]);
    c.check("not diagonal", !is_diagonal(&m), || format!("{m}"));
    // Pseudo inverses of full rank matrices, wide, tall or square.
    let (r, k) = (c.u(1, 6), c.u(1, 6));
    let a = DMatrix::from_fn(r, k, |i, j| c.gauss() + if i == j { 3.0 } else { 0.0 });
    let sv = a.clone().svd(false, false).singular_values;
    if sv.min() < 0.05 {
        return c.skip("ill conditioned");
    }
    let tol = 1e-10 * (sv.max() / sv.min()).powi(4);
    match pseudo_inverse!(&a) {
        Ok(p) => {
            c.check("shape", p.shape() == (k, r), || format!("{:?}", p.shape()));
            if p.shape() == (k, r) {
                let (ap, pa) = (&a * &p, &p * &a);
                c.near("A P A", (&ap * &a - &a).norm(), 0.0, tol);
                c.near("P A P", (&pa * &p - &p).norm(), 0.0, tol);
                c.near("A P", (&ap - ap.transpose()).norm(), 0.0, tol);
                c.near("P A", (&pa - pa.transpose()).norm(), 0.0, tol);
            }
        }
        Err(e) => c.fail("pseudo inverse", format!("{e}")),
    }
    let z = SMatrix::<f64, 2, 3>::zeros();
    let r: Result<SMatrix<f64, 3, 2>, _> = pseudo_inverse!(&z);
    c.check("singular", r.is_err(), || format!("{r:?}"));
    c.nontrivial();
    c.obs("matrices", 1);
}


/* ---- C41 ---- */
fn flown(o: &Orbit, to: Epoch) -> (V3, V3) {
    kepler(o.frame.mu_km3_s2().unwrap(), o.radius_km, o.velocity_km_s, (to - o.epoch).to_seconds())
}
fn pos(n: &Node) -> V3 {
    V3::new(n.x, n.y, n.z)
}
/// A start and a nearby destination, some time later.
fn problem(c: &mut Case) -> (Spacecraft, Orbit) {
    let e = gens::epoch(c);
    let o = gens::orbit(c, eme2k(), e, 0.1, 2.0);
    let mut s = gens::sc(c, o);
    s.orbit = o;
    let dt = c.f(0.02, 0.25) * gens::period_s(&o);
    let t = e + Duration::from_seconds(dt.round());
    let (r, v) = flown(&o, t);
    let off = V3::new(c.gauss(), c.gauss(), c.gauss()) * c.logu(1.0, 100.0);
    let xf = Orbit::from_cartesian_pos_vel(Vector6::new(r.x + off.x, r.y + off.y, r.z + off.z, v.x, v.y, v.z), t, o.frame);
    (s, xf)
}
fn nodes(c: &mut Case) {
    let (s, xf) = problem(c);
    let n = c.u(1, 12);
    c.p("nodes", n);
    let prop = Propagator::default(SpacecraftDynamics::new(OrbitalDynamics::two_body()));
    match MultipleShooting::equidistant_nodes(s, xf, n, &prop) {
        Ok(m) => {
            c.check("enough nodes", n >= 3, || format!("{n} nodes"));
            c.check("number of nodes", m.targets.len() == n, || format!("{}", m.targets.len()));
            c.check("ends", m.x0 == s && m.xf == xf, || String::new());
            for (i, t) in m.targets.iter().enumerate() {
                let k = (i + 1) as f64 / n as f64;
                near3(c, "equidistant node", &pos(t), &(s.orbit.radius_km + (xf.radius_km - s.orbit.radius_km) * k), 1e-8);
                let d = (t.epoch - s.orbit.epoch).to_seconds();
                c.near("epoch of the node", d, (xf.epoch - s.orbit.epoch).to_seconds() * k, 1e-6);
                c.check("frame of the node", t.frame == s.orbit.frame, || format!("{}", t.frame));
                c.near("radius", t.rmag(), pos(t).norm(), 1e-9);
            }
            c.obs("nodes", n as u64);
        }
        Err(e) => {
            c.check("refused", n < 3, || format!("{n} nodes: {e}"));
        }
    }
    c.check("same place", MultipleShooting::equidistant_nodes(s, s.orbit, 5, &prop).is_err(), || String::new());
    let f = iau_earth();
    match MultipleShooting::linear_altitude_heuristic(s, xf, n, f, &prop, almanac()) {
        Ok(m) => {
            c.check("enough nodes", n >= 3 && m.targets.len() == n, || format!("{n} nodes"));
            let h = |r: V3, e: Epoch| {
                let o = Orbit::from_cartesian_pos_vel(Vector6::new(r.x, r.y, r.z, 1.0, 0.5, 0.2), e, s.orbit.frame);
                let o = almanac().transform_to(o, f, None).unwrap();
                (o.latitude_deg().unwrap(), o.longitude_deg(), o.height_km().unwrap())
            };
            let hf = h(xf.radius_km, xf.epoch).2;
            for (i, t) in m.targets.iter().enumerate() {
                let k = (i + 1) as f64 / n as f64;
                let d = (t.epoch - s.orbit.epoch).to_seconds();
                c.near("epoch of the node", d, (xf.epoch - s.orbit.epoch).to_seconds() * k, 1e-6);
                c.check("frame of the node", t.frame == s.orbit.frame, || format!("{}", t.frame));
                let (la, lo, al) = h(pos(t), t.epoch);
                let (lb, lp, am) = h(flown(&s.orbit, t.epoch).0, t.epoch);
                c.near("latitude of the node", la, lb, 1e-5);
                c.near("longitude of the node", (lo - lp + 180.0).rem_euclid(360.0) - 180.0, 0.0, 1e-5 / lb.to_radians().cos().abs().max(1e-3));
                // Between that of the motion and that of the destination.
                c.check("altitude of the node", al >= am.min(hf) - 1e-3 && al <= am.max(hf) + 1e-3, || format!("{al} from {am} to {hf}"));
                if i + 1 == n {
                    c.near("altitude of the last node", al, hf, 1e-3);
                }
            }
            c.obs("nodes", n as u64);
        }
        Err(e) => {
            c.check("refused", n < 3, || format!("{n} nodes: {e}"));
        }
    }
    // Nodes in text files
    let t = Node { x: xf.radius_km.x, y: xf.radius_km.y, z: xf.radius_km.z, vmag: c.f(0.0, 10.0), epoch: xf.epoch, frame: xf.frame };
    let ser: NodeSerde = t.into();
    match ser.to_node() {
        Ok(u) => c.check("stored node", pos(&u) == pos(&t) && u.vmag == t.vmag && u.epoch == t.epoch && u.frame == t.frame, || format!("{t:?} {u:?}")),
        Err(e) => {
            c.fail("stored node", format!("{e}"));
            false
        }
    };
    let three: [Objective; 3] = t.into();
    let four: [Objective; 4] = t.into();
    let w = [t.x, t.y, t.z, t.vmag];
    use OrbitalElement as E;
    for (i, (o, e)) in four.iter().zip([E::X, E::Y, E::Z, E::Vmag]).enumerate() {
        c.check("objectives of a node", o.desired_value == w[i] && o.parameter == StateParameter::Element(e), || format!("{o}"));
        if i < 3 {
            c.check("objectives of a node", three[i].desired_value == w[i] && three[i].parameter == StateParameter::Element(e), || format!("{}", three[i]));
        }
        let mut u = t;
        MultishootNode::<4>::update_component(&mut u, i, 2.0);
        let g = [u.x, u.y, u.z, u.vmag];
        c.check("component of a node", (0..4).all(|j| (g[j] - w[j] - if i == j { 2.0 } else { 0.0 }).abs() < 1e-9), || format!("{u:?}"));
    }
    c.nontrivial();
}
fn shooting(c: &mut Case) {
    // Nearly all of them converge.
    for _ in 0..3 {
        if shoot(c) {
            return;
        }
        c.obs("not converged", 1);
    }
    c.fail("convergence", "three problems in a row");
}
fn shoot(c: &mut Case) -> bool {
    let (s, xf) = problem(c);
    let n = c.u(3, 6);
    c.p("nodes", n);
    let prop = Propagator::default(SpacecraftDynamics::new(OrbitalDynamics::two_body()));
    let alt = c.b(0.3);
    let mk = if alt { MultipleShooting::linear_altitude_heuristic(s, xf, n, iau_earth(), &prop, almanac()).ok() } else { MultipleShooting::equidistant_nodes(s, xf, n, &prop).ok() };
    let Some(mut m) = mk else { return false };
    let cost = if c.b(0.5) { CostFunction::MinimumEnergy } else { CostFunction::MinimumFuel };
    m.improvement_threshold = c.pick(&[0.01, 1e-4, 1e-4]);
    let first = m.targets.clone();
    let Ok(sol) = m.solve(cost, almanac()) else { return false };
    c.check("ends", sol.x0 == s && sol.xf == xf && sol.nodes.len() == n && sol.solutions.len() == n, || format!("{} nodes, {} solutions", sol.nodes.len(), sol.solutions.len()));
    let mut from = s;
    let mut total = 0.0;
    for (i, (k, x)) in sol.nodes.iter().zip(&sol.solutions).enumerate() {
        c.check("epoch of the node", k.epoch == first[i].epoch, || format!("{} instead of {}", k.epoch, first[i].epoch));
        // Each arc leaves from where the previous one arrived.
        near3(c, "start of the arc", &x.corrected_state.orbit.radius_km, &from.orbit.radius_km, 1e-9);
        c.check("start of the arc", x.corrected_state.epoch() == from.epoch(), || format!("{}", x.corrected_state.epoch()));
        let dv = x.corrected_state.orbit.velocity_km_s - from.orbit.velocity_km_s;
        near3(c, "impulse", &V3::new(x.correction[0], x.correction[1], x.correction[2]), &dv, 1e-10);
        total += dv.norm_squared();
        // And arrives at its node.
        let (r, v) = flown(&x.corrected_state.orbit, k.epoch);
        for j in 0..3 {
            c.near("node reached", r[j], pos(k)[j], 1.0e-3 + 1e-5);
        }
        near3(c, "arrival", &x.achieved_state.orbit.radius_km, &r, 1e-5);
        near3(c, "velocity of arrival", &x.achieved_state.orbit.velocity_km_s, &v, 1e-8);
        c.check("epoch of arrival", x.achieved_state.epoch() == k.epoch, || format!("{}", x.achieved_state.epoch()));
        from = x.achieved_state;
    }
    near3(c, "last node", &pos(&sol.nodes[n - 1]), &pos(&first[n - 1]), 1e-9);
    if !alt {
        near3(c, "destination", &from.orbit.radius_km, &xf.radius_km, 3e-3);
    }
    // The cost of the first guess of the nodes
    let mut g = s;
    let mut guess = 0.0;
    let mut ok = true;
    for k in &first {
        match Targeter::delta_v(&prop, Into::<[Objective; 3]>::into(*k)).try_achieve_dual(g, g.epoch(), k.epoch, almanac()) {
            Ok(x) => {
                guess += x.correction.norm_squared();
                g = x.achieved_state;
            }
            Err(_) => ok = false,
        }
    }
    if ok {
        c.check("cost", total <= guess * 1.02 + 1e-9, || format!("{total} km^2/s^2 instead of {guess} with the first nodes"));
        c.obs("costs compared", 1);
    }
    // The cheapest impulses to the last node, near the free motion.
    let last = pos(&sol.nodes[n - 1]);
    let tf = first[n - 1].epoch;
    let delta = last - flown(&s.orbit, tf).0;
    let mut w = Matrix3::zeros();
    for i in 0..n {
        let t = if i == 0 { s.orbit.epoch } else { first[i - 1].epoch };
        let (r, v) = flown(&s.orbit, t);
        let mut b = Matrix3::zeros();
        for j in 0..3 {
            let h = 1e-5;
            let mut d = V3::zeros();
            d[j] = h;
            let dt = (tf - t).to_seconds();
            let mu = s.orbit.frame.mu_km3_s2().unwrap();
            let x = (kepler(mu, r, v + d, dt).0 - kepler(mu, r, v - d, dt).0) / (2.0 * h);
            b.set_column(j, &x);
        }
        w += b * b.transpose();
    }
    let best = (delta.transpose() * w.try_inverse().unwrap() * delta)[(0, 0)];
    // (a coarser threshold may stop earlier)
    if m.improvement_threshold < 1e-3 {
        c.near("optimal cost", total / best, 1.0, 0.05);
    }
    match sol.build_trajectories(&prop, almanac()) {
        Ok(ts) => {
            c.check("trajectories", ts.len() == n, || format!("{}", ts.len()));
            for (t, x) in ts.iter().zip(&sol.solutions) {
                near3(c, "start of the trajectory", &t.first().orbit.radius_km, &x.corrected_state.orbit.radius_km, 1e-9);
                near3(c, "initial velocity of the trajectory", &t.first().orbit.velocity_km_s, &x.corrected_state.orbit.velocity_km_s, 1e-12);
                near3(c, "end of the trajectory", &t.last().orbit.radius_km, &x.achieved_state.orbit.radius_km, 1e-5);
                c.check("epochs of the trajectory", t.first().epoch() == x.corrected_state.epoch() && t.last().epoch() == x.achieved_state.epoch(), || format!("{t}"));
            }
        }
        Err(e) => c.fail("trajectories", format!("{e}")),
    }
    c.obs("arcs", n as u64);
    c.obs("iterations", m.current_iteration as u64);
    c.nontrivial();
    true
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("C41") {
        let m = Mon::new("C41", "non-trivial: the nodes were compared with their definition, or a solution was flown");
        m.group("nodes", 1500, 100000, nodes);
        m.group("shooting", 150, 6000, shooting);
        m.finish()
    }
    let m = Mon::new("C18", "non-trivial: the identities of a random vector, angle, polynomial or matrix were evaluated");
    m.group("vectors", 20000, 2000000, vectors);
    m.group("angles", 20000, 2000000, angles);
    m.group("polynomials", 20000, 2000000, polynomials);
    m.group("matrices", 20000, 1000000, matrices);
    m.finish()
}
