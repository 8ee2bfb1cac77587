//! Independent reference mathematics for the oracles.
use nalgebra::{Matrix3, Vector3, Vector6};
pub type V3 = Vector3<f64>;

fn stumpff(z: f64) -> (f64, f64) {
    // c2, c3
    if z.abs() < 1e-3 {
        // series, accurate to 1e-20
        let mut c2 = 0.0;
        let mut c3 = 0.0;
        let mut t2 = 0.5;
        let mut t3 = 1.0 / 6.0;
        for k in 0..10 {
            c2 += t2;
            c3 += t3;
            let kk = 2.0 * k as f64;
            t2 *= -z / ((kk + 3.0) * (kk + 4.0));
            t3 *= -z / ((kk + 4.0) * (kk + 5.0));
        }
        (c2, c3)
    } else if z > 0.0 {
        let s = z.sqrt();
        let h = (s / 2.0).sin();
        (2.0 * h * h / z, (s - s.sin()) / (s * s * s))
    } else {
        let s = (-z).sqrt();
        ((s.cosh() - 1.0) / (-z), (s.sinh() - s) / (s * s * s))
    }
}

/// Two body propagation by universal variables. Works for all conics and both directions.
pub fn kepler(mu: f64, r0: V3, v0: V3, dt: f64) -> (V3, V3) {
    if dt == 0.0 {
        return (r0, v0);
    }
    let r = r0.norm();
    let alpha = 2.0 / r - v0.norm_squared() / mu;
    let mut dt = dt;
    if alpha > 1e-12 {
        let a = 1.0 / alpha;
        let per = std::f64::consts::TAU * (a * a * a / mu).sqrt();
        let k = (dt / per).trunc();
        dt -= k * per;
    }
    let rv = r0.dot(&v0);
    let smu = mu.sqrt();
    let f = |chi: f64| {
        let z = alpha * chi * chi;
        let (c2, c3) = stumpff(z);
        let t = (rv / smu * chi * chi * c2 + (1.0 - alpha * r) * chi.powi(3) * c3 + r * chi) / smu;
        let rr = chi * chi * c2 + rv / smu * chi * (1.0 - z * c3) + r * (1.0 - z * c2);
        (t - dt, rr / smu, rr, c2, c3, z)
    };
    // bracketing: t is monotonic in chi
    let sgn = dt.signum();
    let mut hi = sgn * smu * dt.abs() / r * 0.5 + sgn * 1e-6;
    let mut lo = 0.0;
    let mut it = 0;
    while (f(hi).0) * sgn < 0.0 && it < 200 {
        lo = hi;
        hi *= 1.7;
        it += 1;
    }
    let (mut a, mut b) = if lo < hi { (lo, hi) } else { (hi, lo) };
    let mut x = 0.5 * (a + b);
    for _ in 0..200 {
        let (g, dg, ..) = f(x);
        if g > 0.0 {
            b = x;
        } else {
            a = x;
        }
        let mut xn = x - g / dg;
        if !(xn > a && xn < b) {
            xn = 0.5 * (a + b);
        }
        let d = (xn - x).abs();
        x = xn;
        if d <= 1e-15 * x.abs().max(1e-30) {
            break;
        }
    }
    let (_, _, rr, c2, c3, z) = f(x);
    let fg = 1.0 - x * x / r * c2;
    let g = dt - x.powi(3) / smu * c3;
    let rf = r0 * fg + v0 * g;
    let fd = smu / (rr * r) * x * (z * c3 - 1.0);
    let gd = 1.0 - x * x / rr * c2;
    (rf, r0 * fd + v0 * gd)
}

/// Classical RK4 with small fixed steps on an arbitrary acceleration: an independent integrator.
pub fn rk4<F: Fn(f64, &Vector6<f64>) -> Vector6<f64>>(f: F, mut t: f64, mut y: Vector6<f64>, dt: f64, n: usize) -> Vector6<f64> {
    let h = dt / n as f64;
    for _ in 0..n {
        let k1 = f(t, &y);
        let k2 = f(t + h / 2.0, &(y + k1 * (h / 2.0)));
        let k3 = f(t + h / 2.0, &(y + k2 * (h / 2.0)));
        let k4 = f(t + h, &(y + k3 * h));
        y += (k1 + k2 * 2.0 + k3 * 2.0 + k4) * (h / 6.0);
        t += h;
    }
    y
}

pub fn v6(r: &V3, v: &V3) -> Vector6<f64> {
    Vector6::new(r.x, r.y, r.z, v.x, v.y, v.z)
}

/// Rows: R, I, C unit vectors; i.e. inertial -> RIC
pub fn ric(r: &V3, v: &V3) -> Matrix3<f64> {
    let rh = r.normalize();
    let c = r.cross(v).normalize();
    let i = c.cross(&rh);
    Matrix3::from_rows(&[rh.transpose(), i.transpose(), c.transpose()])
}
/// inertial -> VNC (V along velocity, N along the angular momentum, C completes)
pub fn vnc(r: &V3, v: &V3) -> Matrix3<f64> {
    let vh = v.normalize();
    let n = r.cross(v).normalize();
    let c = vh.cross(&n);
    Matrix3::from_rows(&[vh.transpose(), n.transpose(), c.transpose()])
}
/// inertial -> RCN (R radial, C = N x R, N normal)
pub fn rcn(r: &V3, v: &V3) -> Matrix3<f64> {
    let rh = r.normalize();
    let n = r.cross(v).normalize();
    let c = n.cross(&rh);
    Matrix3::from_rows(&[rh.transpose(), c.transpose(), n.transpose()])
}

/// Fraction of a disk of angular radius `a` covered by a disk of angular radius `b` whose centre is at angular distance `d`.
pub fn disk_overlap(a: f64, b: f64, d: f64) -> f64 {
    if d >= a + b {
        return 0.0;
    }
    if d <= b - a {
        return 1.0;
    }
    if d <= a - b {
        return (b * b) / (a * a);
    }
    let x = (d * d + a * a - b * b) / (2.0 * d);
    let y = (a * a - x * x).max(0.0).sqrt();
    let area = a * a * (x / a).clamp(-1.0, 1.0).acos() + b * b * ((d - x) / b).clamp(-1.0, 1.0).acos() - d * y;
    area / (std::f64::consts::PI * a * a)
}
