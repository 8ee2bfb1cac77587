//! Input generators
use crate::alm::*;
use crate::mon::Case;
use anise::prelude::*;
use hifitime::{Epoch, Unit};
use nyx_space::cosmic::{Mass, Spacecraft, SRPData, DragData};

pub fn epoch(c: &mut Case) -> Epoch {
    let base = Epoch::from_gregorian_utc_at_midnight(2020, 6, 1);
    let d = c.f(0.0, 6.0 * 365.0);
    let e = (base + (d * 86400.0).floor() * Unit::Second).round(1.0 * Unit::Second);
    // Many sub-second parts, at no cost in draws: the fraction of the second that was drawn.
    let frac = (d * 86400.0).fract();
    match (frac * 1e4) as u64 % 4 {
        0 => e + (frac * 1e3).floor() * Unit::Millisecond,
        1 => e + (frac * 1e9).floor() * Unit::Nanosecond,
        _ => e,
    }
}

/// An elliptical orbit about the frame's center, with a periapsis above the body.
pub fn orbit(c: &mut Case, frame: Frame, epoch: Epoch, max_ecc: f64, max_a_ratio: f64) -> Orbit {
    let req = frame.mean_equatorial_radius_km().unwrap();
    let ecc = if c.b(0.3) { c.f(0.0005, 0.02_f64.min(max_ecc)) } else { c.f(0.001, max_ecc) };
    let rp = req * c.f(1.06, max_a_ratio.max(1.2));
    let sma = rp / (1.0 - ecc);
    let inc = c.f(1.0, 179.0);
    let raan = c.f(0.0, 360.0);
    let aop = c.f(0.0, 360.0);
    let ta = c.f(0.0, 360.0);
    c.p("sma", sma);
    c.p("ecc", ecc);
    c.p("inc", inc);
    c.p("raan", raan);
    c.p("aop", aop);
    c.p("ta", ta);
    c.p("epoch", epoch.to_string());
    Orbit::try_keplerian(sma, ecc, inc, raan, aop, ta, epoch, frame).unwrap()
}

pub fn leo(c: &mut Case) -> Orbit {
    let e = epoch(c);
    orbit(c, eme2k(), e, 0.3, 1.5)
}

pub fn any_orbit(c: &mut Case) -> Orbit {
    let e = epoch(c);
    let f = c.pick(&[eme2k(), eme2k(), moonj2k(), marsj2k(), sunj2k()]);
    c.p("frame", f.to_string());
    let me = if c.b(0.2) { 0.85 } else { 0.5 };
    orbit(c, f, e, me, 5.0)
}

pub fn sc(c: &mut Case, o: Orbit) -> Spacecraft {
    let dry = c.f(50.0, 2000.0);
    let prop = c.f(0.0, 1000.0);
    let srp = c.f(0.5, 50.0);
    let drag = c.f(0.5, 50.0);
    let cr = c.f(1.0, 2.0);
    let cd = c.f(1.5, 2.8);
    c.p("dry", dry);
    c.p("prop", prop);
    Spacecraft {
        orbit: o,
        mass: Mass { dry_mass_kg: dry, prop_mass_kg: prop, extra_mass_kg: if c.b(0.3) { c.f(0.0, 100.0) } else { 0.0 } },
        srp: SRPData { area_m2: srp, coeff_reflectivity: cr },
        drag: DragData { area_m2: drag, coeff_drag: cd },
        ..Default::default()
    }
}

pub fn period_s(o: &Orbit) -> f64 {
    o.period().unwrap().to_seconds()
}
