//! A synthetic, fully analytic almanac: no kernel is available offline, so the bodies move on
//! circles fitted by Chebyshev polynomials in a hand written DAF/SPK (type 2), and the planetary
//! constants are pushed by hand. The ephemerides are thus known to the monitors.
use anise::constants::frames::*;
use anise::naif::SPK;
use anise::prelude::*;
use anise::structure::PlanetaryDataSet;
use anise::structure::planetocentric::PlanetaryData;
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use anise::structure::planetocentric::phaseangle::PhaseAngle;
use hifitime::Epoch;
use nalgebra::Vector3;
use std::sync::{Arc, OnceLock};

pub const MU_EARTH: f64 = 398600.435436096;
pub const MU_MOON: f64 = 4902.800066163796;
pub const MU_SUN: f64 = 132712440041.93938;
pub const MU_JUP: f64 = 126712764.13345;
pub const MU_VENUS: f64 = 324858.592;
pub const MU_MARS: f64 = 42828.375816;
pub const AU_KM: f64 = 149_597_870.7;

#[derive(Clone, Copy)]
pub struct Circ {
    pub id: i32,
    pub center: i32,
    pub r: f64,
    pub period_d: f64,
    pub inc: f64,
    pub phase: f64,
}

pub const BODIES: [Circ; 9] = [
    Circ { id: 3, center: 0, r: 1.0 * AU_KM, period_d: 365.25, inc: 0.40909, phase: 0.3 },
    Circ { id: 399, center: 3, r: 4671.0, period_d: 27.32, inc: 0.43, phase: 1.1 + std::f64::consts::PI },
    Circ { id: 301, center: 3, r: 384_400.0 - 4671.0, period_d: 27.32, inc: 0.43, phase: 1.1 },
    Circ { id: 10, center: 0, r: 740_000.0, period_d: 4332.0, inc: 0.4, phase: 2.0 },
    Circ { id: 2, center: 0, r: 0.723 * AU_KM, period_d: 224.7, inc: 0.42, phase: 4.0 },
    Circ { id: 299, center: 2, r: 1e-3, period_d: 1000.0, inc: 0.0, phase: 0.0 },
    Circ { id: 4, center: 0, r: 1.52 * AU_KM, period_d: 687.0, inc: 0.44, phase: 5.0 },
    Circ { id: 499, center: 4, r: 1e-3, period_d: 1000.0, inc: 0.0, phase: 0.0 },
    Circ { id: 5, center: 0, r: 5.2 * AU_KM, period_d: 4332.0, inc: 0.4, phase: 2.0 + std::f64::consts::PI },
];

impl Circ {
    pub fn pos(&self, et: f64) -> Vector3<f64> {
        let th = self.phase + et * std::f64::consts::TAU / (self.period_d * 86400.0);
        let (x, y) = (self.r * th.cos(), self.r * th.sin());
        Vector3::new(x, y * self.inc.cos(), y * self.inc.sin())
    }
    pub fn vel(&self, et: f64) -> Vector3<f64> {
        let n = std::f64::consts::TAU / (self.period_d * 86400.0);
        let th = self.phase + et * n;
        let (x, y) = (-self.r * n * th.sin(), self.r * n * th.cos());
        Vector3::new(x, y * self.inc.cos(), y * self.inc.sin())
    }
}

fn body(id: i32) -> &'static Circ {
    BODIES.iter().find(|b| b.id == id).unwrap()
}
/// Analytic SSB position of a body (km), independent of ANISE.
pub fn ssb_pos(id: i32, et: f64) -> Vector3<f64> {
    if id == 0 {
        return Vector3::zeros();
    }
    let b = body(id);
    b.pos(et) + ssb_pos(b.center, et)
}
pub fn ssb_vel(id: i32, et: f64) -> Vector3<f64> {
    if id == 0 {
        return Vector3::zeros();
    }
    let b = body(id);
    b.vel(et) + ssb_vel(b.center, et)
}
/// Position of `of` as seen from `from` in J2000 axes.
pub fn rel_pos(of: i32, from: i32, e: Epoch) -> Vector3<f64> {
    let et = e.to_et_seconds();
    ssb_pos(of, et) - ssb_pos(from, et)
}
pub fn rel_vel(of: i32, from: i32, e: Epoch) -> Vector3<f64> {
    let et = e.to_et_seconds();
    ssb_vel(of, et) - ssb_vel(from, et)
}

fn cheby_fit(f: impl Fn(f64) -> f64, deg: usize) -> Vec<f64> {
    let n = deg + 1;
    let pi = std::f64::consts::PI;
    let vals: Vec<f64> = (0..n).map(|k| f((pi * (k as f64 + 0.5) / n as f64).cos())).collect();
    (0..n)
        .map(|j| {
            let s: f64 = (0..n).map(|k| vals[k] * (pi * j as f64 * (k as f64 + 0.5) / n as f64).cos()).sum();
            s * if j == 0 { 1.0 } else { 2.0 } / n as f64
        })
        .collect()
}

pub fn spk_bytes() -> Vec<u8> {
    let et0 = Epoch::from_gregorian_utc_at_midnight(2019, 6, 1).to_et_seconds().floor();
    let et1 = Epoch::from_gregorian_utc_at_midnight(2027, 6, 1).to_et_seconds().floor();
    let deg = 12usize;
    let mut rec = vec![0u8; 3 * 1024];
    rec[0..8].copy_from_slice(b"DAF/SPK ");
    rec[8..12].copy_from_slice(&2u32.to_le_bytes());
    rec[12..16].copy_from_slice(&6u32.to_le_bytes());
    for b in rec[16..76].iter_mut() {
        *b = b' ';
    }
    rec[16..23].copy_from_slice(b"nyxmon ");
    rec[76..80].copy_from_slice(&2u32.to_le_bytes());
    rec[80..84].copy_from_slice(&2u32.to_le_bytes());
    rec[88..96].copy_from_slice(b"LTL-IEEE");
    rec[699..727].copy_from_slice(b"FTPSTR:\r:\n:\r\n:\r\x00:\x81:\x10\xce:ENDFTP");
    for b in rec[2048..3072].iter_mut() {
        *b = b' ';
    }
    let mut data: Vec<f64> = vec![];
    let mut summaries: Vec<u8> = vec![];
    let base_addr = 3 * 128 + 1;
    for (i, b) in BODIES.iter().enumerate() {
        let intlen = if b.period_d < 100.0 { 2.0 } else { 8.0 } * 86400.0;
        let n = ((et1 - et0) / intlen).ceil() as usize;
        let start = base_addr + data.len();
        for k in 0..n {
            let mid = et0 + (k as f64 + 0.5) * intlen;
            let rad = intlen / 2.0;
            data.push(mid);
            data.push(rad);
            for ax in 0..3 {
                data.extend(cheby_fit(|t| b.pos(mid + t * rad)[ax], deg));
            }
        }
        data.extend([et0, intlen, (2 + 3 * (deg + 1)) as f64, n as f64]);
        let end = base_addr + data.len() - 1;
        summaries.extend(et0.to_le_bytes());
        summaries.extend((et0 + n as f64 * intlen).to_le_bytes());
        for v in [b.id, b.center, 1, 2, start as i32, end as i32] {
            summaries.extend(v.to_le_bytes());
        }
        let nm = format!("BODY {}", b.id);
        rec[2048 + i * 40..2048 + i * 40 + nm.len()].copy_from_slice(nm.as_bytes());
    }
    rec[84..88].copy_from_slice(&((base_addr + data.len()) as u32).to_le_bytes());
    let s = 1024;
    rec[s..s + 8].copy_from_slice(&0f64.to_le_bytes());
    rec[s + 8..s + 16].copy_from_slice(&0f64.to_le_bytes());
    rec[s + 16..s + 24].copy_from_slice(&(BODIES.len() as f64).to_le_bytes());
    rec[s + 24..s + 24 + summaries.len()].copy_from_slice(&summaries);
    for d in &data {
        rec.extend(d.to_le_bytes());
    }
    while rec.len() % 1024 != 0 {
        rec.push(0);
    }
    rec
}

fn pad(v: &[f64]) -> Option<PhaseAngle<32>> {
    if v.is_empty() {
        return None;
    }
    let mut w = v.to_vec();
    w.resize(3, 0.0);
    PhaseAngle::maybe_new(&w)
}

pub fn planetary() -> PlanetaryDataSet {
    let mut ds = PlanetaryDataSet::default();
    let mk = |id: i32, mu: f64, eq: f64, pol: f64, ra: &[f64], dec: &[f64], pm: &[f64]| PlanetaryData {
        object_id: id,
        parent_id: 1,
        mu_km3_s2: mu,
        shape: (eq > 0.0).then(|| Ellipsoid::from_spheroid(eq, pol)),
        pole_right_ascension: pad(ra),
        pole_declination: pad(dec),
        prime_meridian: pad(pm),
        ..Default::default()
    };
    let rows = [
        ("Earth", mk(399, MU_EARTH, 6378.1366, 6356.7519, &[0.0, -0.641], &[90.0, -0.557], &[190.147, 360.9856235])),
        ("Moon", mk(301, MU_MOON, 1737.4, 1737.4, &[269.9949, 0.0031], &[66.5392, 0.0130], &[38.3213, 13.17635815])),
        ("Sun", mk(10, MU_SUN, 695700.0, 695700.0, &[286.13], &[63.87], &[84.176, 14.1844])),
        ("Venus Barycenter", mk(2, MU_VENUS, 0.0, 0.0, &[], &[], &[])),
        ("Venus", mk(299, MU_VENUS, 6051.8, 6051.8, &[272.76], &[67.16], &[160.2, -1.4813688])),
        ("Mars Barycenter", mk(4, MU_MARS, 0.0, 0.0, &[], &[], &[])),
        ("Mars", mk(499, MU_MARS, 3396.19, 3376.2, &[317.68143, -0.1061], &[52.8865, -0.0609], &[176.63, 350.89198226])),
        ("Jupiter Barycenter", mk(5, MU_JUP, 71492.0, 66854.0, &[], &[], &[])),
        ("Earth-Moon Barycenter", mk(3, MU_EARTH + MU_MOON, 0.0, 0.0, &[], &[], &[])),
        ("Ecliptic", mk(17, 0.0, 0.0, 0.0, &[], &[], &[])),
        ("SSB", mk(0, MU_SUN, 0.0, 0.0, &[], &[], &[])),
    ];
    for (n, r) in rows {
        ds.push(r, Some(r.object_id), Some(n)).expect("planetary data");
    }
    ds
}

static ALM: OnceLock<Arc<Almanac>> = OnceLock::new();

pub fn almanac() -> Arc<Almanac> {
    ALM.get_or_init(|| {
        let spk = SPK::parse(&spk_bytes()[..]).expect("synthetic SPK");
        let a = Almanac::default().with_spk(spk).with_planetary_data(planetary());
        Arc::new(a)
    })
    .clone()
}

pub fn eme2k() -> Frame {
    almanac().frame_info(EARTH_J2000).unwrap()
}
pub fn moonj2k() -> Frame {
    almanac().frame_info(MOON_J2000).unwrap()
}
pub fn sunj2k() -> Frame {
    almanac().frame_info(SUN_J2000).unwrap()
}
pub fn marsj2k() -> Frame {
    almanac().frame_info(MARS_J2000).unwrap()
}
pub fn iau_earth() -> Frame {
    almanac().frame_info(IAU_EARTH_FRAME).unwrap()
}
pub fn iau_moon() -> Frame {
    almanac().frame_info(IAU_MOON_FRAME).unwrap()
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn sane() {
        let a = almanac();
        let e = Epoch::from_gregorian_utc_hms(2022, 3, 4, 5, 6, 7);
        let s = a.translate(MOON_J2000, EARTH_J2000, e, None).unwrap();
        assert!((s.radius_km - rel_pos(301, 399, e)).norm() < 1e-5, "{}", (s.radius_km - rel_pos(301, 399, e)).norm());
        assert!((s.velocity_km_s - rel_vel(301, 399, e)).norm() < 1e-9);
        let s = a.translate(SUN_J2000, MOON_J2000, e, None).unwrap();
        assert!((s.radius_km - rel_pos(10, 301, e)).norm() < 1e-4, "{}", (s.radius_km - rel_pos(10, 301, e)).norm());
        assert!((s.velocity_km_s - rel_vel(10, 301, e)).norm() < 1e-9);
        println!("{:?} {:?}", eme2k(), iau_earth());
        println!("{}", a.rotate(EARTH_J2000, IAU_EARTH_FRAME, e).unwrap());
    }
}
