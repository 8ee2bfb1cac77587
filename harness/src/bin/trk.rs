//! C24 tracking devices, C25 sensitivities, C31 tracking arcs, C32 their files, C34 simulation, C35 noises.
use anise::astro::{Aberration, Location, TerrainMask};
use anise::prelude::*;
use hifitime::{Epoch, TimeScale, Unit};
use std::collections::BTreeMap;
use std::ops::Bound;
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Const, Matrix3};
use nyx_space::cosmic::Spacecraft;
use nyx_space::io::ExportCfg;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::{Measurement, MeasurementType};
use nyx_space::od::noise::link_specific::{CN0, CarrierFreq, ChipRate, SN0};
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, Stochastics, WhiteNoise};
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrackingArcSim, TrkConfig};
use nyx_space::od::position::PositionDevice;
use nyx_space::od::msr::TrackingDataArc;
use nyx_space::od::{GroundStation, ODError, TrackingDevice};
use nyxmon::alm::*;
use nyxmon::gens::*;
use nyxmon::math::*;
use nyxmon::mon::*;
use nyxmon::ok;
use rand_pcg::Pcg64Mcg;
use MeasurementType as MT;

const RADAR: [MT; 4] = [MT::Range, MT::Doppler, MT::Azimuth, MT::Elevation];
const XYZ: [MT; 3] = [MT::X, MT::Y, MT::Z];

fn shuffle<T: Copy>(c: &mut Case, v: &[T]) -> Vec<T> {
    let mut w = v.to_vec();
    for i in (1..w.len()).rev() {
        let j = c.u(0, i);
        w.swap(i, j);
    }
    w
}
fn subset<T: Copy>(c: &mut Case, v: &[T], min: usize) -> Vec<T> {
    let n = c.u(min, v.len());
    shuffle(c, v)[..n].to_vec()
}

/// A trajectory on a Keplerian orbit, with knots dense enough for the interpolation to be exact here.
fn kep_traj(o: Orbit, sc: &Spacecraft, before: f64, after: f64, name: &str) -> Traj<Spacecraft> {
    let mu = o.frame.mu_km3_s2().unwrap();
    let h = (period_s(&o) / 200.0 * (1.0 - o.ecc().unwrap()).powf(1.5)).clamp(5.0, 1200.0).floor();
    let n0 = (before / h).ceil() as i64 + 8;
    let n1 = (after / h).ceil() as i64 + 8;
    let mut t = Traj::new();
    t.name = Some(name.to_string());
    for k in -n0..=n1 {
        let dt = k as f64 * h;
        let (r, v) = kepler(mu, o.radius_km, o.velocity_km_s, dt);
        let mut s = *sc;
        s.orbit = Orbit { radius_km: r, velocity_km_s: v, epoch: o.epoch + dt * Unit::Second, frame: o.frame };
        t.states.push(s);
    }
    t.finalize();
    t
}

struct Geo {
    /// body fixed position
    r: V3,
    /// rows S, E, Z in body fixed axes
    sez: Matrix3<f64>,
}
fn geo(loc: &Location) -> Geo {
    let f = almanac().frame_info(loc.frame).unwrap();
    let sh = f.shape.unwrap();
    let (a, b) = (sh.semi_major_equatorial_radius_km, sh.polar_radius_km);
    let e2 = 1.0 - (b * b) / (a * a);
    let (sp, cp) = loc.latitude_deg.to_radians().sin_cos();
    let (sl, cl) = loc.longitude_deg.to_radians().sin_cos();
    let n = a / (1.0 - e2 * sp * sp).sqrt();
    let r = V3::new((n + loc.height_km) * cp * cl, (n + loc.height_km) * cp * sl, (n * (1.0 - e2) + loc.height_km) * sp);
    let s = V3::new(sp * cl, sp * sl, -cp);
    let e = V3::new(-sl, cl, 0.0);
    let z = V3::new(cp * cl, cp * sl, sp);
    Geo { r, sez: Matrix3::from_rows(&[s.transpose(), e.transpose(), z.transpose()]) }
}

#[derive(Clone, Copy, Debug)]
struct Ref {
    range: f64,
    rate: f64,
    az: f64,
    el: f64,
}
impl Ref {
    fn get(&self, t: MT) -> f64 {
        match t {
            MT::Range => self.range,
            MT::Doppler => self.rate,
            MT::Azimuth => self.az,
            MT::Elevation => self.el,
            _ => unreachable!(),
        }
    }
}
fn tol(t: MT, r: &Ref) -> f64 {
    match t {
        MT::Range => 1e-6 + 1e-10 * r.range,
        MT::Doppler => 4e-6,
        MT::Azimuth => 1e-6 + 1e-6 / r.el.to_radians().cos().max(1e-9),
        _ => 2e-6,
    }
}
fn aer_of(d: V3, dv: V3) -> Ref {
    let range = d.norm();
    let az = d.y.atan2(-d.x).to_degrees().rem_euclid(360.0);
    Ref { range, rate: d.dot(&dv) / range, az, el: (d.z / range).asin().to_degrees() }
}
fn reference(loc: &Location, rx: &Orbit) -> Ref {
    let f = almanac().frame_info(loc.frame).unwrap();
    let o = almanac().transform_to(*rx, f, None).unwrap();
    let g = geo(loc);
    aer_of(g.sez * (o.radius_km - g.r), g.sez * o.velocity_km_s)
}
fn mask_at(loc: &Location, az: f64) -> f64 {
    if loc.terrain_mask_ignored || loc.terrain_mask.is_empty() {
        return 0.0;
    }
    let mut m = loc.terrain_mask.last().unwrap().elevation_mask_deg;
    for k in &loc.terrain_mask {
        if k.azimuth_deg <= az {
            m = k.elevation_mask_deg;
        }
    }
    m
}
/// Some(visible), or None when too close to call.
fn visible(loc: &Location, rx: &Orbit) -> Option<bool> {
    let r = reference(loc, rx);
    if !loc.terrain_mask_ignored && loc.terrain_mask.iter().any(|k| ((r.az - k.azimuth_deg + 540.0).rem_euclid(360.0) - 180.0).abs() < 1e-3 / r.el.to_radians().cos().max(1e-6)) {
        return None;
    }
    let up = r.el - mask_at(loc, r.az);
    if up.abs() < 1e-5 {
        return None;
    }
    if up < 0.0 {
        return Some(false);
    }
    if loc.frame.ephemeris_id != rx.frame.ephemeris_id {
        let f = almanac().frame_info(loc.frame).unwrap();
        let st = Orbit { radius_km: geo(loc).r, velocity_km_s: V3::zeros(), epoch: rx.epoch, frame: f };
        let st = almanac().transform_to(st, rx.frame, None).unwrap();
        return los(&st.radius_km, &rx.radius_km, rx.frame.mean_equatorial_radius_km().unwrap());
    }
    Some(true)
}
/// Whether two points see each other about a sphere at the origin; None when grazing.
fn los(a: &V3, b: &V3, rad: f64) -> Option<bool> {
    let d = b - a;
    let t = (-a.dot(&d) / d.norm_squared()).clamp(0.0, 1.0);
    let m = (a + d * t).norm();
    if (m - rad).abs() < 1e-3 {
        None
    } else {
        Some(m > rad)
    }
}

fn station(c: &mut Case, frame: Frame, types: &[MT]) -> GroundStation {
    let lat = if c.b(0.1) { c.f(-90.0, 90.0).signum() * c.f(85.0, 89.9) } else { c.f(-80.0, 80.0) };
    let lon = if c.b(0.5) { c.f(0.0, 360.0) } else { c.f(-180.0, 180.0) };
    let h = c.f(-0.3, 4.0);
    let mut g = GroundStation::from_point(format!("GS{}", c.u(0, 9)), lat, lon, h, frame);
    match c.u(0, 3) {
        0 => {}
        1 => {
            let e = c.f(0.0, 25.0);
            g.location.terrain_mask = TerrainMask::from_flat_terrain(e);
            g.location.terrain_mask_ignored = c.b(0.2);
        }
        _ => {
            let n = c.u(1, 6);
            let mut az: Vec<f64> = (0..n).map(|_| c.f(0.0, 360.0)).collect();
            if c.b(0.5) {
                az[0] = 0.0;
            }
            az.sort_by(f64::total_cmp);
            g.location.terrain_mask = az.iter().map(|a| TerrainMask { azimuth_deg: *a, elevation_mask_deg: c.f(-5.0, 40.0) }).collect();
            g.location.terrain_mask_ignored = c.b(0.1);
        }
    }
    g.measurement_types = types.iter().copied().collect();
    c.p("lat", lat);
    c.p("lon", lon);
    c.p("height", h);
    c.p("mask", format!("{:?} {}", g.location.terrain_mask, g.location.terrain_mask_ignored));
    c.p("types", types);
    g
}

/// An orbit and a station, which sees it most of the time.
fn scene(c: &mut Case, types: &[MT]) -> (GroundStation, Spacecraft) {
    let e = epoch(c);
    let (f, sf) = match c.u(0, 9) {
        0..=4 => (eme2k(), iau_earth()),
        5..=6 => (moonj2k(), iau_earth()),
        7..=8 => (moonj2k(), iau_moon()),
        _ => (eme2k(), iau_moon()),
    };
    c.p("frames", format!("{f} {sf}"));
    let me = if c.b(0.2) { 0.8 } else { 0.3 };
    let o = orbit(c, f, e, me, 6.0);
    let mut s = sc(c, o);
    s.orbit = o;
    let mut g = station(c, sf, types);
    if c.b(0.8) {
        // Move the station below the spacecraft, give or take.
        let b = almanac().transform_to(o, sf, None).unwrap().radius_km;
        let lon = b.y.atan2(b.x).to_degrees();
        let lat = (b.z / b.norm()).asin().to_degrees();
        let spread = c.logu(0.05, 60.0);
        g.location.latitude_deg = (lat + c.f(-1.0, 1.0) * spread).clamp(-89.9, 89.9);
        g.location.longitude_deg = lon + c.f(-1.0, 1.0) * spread;
        c.p("lat", g.location.latitude_deg);
        c.p("lon", g.location.longitude_deg);
    }
    (g, s)
}

fn white(mean: f64, sigma: f64) -> StochasticNoise {
    StochasticNoise { white_noise: Some(WhiteNoise { mean, sigma }), bias: None }
}
fn constant_bias(k: f64) -> Option<GaussMarkov> {
    Some(GaussMarkov { constant: Some(k), ..GaussMarkov::ZERO })
}
fn pm180(d: f64) -> f64 {
    (d + 540.0).rem_euclid(360.0) - 180.0
}
fn sig(t: MT) -> f64 {
    match t {
        MT::Range | MT::X | MT::Y | MT::Z => 1e-2,
        MT::Doppler => 1e-4,
        _ => 1e-2,
    }
}

fn same_types(c: &mut Case, msr: &Measurement, types: &[MT]) {
    let got: Vec<MT> = msr.data.keys().copied().collect();
    c.check("types", got.len() == types.len() && types.iter().all(|t| got.contains(t)), || format!("{got:?} instead of {types:?}"));
}

fn c24() {
    let mut m = Mon::new("C24", "a case is nontrivial when a measurement was compared with the geometry, or its absence was expected");
    m.assume("elevations closer than 1e-5 degrees to the mask and lines of sight closer than 1 m to the limb are not judged");
    m.group("ground station, one way", 3000, 100000, |c| {
        let ty = subset(c, &RADAR, 1);
        let (mut g, s) = scene(c, &ty);
        let r = reference(&g.location, &s.orbit);
        let Some(vis) = visible(&g.location, &s.orbit) else {
            c.skip("grazing");
            return;
        };
        let msr = ok!(c, "measure", g.measure_instantaneous(s, None, &almanac()));
        c.check("visibility", msr.is_some() == vis, || format!("measured: {} while visible: {vis} ({r:?}, mask {})", msr.is_some(), mask_at(&g.location, r.az)));
        c.obs(if vis { "measurements" } else { "hidden" }, 1);
        c.nontrivial();
        let aer = ok!(c, "azimuth_elevation_of", g.azimuth_elevation_of(s.orbit, None, &almanac()));
        c.near("range of", aer.range_km, r.range, tol(MT::Range, &r));
        c.near("rate of", aer.range_rate_km_s, r.rate, tol(MT::Doppler, &r));
        c.near("azimuth of", pm180(aer.azimuth_deg - r.az), 0.0, tol(MT::Azimuth, &r));
        c.near("elevation of", aer.elevation_deg, r.el, tol(MT::Elevation, &r));
        let loc = ok!(c, "location", TrackingDevice::<Spacecraft>::location(&g, s.orbit.epoch, s.orbit.frame, &almanac()));
        let f = almanac().frame_info(g.location.frame).unwrap();
        let st = Orbit { radius_km: geo(&g.location).r, velocity_km_s: V3::zeros(), epoch: s.orbit.epoch, frame: f };
        let st = almanac().transform_to(st, s.orbit.frame, None).unwrap();
        c.vnear("location", loc.radius_km.as_slice(), st.radius_km.as_slice(), 1e-6);
        c.vnear("location velocity", loc.velocity_km_s.as_slice(), st.velocity_km_s.as_slice(), 2e-6);
        c.check("location frame", loc.frame.ephem_origin_match(s.orbit.frame) && loc.epoch == s.orbit.epoch, || format!("{}", loc.frame));
        let Some(msr) = msr else { return };
        c.check("tracker", msr.tracker == g.name && msr.epoch == s.orbit.epoch && !msr.rejected, || format!("{msr}"));
        same_types(c, &msr, &ty);
        for t in &ty {
            let d = msr.data[t] - r.get(*t);
            let d = if *t == MT::Azimuth { pm180(d) } else { d };
            c.near(&format!("{t:?}"), d, 0.0, tol(*t, &r));
        }
        if let Some(a) = msr.data.get(&MT::Azimuth) {
            c.check("azimuth range", (0.0..=360.0).contains(a), || format!("{a}"));
        }
    });
    m.group("light time", 300, 10000, |c| {
        let ty = shuffle(c, &RADAR);
        let (mut g, s) = scene(c, &ty);
        g.light_time_correction = true;
        let ob = (g.location.frame.ephemeris_id != s.orbit.frame.ephemeris_id).then_some(s.orbit.frame);
        let aer = almanac().azimuth_elevation_range_sez_from_location(s.orbit, g.location.clone(), ob, Aberration::LT).unwrap();
        let msr = ok!(c, "measure", g.measure_instantaneous(s, None, &almanac()));
        let vis = aer.elevation_above_mask_deg() >= 0.0 && aer.obstructed_by.is_none();
        c.check("visibility", msr.is_some() == vis, || format!("{} {vis}", msr.is_some()));
        c.nontrivial();
        let a2 = ok!(c, "aer", g.azimuth_elevation_of(s.orbit, ob, &almanac()));
        c.near("azimuth_elevation_of", a2.range_km, aer.range_km, 1e-9 * aer.range_km);
        let Some(msr) = msr else { return };
        let r = Ref { range: aer.range_km, rate: aer.range_rate_km_s, az: aer.azimuth_deg, el: aer.elevation_deg };
        for t in &ty {
            c.near(&format!("{t:?}"), msr.data[t], r.get(*t), 1e-9 * r.get(*t).abs() + 1e-12);
        }
        let g0 = reference(&g.location, &s.orbit);
        if (g0.range - r.range).abs() > 1e-6 {
            c.obs("light time matters", 1);
        }
        c.obs("measurements", 1);
    });
    m.group("ground station, two way", 1200, 40000, |c| {
        let ty = subset(c, &RADAR, 1);
        let (mut g, s) = scene(c, &ty);
        let dt = c.f(1.0, 300.0).floor();
        g = g.with_integration_time(Some(dt * Unit::Second));
        c.p("integration", dt);
        g.light_time_correction = c.b(0.25);
        let lt = g.light_time_correction;
        let long = if c.b(0.3) { 0.4 * period_s(&s.orbit) } else { 0.0 };
        let tr = kep_traj(s.orbit, &s, 2.0 * dt + long, dt + long, "sc");
        let (a, b) = (tr.states.first().unwrap().orbit.epoch, tr.states.last().unwrap().orbit.epoch);
        // Seen, and elevation over the mask, by the states.
        let seen: Vec<_> = tr.states.iter().map(|x| visible(&g.location, &x.orbit)).collect();
        let turns: Vec<usize> = (1..seen.len()).filter(|k| seen[*k].is_some() && seen[*k - 1].is_some() && seen[*k] != seen[*k - 1]).collect();
        let e = if !turns.is_empty() && c.b(0.9) {
            let k = c.pick(&turns);
            tr.states[k].orbit.epoch + c.f(-0.5, 1.0) * dt * Unit::Second
        } else if c.b(0.2) {
            // About the ends of the trajectory.
            if c.b(0.5) { a + c.f(0.0, 2.0 * dt).floor() * Unit::Second } else { b + c.f(-dt, dt).floor() * Unit::Second }
        } else {
            s.orbit.epoch + c.f(-60.0, 60.0).floor() * Unit::Second
        };
        c.p("at", (e - s.orbit.epoch).to_seconds());
        let inside = e - dt * Unit::Second >= a && e <= b;
        let msr = ok!(c, "measure", g.measure(e, &tr, None, &almanac()));
        c.nontrivial();
        if !inside {
            c.check("outside of the trajectory", msr.is_none(), || format!("{}", msr.unwrap()));
            c.obs("outside", 1);
            return;
        }
        let (x0, x1) = (tr.at(e - dt * Unit::Second).unwrap(), tr.at(e).unwrap());
        let ob = (g.location.frame.ephemeris_id != s.orbit.frame.ephemeris_id).then_some(s.orbit.frame);
        let view = |o: Orbit| {
            if !lt {
                return (reference(&g.location, &o), visible(&g.location, &o));
            }
            let a = almanac().azimuth_elevation_range_sez_from_location(o, g.location.clone(), ob, Aberration::LT).unwrap();
            let up = a.elevation_above_mask_deg();
            (Ref { range: a.range_km, rate: a.range_rate_km_s, az: a.azimuth_deg, el: a.elevation_deg }, (up.abs() > 1e-9).then_some(up >= 0.0 && a.obstructed_by.is_none()))
        };
        let ((r0, v0), (r1, v1)) = (view(x0.orbit), view(x1.orbit));
        let (Some(v0), Some(v1)) = (v0, v1) else {
            c.skip("grazing");
            return;
        };
        c.obs(if v0 != v1 { "one end hidden" } else { "both ends alike" }, 1);
        c.check("visibility", msr.is_some() == (v0 && v1), || format!("{} {v0} {v1}", msr.is_some()));
        c.obs(if v0 && v1 { "measurements" } else { "hidden" }, 1);
        // The noises are those of the middle of the integration; a hidden spacecraft draws none.
        let mut n = g.clone();
        let mut ks = IndexMap::new();
        for t in &ty {
            let mut w = white(0.0, sig(*t));
            let k = if c.b(0.5) { Some(sig(*t) * c.f(-5.0, 5.0)) } else { None };
            w.bias = Some(GaussMarkov { constant: k, ..GaussMarkov::new(c.f(10.0, 9000.0) * Unit::Second, sig(*t)).unwrap() });
            n = n.with_msr_type(*t, w);
            ks.insert(*t, k);
        }
        let mut rng = Pcg64Mcg::new(c.rng_u128() | 1);
        let mut same = rng.clone();
        ok!(c, "noisy", n.measure(e, &tr, Some(&mut rng), &almanac()));
        if !(v0 && v1) {
            use rand::RngExt;
            c.check("no noise while hidden", rng.random::<u64>() == same.random::<u64>(), || "the generator advanced".into());
        }
        for t in &ty {
            let b = ok!(c, "bias", TrackingDevice::<Spacecraft>::measurement_bias(&n, *t, e));
            c.near("bias", b, ks[t].unwrap_or(0.0), 0.0);
            let at = n.stochastic_noises.as_ref().unwrap()[t].bias.unwrap().prev_epoch;
            let want = (v0 && v1).then_some(e - dt * 0.5 * Unit::Second);
            c.check("noise at mid integration", at == want, || format!("{at:?} instead of {want:?}"));
        }
        let Some(msr) = msr else { return };
        c.check("tracker", msr.tracker == g.name && msr.epoch == e, || format!("{msr}"));
        same_types(c, &msr, &ty);
        for t in &ty {
            let (d, to) = if *t == MT::Azimuth {
                let dd = pm180(r1.az - r0.az);
                if dd.abs() > 179.0 {
                    continue;
                }
                let a = msr.data[t];
                c.check("azimuth range", (0.0..=360.0).contains(&a), || format!("{a}"));
                if (r1.az - r0.az).abs() > 180.0 {
                    c.obs("azimuth through north", 1);
                }
                (pm180(msr.data[t] - r0.az - 0.5 * dd), tol(*t, &r0) + tol(*t, &r1))
            } else {
                (msr.data[t] - 0.5 * (r0.get(*t) + r1.get(*t)), tol(*t, &r0) + tol(*t, &r1))
            };
            c.near(&format!("{t:?}"), d, 0.0, to);
        }
    });
    m.group("one way on a trajectory", 300, 10000, |c| {
        let ty = subset(c, &RADAR, 1);
        let (mut g, s) = scene(c, &ty);
        let tr = kep_traj(s.orbit, &s, 300.0, 300.0, "sc");
        let e = s.orbit.epoch + c.f(-300.0, 300.0) * Unit::Second;
        let x = tr.at(e).unwrap();
        let a = ok!(c, "measure", g.measure(e, &tr, None, &almanac()));
        let b = ok!(c, "instantaneous", g.measure_instantaneous(x, None, &almanac()));
        c.check("same", a.is_some() == b.is_some(), || format!("{} {}", a.is_some(), b.is_some()));
        if let (Some(a), Some(b)) = (a, b) {
            for t in &ty {
                c.near("value", a.data[t], b.data[t], 1e-9 * b.data[t].abs());
            }
            c.obs("measurements", 1);
        }
        c.check("outside", g.measure(e + 100 * Unit::Day, &tr, None, &almanac()).is_err(), || "a measurement outside of the trajectory".into());
        c.nontrivial();
    });
    m.group("noise statistics", 120, 3000, |c| {
        let ty = subset(c, &RADAR, 1);
        let (mut g, s) = scene(c, &ty);
        g.location.terrain_mask_ignored = true;
        let two = c.b(0.5);
        if two {
            g.integration_time = Some(10 * Unit::Second);
        }
        if visible(&g.location, &s.orbit) != Some(true) {
            c.skip("hidden");
            return;
        }
        let tr = kep_traj(s.orbit, &s, 60.0, 60.0, "sc");
        let e = s.orbit.epoch;
        let Some(clean) = ok!(c, "clean", g.measure(e, &tr, None, &almanac())) else {
            c.skip("hidden");
            return;
        };
        let mut rng = Pcg64Mcg::new(c.rng_u128() | 1);
        c.check("unconfigured noise", matches!(g.measure(e, &tr, Some(&mut rng), &almanac()), Err(ODError::NoiseNotConfigured { .. })), || "no error".into());
        let mut cfg = IndexMap::new();
        for t in &ty {
            let (mean, sd) = (sig(*t) * c.f(-2.0, 2.0), sig(*t) * c.f(0.1, 3.0));
            let k = if c.b(0.5) { Some(sig(*t) * c.f(-5.0, 5.0)) } else { None };
            let mut w = white(mean, sd);
            w.bias = k.and_then(constant_bias);
            g = g.with_msr_type(*t, w);
            cfg.insert(*t, (mean + k.unwrap_or(0.0), sd));
            let q = ok!(c, "covariance", TrackingDevice::<Spacecraft>::measurement_covar(&g, *t, e));
            c.near("covariance", q, sd * sd, 1e-12 * sd * sd);
            let q = ok!(c, "bias", TrackingDevice::<Spacecraft>::measurement_bias(&g, *t, e));
            c.near("bias", q, k.unwrap_or(0.0), 0.0);
        }
        let ts = if c.b(0.5) { Some((c.f(-0.2, 0.2), c.f(0.01, 0.5))) } else { None };
        g.timestamp_noise_s = ts.map(|t| white(t.0, t.1));
        let n = 400;
        let mut acc: IndexMap<MT, (f64, f64)> = IndexMap::new();
        let mut tacc = (0.0, 0.0);
        let seed = c.rng_u128() | 1;
        let mut rng = Pcg64Mcg::new(seed);
        let fresh = g.clone();
        let mut first = vec![];
        for _ in 0..n {
            let Some(msr) = ok!(c, "noisy", g.measure(e, &tr, Some(&mut rng), &almanac())) else {
                c.fail("noisy", "noise hides the spacecraft");
                return;
            };
            for t in &ty {
                let d = msr.data[t] - clean.data[t];
                let d = if *t == MT::Azimuth { pm180(d) } else { d };
                let a = acc.entry(*t).or_insert((0.0, 0.0));
                a.0 += d;
                a.1 += d * d;
            }
            let d = (msr.epoch - e).to_seconds();
            tacc.0 += d;
            tacc.1 += d * d;
            first.push(msr);
        }
        let nf = n as f64;
        let k = if two { 0.5f64.sqrt() } else { 1.0 };
        let stat = |c: &mut Case, nm: &str, a: (f64, f64), mean: f64, sd: f64| {
            let mu = a.0 / nf;
            let s2 = (a.1 / nf - mu * mu).max(0.0);
            c.near(&format!("{nm} mean"), mu, mean, 7.0 * sd / nf.sqrt() + 1e-9);
            c.near(&format!("{nm} sigma"), s2.sqrt() / sd, 1.0, 7.0 / (2.0 * nf).sqrt());
        };
        for t in &ty {
            stat(c, &format!("{t:?}"), acc[t], cfg[t].0 * k, cfg[t].1 * k);
        }
        match ts {
            Some(t) => stat(c, "timestamp", tacc, t.0, t.1),
            None => {
                c.near("no timestamp noise", tacc.1, 0.0, 0.0);
            }
        }
        let mut rng = Pcg64Mcg::new(seed);
        let mut g = fresh;
        for f in first.iter().take(5) {
            let q = g.measure(e, &tr, Some(&mut rng), &almanac()).unwrap().unwrap();
            c.check("same seed", q == *f && q.data.iter().all(|(k, v)| f.data[k] == *v), || format!("{q} / {f}"));
        }
        if ty.len() > 1 {
            // Independence between the types.
            let (t0, t1) = (ty[0], ty[1]);
            let dv = |m: &Measurement, t: MT| {
                let d = m.data[&t] - clean.data[&t];
                ((if t == MT::Azimuth { pm180(d) } else { d }) - cfg[&t].0 * k) / (cfg[&t].1 * k)
            };
            let rho: f64 = first.iter().map(|m| dv(m, t0) * dv(m, t1)).sum::<f64>() / nf;
            c.near("correlation", rho, 0.0, 7.0 / nf.sqrt());
        }
        c.obs("noisy measurements", n);
        c.nontrivial();
    });
    m.group("interlink", 2000, 50000, |c| {
        let e = epoch(c);
        let f1 = c.pick(&[eme2k(), eme2k(), moonj2k()]);
        let f2 = if c.b(0.8) { f1 } else { c.pick(&[eme2k(), moonj2k()]) };
        let o1 = orbit(c, f1, e, 0.4, 6.0);
        let mut o2 = orbit(c, f2, e, 0.4, 6.0);
        if c.b(0.1) {
            // A close formation.
            let (d, w) = (c.logu(1e-3, 30.0), c.logu(1e-6, 1e-2));
            o2 = o1;
            o2.radius_km += V3::new(c.gauss(), c.gauss(), c.gauss()) * d;
            o2.velocity_km_s += V3::new(c.gauss(), c.gauss(), c.gauss()) * w;
        }
        let f2 = o2.frame;
        let ab = if c.b(0.2) { Aberration::LT } else { Aberration::NONE };
        c.p("frames", format!("{f1} {f2}"));
        c.p("aberration", ab.is_some());
        let (s1, s2) = (sc(c, o1), sc(c, o2));
        let tx = kep_traj(o1, &s1, 700.0, 400.0, "TX");
        let rx = kep_traj(o2, &s2, 700.0, 400.0, "RX");
        let ty = subset(c, &[MT::Range, MT::Doppler], 1);
        let dt = if c.b(0.5) { Some(c.f(1.0, 300.0).floor()) } else { None };
        c.p("integration", dt);
        let mut d = InterlinkTxSpacecraft {
            traj: tx.clone(),
            measurement_types: ty.iter().copied().collect(),
            integration_time: dt.map(|d| d * Unit::Second),
            timestamp_noise_s: None,
            stochastic_noises: None,
            ab_corr: None,
        };
        d.ab_corr = ab;
        let refr = |e: Epoch| {
            let a = tx.at(e).unwrap().orbit;
            let q = rx.at(e).unwrap().orbit;
            let b = almanac().transform_to(q, a.frame, ab).unwrap();
            let (dr, dv) = (b.radius_km - a.radius_km, b.velocity_km_s - a.velocity_km_s);
            let v = los(&a.radius_km, &b.radius_km, a.frame.mean_equatorial_radius_km().unwrap());
            let v = if ab.is_some() { v.map(|_| !almanac().line_of_sight_obstructed(a, q, a.frame, ab).unwrap()) } else { v };
            (dr.norm(), dr.dot(&dv) / dr.norm(), v)
        };
        let mut at = e + c.f(-300.0, 300.0).floor() * Unit::Second;
        if let Some(d) = dt {
            // About a setting or a rising, when there is one.
            let v: Vec<_> = (-8..=6).map(|k| refr(e + k as f64 * 50.0 * Unit::Second).2).collect();
            if let Some(k) = (1..v.len()).find(|k| v[*k].is_some() && v[*k - 1].is_some() && v[*k] != v[*k - 1]) {
                let x = (-425.0 + 50.0 * k as f64 + c.f(0.0, 1.0) * d).clamp(-300.0, 300.0);
                at = e + x.floor() * Unit::Second;
            }
        }
        let w1 = refr(at);
        let w0 = dt.map(|d| refr(at - d * Unit::Second)).unwrap_or(w1);
        let (Some(v0), Some(v1)) = (w0.2, w1.2) else {
            c.skip("grazing");
            return;
        };
        let msr = ok!(c, "measure", d.measure(at, &rx, None, &almanac()));
        c.obs(if v0 != v1 { "one end hidden" } else { "both ends alike" }, 1);
        c.check("visibility", msr.is_some() == (v0 && v1), || format!("{} {v0} {v1}", msr.is_some()));
        c.obs(if v0 && v1 { "measurements" } else { "hidden" }, 1);
        c.nontrivial();
        let loc = ok!(c, "location", TrackingDevice::<Spacecraft>::location(&d, at, f2, &almanac()));
        let want = almanac().transform_to(tx.at(at).unwrap().orbit, f2, ab).unwrap();
        c.vnear("location", loc.radius_km.as_slice(), want.radius_km.as_slice(), 1e-9);
        c.check("no location outside", TrackingDevice::<Spacecraft>::location(&d, at + 300 * Unit::Day, f2, &almanac()).is_err(), || "a location outside".into());
        if let Some(msr) = msr {
            c.check("tracker", msr.tracker == "TX" && msr.epoch == at, || format!("{msr}"));
            same_types(c, &msr, &ty);
            for t in &ty {
                let want = if *t == MT::Range { 0.5 * (w0.0 + w1.0) } else { 0.5 * (w0.1 + w1.1) };
                c.near(&format!("{t:?}"), msr.data[t], want, 1e-8 * want.abs() + 1e-8);
            }
        }
        if dt.is_some() {
            let out = ok!(c, "outside", d.measure(at + 10 * Unit::Day, &rx, None, &almanac()));
            c.check("outside", out.is_none(), || "a measurement outside".into());
        } else {
            c.check("outside", d.measure(at + 10 * Unit::Day, &rx, None, &almanac()).is_err(), || "a measurement outside".into());
        }
        // Noise
        let mut rng = Pcg64Mcg::new(c.rng_u128() | 1);
        if v0 && v1 {
            c.check("unconfigured noise", d.measure(at, &rx, Some(&mut rng), &almanac()).is_err(), || "no error".into());
        }
        c.check("unconfigured covariance", TrackingDevice::<Spacecraft>::measurement_covar(&d, ty[0], at).is_err(), || "a covariance".into());
        let mut noises = IndexMap::new();
        for t in &ty {
            let mut w = white(0.0, sig(*t));
            w.bias = constant_bias(3.0 * sig(*t));
            noises.insert(*t, w);
        }
        d.stochastic_noises = Some(noises);
        for t in &ty {
            let q = ok!(c, "covariance", TrackingDevice::<Spacecraft>::measurement_covar(&d, *t, at));
            c.near("covariance", q, sig(*t).powi(2), 1e-18);
            let q = ok!(c, "bias", TrackingDevice::<Spacecraft>::measurement_bias(&d, *t, at));
            c.near("bias", q, 3.0 * sig(*t), 0.0);
        }
        if v0 && v1 {
            let n = 40;
            let mut acc = [0.0; 2];
            for _ in 0..n {
                let msr = ok!(c, "noisy", d.measure(at, &rx, Some(&mut rng), &almanac())).unwrap();
                for (k, t) in ty.iter().enumerate() {
                    let want = if *t == MT::Range { 0.5 * (w0.0 + w1.0) } else { 0.5 * (w0.1 + w1.1) };
                    acc[k] += (msr.data[t] - want) / sig(*t) / n as f64;
                }
            }
            let k = if dt.is_some() { 0.5f64.sqrt() } else { 1.0 };
            for a in acc.iter().take(ty.len()) {
                c.near("mean of the noise", *a, 3.0 * k, 7.0 * k / (n as f64).sqrt());
            }
            // An unsupported type is an error.
            d.measurement_types.insert(c.pick(&[MT::Azimuth, MT::Elevation, MT::X, MT::ReceiveFrequency]));
            c.check("unsupported type", d.measure(at, &rx, None, &almanac()).is_err(), || "no error".into());
        }
    });
    m.group("position device", 1000, 30000, |c| {
        let o = any_orbit(c);
        let s = sc(c, o);
        let ty = subset(c, &XYZ, 1);
        c.p("types", &ty);
        let mut d = PositionDevice::new("GNSS".to_string());
        d.measurement_types = ty.iter().copied().collect();
        let ax = |t: MT| XYZ.iter().position(|x| *x == t).unwrap();
        let clean = ok!(c, "measure", d.measure_instantaneous(s, None, &almanac())).unwrap();
        same_types(c, &clean, &ty);
        for t in &ty {
            c.near("coordinate", clean.data[t], o.radius_km[ax(*t)], 1e-12 * o.rmag_km());
        }
        let mut rng = Pcg64Mcg::new(c.rng_u128() | 1);
        c.check("unconfigured noise", d.measure_instantaneous(s, Some(&mut rng), &almanac()).is_err(), || "no error".into());
        let mut want = vec![];
        for t in &ty {
            let k = if c.b(0.7) { Some(c.f(-3.0, 3.0)) } else { None };
            let sd = c.f(0.01, 1.0);
            let mut w = white(0.0, sd);
            w.bias = k.and_then(constant_bias);
            d = d.with_noise(*t, w);
            want.push((k.unwrap_or(0.0), sd));
            let q = ok!(c, "covariance", TrackingDevice::<Spacecraft>::measurement_covar(&d, *t, o.epoch));
            c.near("covariance", q, sd * sd, 1e-12);
            let q = ok!(c, "bias", TrackingDevice::<Spacecraft>::measurement_bias(&d, *t, o.epoch));
            c.near("bias", q, k.unwrap_or(0.0), 0.0);
        }
        let tr = kep_traj(o, &s, 10.0, 10.0, "sc");
        let n = 60;
        let mut acc = vec![0.0; ty.len()];
        let quiet = ok!(c, "measure", d.measure(o.epoch, &tr, None, &almanac())).unwrap();
        for (k, t) in ty.iter().enumerate() {
            c.near("no noise without a generator", quiet.data[t], o.radius_km[ax(*t)], 1e-9 * o.rmag_km());
            let _ = k;
        }
        for _ in 0..n {
            let q = ok!(c, "noisy", d.measure(o.epoch, &tr, Some(&mut rng), &almanac())).unwrap();
            for (k, t) in ty.iter().enumerate() {
                acc[k] += (q.data[t] - o.radius_km[ax(*t)]) / n as f64;
            }
        }
        for (k, w) in want.iter().enumerate() {
            c.near("mean", acc[k], w.0, 7.0 * w.1 / (n as f64).sqrt() + 1e-9 * o.rmag_km());
        }
        d.measurement_types.insert(c.pick(&[MT::Range, MT::Doppler, MT::Azimuth, MT::TransmitFrequency]));
        c.check("unsupported type", d.measure_instantaneous(s, None, &almanac()).is_err(), || "no error".into());
        c.obs("measurements", n);
        c.nontrivial();
    });
    m.group("configuration", 400, 10000, |c| {
        let ty = subset(c, &RADAR, 1);
        let g0 = station(c, iau_earth(), &[]);
        let e = epoch(c);
        let mut g = g0.clone();
        c.check("no noise", TrackingDevice::<Spacecraft>::measurement_covar(&g, ty[0], e).is_err() && TrackingDevice::<Spacecraft>::measurement_bias(&g, ty[0], e).is_err(), || "no error".into());
        c.check("no bias", g.clone().with_msr_bias_constant(ty[0], 1.0).is_err(), || "no error".into());
        let mut want: IndexMap<MT, (f64, f64)> = IndexMap::new();
        let mut biases: IndexMap<MT, Option<GaussMarkov>> = IndexMap::new();
        for _ in 0..c.u(1, 6) {
            let t = c.pick(&ty);
            match c.u(0, 3) {
                0 | 1 => {
                    let sd = c.f(0.1, 3.0);
                    let k = if c.b(0.3) { c.f(-1.0, 1.0) } else { 0.0 };
                    let mut w = white(0.0, sd);
                    let mut q = 0.0;
                    if k != 0.0 {
                        w.bias = constant_bias(k);
                    }
                    if c.b(0.4) {
                        q = c.f(0.1, 2.0);
                        let tau = c.f(10.0, 9000.0) * Unit::Second;
                        w.bias = Some(GaussMarkov { constant: (k != 0.0).then_some(k), ..GaussMarkov::new(tau, q).unwrap() });
                    }
                    g = g.with_msr_type(t, w);
                    biases.insert(t, w.bias);
                    want.insert(t, (sd * sd + q * q, k));
                }
                2 => {
                    g = g.without_msr_type(t);
                    want.swap_remove(&t);
                }
                _ => {
                    let k = c.f(-9.0, 9.0);
                    match (g.clone().with_msr_bias_constant(t, k), want.get_mut(&t)) {
                        (Ok(q), Some(w)) => {
                            g = q;
                            w.1 = k;
                            let was = biases[&t].unwrap_or(GaussMarkov::ZERO);
                            let now = g.stochastic_noises.as_ref().and_then(|n| n.get(&t)).and_then(|n| n.bias);
                            c.check("rest of the bias", now.is_some_and(|n| n.tau == was.tau && n.process_noise == was.process_noise), || format!("{now:?} from {was:?}"));
                            c.obs("biases set", 1);
                        }
                        (Err(_), None) => {}
                        (r, w) => c.fail("bias of a type", format!("{} {w:?}", r.is_ok())),
                    }
                }
            }
        }
        let types = TrackingDevice::<Spacecraft>::measurement_types(&g).clone();
        c.check("types", types.len() == want.len() && want.keys().all(|t| types.contains(t)), || format!("{types:?}"));
        let order: IndexSet<MT> = shuffle(c, &RADAR).into_iter().collect();
        let r = ok!(c, "covariance matrix", TrackingDevice::<Spacecraft>::measurement_covar_matrix::<Const<4>>(&g, &order, e));
        let b = ok!(c, "bias vector", TrackingDevice::<Spacecraft>::measurement_bias_vector::<Const<4>>(&g, &order, e));
        for (i, t) in order.iter().enumerate() {
            let w = want.get(t).copied().unwrap_or((0.0, 0.0));
            for j in 0..4 {
                c.near("covariance matrix", r[(i, j)], if i == j { w.0 } else { 0.0 }, 1e-12);
            }
            c.near("bias vector", b[i], w.1, 0.0);
        }
        c.check("rest unchanged", g.location == g0.location && g.name == g0.name, || "changed".into());
        // Types that a ground station cannot produce are errors.
        let bad = c.pick(&[MT::X, MT::Z, MT::ReceiveFrequency, MT::TransmitFrequencyRate]);
        let (mut q, s) = scene(c, &[MT::Range, bad]);
        if visible(&q.location, &s.orbit) == Some(true) {
            c.check("unsupported type", q.measure_instantaneous(s, None, &almanac()).is_err(), || format!("{bad:?} accepted"));
        }
        // A station on a body without a shape is an error.
        q.location.frame = almanac().frame_info(anise::constants::frames::EARTH_MOON_BARYCENTER_J2000).unwrap().into();
        c.check("no shape", q.measure_instantaneous(s, None, &almanac()).is_err() && TrackingDevice::<Spacecraft>::location(&q, e, eme2k(), &almanac()).is_err(), || "no error".into());
        c.nontrivial();
    });
    m.finish()
}

// ---------------------------------------------------------------- C25
fn c25() {
    let mut m = Mon::new("C25", "a case is nontrivial when every row of a sensitivity matrix was compared with differences of the measurement");
    m.assume("instantaneous measurements without light time; elevations below 89.5 degrees for the angles");
    m.group("ground station", 2500, 80000, |c| {
        let ty = subset(c, &RADAR, 1);
        let (mut g, s) = scene(c, &ty);
        g.location.terrain_mask_ignored = true;
        let rx = s.orbit;
        let f = almanac().frame_info(g.location.frame).unwrap();
        let ge = geo(&g.location);
        let st = Orbit { radius_km: ge.r, velocity_km_s: V3::zeros(), epoch: rx.epoch, frame: f };
        let st = almanac().transform_to(st, rx.frame, None).unwrap();
        let rot = ge.sez * almanac().rotate(rx.frame, f, rx.epoch).unwrap().rot_mat;
        let meas = |r: &V3, v: &V3| {
            let (d, dv) = (r - st.radius_km, v - st.velocity_km_s);
            aer_of(rot * d, rot * dv)
        };
        let r0 = meas(&rx.radius_km, &rx.velocity_km_s);
        if r0.el.abs() > 89.5 {
            c.skip("overhead");
            return;
        }
        // The measurement holds some of the types, with values off by their noise.
        let mut msr = Measurement::new(g.name.clone(), rx.epoch);
        let off = c.pick(&[0.0, 1.0, 100.0]);
        for t in shuffle(c, &RADAR) {
            if c.b(0.8) {
                msr.push(t, r0.get(t) + off * sig(t) * c.gauss());
            }
        }
        let order: IndexSet<MT> = ty.iter().copied().collect();
        let h = ok!(c, "h_tilde", g.h_tilde::<Const<4>>(&msr, &order, &s, &almanac()));
        check_rows(c, &h, &ty, &msr, &rx, |r, v, t| meas(r, v).get(t), r0.range, r0.el);
        // The scalar version is the same row.
        if let Some(t) = ty.iter().find(|t| msr.data.contains_key(*t)) {
            let one: IndexSet<MT> = [*t].into_iter().collect();
            let h1 = ok!(c, "scalar", g.h_tilde::<Const<1>>(&msr, &one, &s, &almanac()));
            let i = ty.iter().position(|x| x == t).unwrap();
            for j in 0..9 {
                c.near("scalar", h1[(0, j)], h[(i, j)], 1e-12 * h[(i, j)].abs());
            }
        }
        let bad = c.pick(&[MT::X, MT::Y, MT::Z, MT::ReceiveFrequency, MT::TransmitFrequency, MT::TransmitFrequencyRate]);
        let mb = msr.clone().with(bad, 1.0);
        c.check("unsupported type", g.h_tilde::<Const<1>>(&mb, &[bad].into_iter().collect(), &s, &almanac()).is_err(), || format!("{bad:?}"));
        c.obs("matrices", 1);
        c.nontrivial();
    });
    m.group("interlink", 1500, 50000, |c| {
        let e = epoch(c);
        let f1 = c.pick(&[eme2k(), eme2k(), moonj2k()]);
        let f2 = if c.b(0.8) { f1 } else { c.pick(&[eme2k(), moonj2k()]) };
        let o1 = orbit(c, f1, e, 0.4, 6.0);
        let o2 = orbit(c, f2, e, 0.4, 6.0);
        let (s1, s2) = (sc(c, o1), sc(c, o2));
        let tx = kep_traj(o1, &s1, 10.0, 10.0, "TX");
        let ty = subset(c, &[MT::Range, MT::Doppler], 1);
        let d = InterlinkTxSpacecraft {
            traj: tx.clone(),
            measurement_types: ty.iter().copied().collect(),
            integration_time: None,
            timestamp_noise_s: None,
            stochastic_noises: None,
            ab_corr: None,
        };
        let a = almanac().transform_to(tx.at(e).unwrap().orbit, f2, None).unwrap();
        let meas = |r: &V3, v: &V3| {
            let (d, dv) = (r - a.radius_km, v - a.velocity_km_s);
            Ref { range: d.norm(), rate: d.dot(&dv) / d.norm(), az: 0.0, el: 0.0 }
        };
        let r0 = meas(&o2.radius_km, &o2.velocity_km_s);
        let mut msr = Measurement::new("TX".into(), e);
        let off = c.pick(&[0.0, 1.0, 100.0]);
        for t in &ty {
            if c.b(0.8) {
                msr.push(*t, r0.get(*t) + off * sig(*t) * c.gauss());
            }
        }
        let order: IndexSet<MT> = ty.iter().copied().collect();
        let h = ok!(c, "h_tilde", d.h_tilde::<Const<4>>(&msr, &order, &s2, &almanac()));
        check_rows(c, &h, &ty, &msr, &o2, |r, v, t| meas(r, v).get(t), r0.range, 0.0);
        let bad = c.pick(&[MT::X, MT::Azimuth, MT::Elevation, MT::ReceiveFrequency]);
        let mb = msr.clone().with(bad, 1.0);
        c.check("unsupported type", d.h_tilde::<Const<1>>(&mb, &[bad].into_iter().collect(), &s2, &almanac()).is_err(), || format!("{bad:?}"));
        c.obs("matrices", 1);
        c.nontrivial();
    });
    m.group("position device", 500, 20000, |c| {
        let o = any_orbit(c);
        let s = sc(c, o);
        let ty = subset(c, &XYZ, 1);
        let mut d = PositionDevice::new("GNSS".to_string());
        d.measurement_types = ty.iter().copied().collect();
        let mut msr = Measurement::new("GNSS".into(), o.epoch);
        let ax = |t: MT| XYZ.iter().position(|x| *x == t).unwrap();
        for t in &ty {
            if c.b(0.8) {
                msr.push(*t, o.radius_km[ax(*t)] + c.gauss());
            }
        }
        let h = ok!(c, "h_tilde", d.h_tilde::<Const<4>>(&msr, &ty.iter().copied().collect(), &s, &almanac()));
        for i in 0..4 {
            for j in 0..9 {
                let want = ty.get(i).is_some_and(|t| msr.data.contains_key(t) && ax(*t) == j);
                c.near("row", h[(i, j)], if want { 1.0 } else { 0.0 }, 0.0);
            }
        }
        let mb = msr.clone().with(MT::Range, 1.0);
        c.check("unsupported type", d.h_tilde::<Const<1>>(&mb, &[MT::Range].into_iter().collect(), &s, &almanac()).is_err(), || "accepted".into());
        c.obs("matrices", 1);
        c.nontrivial();
    });
    m.finish()
}

#[allow(clippy::too_many_arguments)]
fn check_rows(c: &mut Case, h: &nalgebra::SMatrix<f64, 4, 9>, ty: &[MT], msr: &Measurement, rx: &Orbit, f: impl Fn(&V3, &V3, MT) -> f64, range: f64, el: f64) {
    for i in 0..4 {
        let t = ty.get(i).copied().filter(|t| msr.data.contains_key(t));
        let Some(t) = t else {
            for j in 0..9 {
                c.near("absent type", h[(i, j)], 0.0, 0.0);
            }
            continue;
        };
        let hr = range * 1e-4 * el.to_radians().cos().max(1e-3);
        let hv = 1e-3;
        let mut want = [0.0; 9];
        for (j, w) in want.iter_mut().enumerate().take(6) {
            let st = if j < 3 { hr } else { hv };
            let ev = |k: f64| {
                let (mut r, mut v) = (rx.radius_km, rx.velocity_km_s);
                if j < 3 {
                    r[j] += k * st
                } else {
                    v[j - 3] += k * st
                }
                f(&r, &v, t)
            };
            let diff = |k: f64| {
                let d = ev(k) - ev(-k);
                if t == MT::Azimuth {
                    pm180(d)
                } else {
                    d
                }
            };
            *w = (8.0 * diff(1.0) - diff(2.0)) / (12.0 * st);
        }
        // Scale of a row: its largest position and velocity partials.
        let sp = want[..3].iter().fold(0.0f64, |a, b| a.max(b.abs()));
        let sv = want[3..6].iter().fold(0.0f64, |a, b| a.max(b.abs()));
        for j in 0..9 {
            let s = if j < 3 { sp } else { sv };
            c.near(&format!("{t:?}"), h[(i, j)], want[j], 2e-6 * s + if j < 3 { 1e-9 } else { 1e-9 });
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C31: operations on tracking arcs, against a model made of plain records.

#[derive(Clone, Debug, PartialEq)]
struct Rec {
    ns: i64,
    trk: String,
    data: std::collections::BTreeMap<String, f64>,
    rej: bool,
}
fn arc0() -> Epoch {
    Epoch::from_gregorian_utc_at_midnight(2023, 7, 1)
}
fn ns_of(e: Epoch) -> i64 {
    (e - arc0()).total_nanoseconds() as i64
}
fn at_ns(ns: i64) -> Epoch {
    arc0() + ns * Unit::Nanosecond
}
fn recs(a: &TrackingDataArc) -> Vec<Rec> {
    a.measurements.iter().map(|m| Rec { ns: ns_of(m.epoch), trk: m.tracker.clone(), data: m.data.iter().map(|(k, v)| (format!("{k:?}"), *v)).collect(), rej: m.rejected }).collect()
}
/// The value of an observation depends only on its epoch, tracker and type: duplicates agree.
fn val(ns: i64, trk: &str, t: MT) -> f64 {
    let h = fnv(&format!("{ns} {trk} {t:?}"));
    (h % 1_000_000_007) as f64 / 1000.0
}
const TRK: [&str; 4] = ["DSS-13", "Canberra", "Madrid", "dss-13"];
fn scale(c: &mut Case, e: Epoch) -> Epoch {
    if c.b(0.7) {
        e
    } else {
        e.to_time_scale(c.pick(&[TimeScale::TAI, TimeScale::TT, TimeScale::GPST, TimeScale::UTC]))
    }
}
/// Unsorted raw measurements, with many shared epochs.
fn raw_arc(c: &mut Case, n: usize) -> Vec<Measurement> {
    let step = c.pick(&[1i64, 10, 1000, 60_000_000_000, 1_000_000_000]);
    let span = c.i(1, 2 * n as i64 + 2);
    let nt = c.u(1, TRK.len());
    (0..n)
        .map(|_| {
            let ns = c.i(0, span) * step;
            let trk = TRK[c.u(0, nt - 1)];
            let ty = subset(c, &RADAR, 1);
            let e = scale(c, at_ns(ns));
            let mut m = Measurement::new(trk.to_string(), e);
            for t in ty {
                m.push(t, val(ns, trk, t));
            }
            m.rejected = c.b(0.1);
            m
        })
        .collect()
}
fn model_sort(v: &mut Vec<Rec>) {
    let mut map: std::collections::BTreeMap<(i64, String), Rec> = Default::default();
    for r in v.drain(..) {
        let e = map.entry((r.ns, r.trk.clone())).or_insert_with(|| Rec { data: Default::default(), rej: false, ..r.clone() });
        e.data.extend(r.data.clone());
        e.rej |= r.rej;
    }
    v.extend(map.into_values());
}
fn bound(c: &mut Case, ns: i64) -> Bound<i64> {
    match c.u(0, 2) {
        0 => Bound::Unbounded,
        1 => Bound::Included(ns),
        _ => Bound::Excluded(ns),
    }
}
fn map_bound<T>(b: Bound<i64>, f: impl Fn(i64) -> T) -> Bound<T> {
    match b {
        Bound::Unbounded => Bound::Unbounded,
        Bound::Included(x) => Bound::Included(f(x)),
        Bound::Excluded(x) => Bound::Excluded(f(x)),
    }
}
fn within(ns: i64, lo: Bound<i64>, hi: Bound<i64>) -> bool {
    use std::ops::RangeBounds;
    (lo, hi).contains(&ns)
}

fn c31() {
    let mut m = Mon::new("C31", "a case is nontrivial when operations were applied to a non-empty arc and its records compared");
    m.assume("duplicates of an observation (same tracker, epoch and type) hold the same value");
    m.group("history of operations", 3000, 100000, |c| {
        let n = if c.b(0.05) { 0 } else { c.u(1, 60) };
        let raw = raw_arc(c, n);
        let mut arc = TrackingDataArc { measurements: raw, ..Default::default() };
        let mut model = recs(&arc);
        arc.sort();
        model_sort(&mut model);
        let mut force = false;
        let mut moduli: Option<IndexMap<MT, f64>> = None;
        let steps = c.u(1, 7);
        let mut hist = vec!["sort".to_string()];
        for _ in 0..=steps {
            let got = recs(&arc);
            if !c.check(hist.last().unwrap().clone().split(' ').next().unwrap(), got == model, || format!("after {hist:?}: {} records instead of {}, first difference {:?}", got.len(), model.len(), got.iter().zip(&model).find(|(a, b)| a != b))) {
                return;
            }
            // Summaries of the arc.
            c.check("len", arc.len() == model.len() && arc.is_empty() == model.is_empty(), || format!("{} {}", arc.len(), model.len()));
            c.check("start", arc.start_epoch().map(ns_of) == model.first().map(|r| r.ns), || format!("{:?}", arc.start_epoch()));
            c.check("end", arc.end_epoch().map(ns_of) == model.last().map(|r| r.ns), || format!("{:?}", arc.end_epoch()));
            c.check("duration", arc.duration().map(|d| d.total_nanoseconds() as i64) == model.first().map(|r| model.last().unwrap().ns - r.ns), || format!("{:?}", arc.duration()));
            if model.len() > 1 {
                let want = model.windows(2).map(|w| w[1].ns - w[0].ns).min().unwrap();
                c.check("separation", arc.min_duration_sep().map(|d| d.total_nanoseconds() as i64) == Some(want), || format!("{:?} instead of {want} ns", arc.min_duration_sep()));
            }
            let (al, ty) = arc.unique();
            let mut al: Vec<String> = al.into_iter().collect();
            al.sort();
            let mut ty: Vec<String> = ty.into_iter().map(|t| format!("{t:?}")).collect();
            ty.sort();
            let wal: Vec<String> = model.iter().map(|r| r.trk.clone()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            let wty: Vec<String> = model.iter().flat_map(|r| r.data.keys().cloned()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            c.check("unique", al == wal && ty == wty, || format!("{al:?} {ty:?} instead of {wal:?} {wty:?}"));
            c.check("force reject", arc.force_reject == force, || format!("{}", arc.force_reject));
            c.check("moduli of the arc", arc.moduli == moduli, || format!("{:?} instead of {moduli:?}", arc.moduli));
            if hist.len() > steps {
                break;
            }
            // Next operation.
            let lo0 = model.first().map_or(0, |r| r.ns);
            let pick = |c: &mut Case, model: &Vec<Rec>| if model.is_empty() { 0 } else { let k = c.u(0, model.len() - 1); model[k].ns + c.pick(&[0i64, 0, 0, 1, -1]) };
            let (a, b) = (pick(c, &model), pick(c, &model));
            let (a, b) = if c.b(0.9) { (a.min(b), a.max(b)) } else { (a, b) };
            let (lo, hi) = (bound(c, a), bound(c, b));
            // An empty range as such is not asked for.
            let trk = c.pick(&TRK).to_string();
            let t = c.pick(&RADAR);
            let tn = format!("{t:?}");
            c.obs("operations", 1);
            let op = c.u(0, 11);
            let ep = (map_bound(lo, at_ns), map_bound(hi, at_ns));
            match op {
                0 => {
                    hist.push(format!("filter_by_epoch {lo:?} {hi:?}"));
                    arc = arc.filter_by_epoch(ep);
                    model.retain(|r| within(r.ns, lo, hi));
                }
                1 => {
                    hist.push(format!("filter_by_offset {lo:?} {hi:?}"));
                    let d = |x: i64| (x - lo0) * Unit::Nanosecond;
                    arc = arc.filter_by_offset((map_bound(lo, d), map_bound(hi, d)));
                    model.retain(|r| within(r.ns, lo, hi));
                }
                2 => {
                    hist.push(format!("filter_by_tracker {trk}"));
                    arc = arc.filter_by_tracker(trk.clone());
                    model.retain(|r| r.trk == trk);
                }
                3 => {
                    hist.push(format!("filter_by_measurement_type {tn}"));
                    arc = arc.filter_by_measurement_type(t);
                    model.iter_mut().for_each(|r| r.data.retain(|k, _| *k == tn));
                    model.retain(|r| !r.data.is_empty());
                }
                4 => {
                    hist.push(format!("exclude_tracker {trk}"));
                    arc = arc.exclude_tracker(trk.clone());
                    model.retain(|r| r.trk != trk);
                }
                5 => {
                    hist.push(format!("exclude_by_epoch {lo:?} {hi:?}"));
                    arc = arc.exclude_by_epoch(ep);
                    model.retain(|r| !within(r.ns, lo, hi));
                }
                6 => {
                    hist.push(format!("exclude_measurement_type {tn}"));
                    arc = arc.exclude_measurement_type(t);
                    model.iter_mut().for_each(|r| r.data.retain(|k, _| *k != tn));
                    model.retain(|r| !r.data.is_empty());
                }
                7 => {
                    hist.push(format!("reject_by_epoch {lo:?} {hi:?}"));
                    arc = arc.reject_by_epoch(ep);
                    model.iter_mut().for_each(|r| r.rej |= within(r.ns, lo, hi));
                }
                8 => {
                    hist.push(format!("reject_by_tracker {trk}"));
                    arc = arc.reject_by_tracker(&trk);
                    model.iter_mut().for_each(|r| r.rej |= r.trk == trk);
                }
                9 => {
                    hist.push("resid_vs_ref_check".into());
                    arc = arc.resid_vs_ref_check();
                    force = true;
                }
                10 => {
                    let mo = c.logu(1.0, 1e5);
                    hist.push(format!("set_moduli {tn} {mo}"));
                    arc.set_moduli(t, mo);
                    moduli.get_or_insert_with(IndexMap::new).insert(t, mo);
                }
                _ => {
                    hist.push("add".into());
                    let k = c.u(0, 30);
                    let mut other = TrackingDataArc { measurements: raw_arc(c, k), ..Default::default() };
                    other.force_reject = c.b(0.5);
                    model.extend(recs(&other));
                    model_sort(&mut model);
                    if c.b(0.5) {
                        arc = arc + other;
                    } else {
                        arc += other;
                    }
                    force = false;
                }
            }
            if !model.is_empty() {
                c.nontrivial();
            }
        }
    });
    m.group("chunks", 600, 20000, |c| {
        let n = c.u(1, 80);
        let mut arc = TrackingDataArc { measurements: raw_arc(c, n), source: Some("src".into()), ..Default::default() };
        arc.sort();
        if c.b(0.5) {
            arc.set_moduli(MT::Range, 123.0);
        }
        arc.force_reject = c.b(0.3);
        let span = arc.duration().unwrap().total_nanoseconds() as i64;
        let max = if c.b(0.5) { ns_of(arc.measurements[c.u(0, arc.len() - 1)].epoch) - ns_of(arc.measurements[0].epoch) } else { c.i(0, 2 * span + 2) };
        let ch = arc.chunk(max * Unit::Nanosecond);
        c.nontrivial();
        if max <= 0 {
            c.check("no chunk", ch.is_empty(), || format!("{}", ch.len()));
            return;
        }
        let all: Vec<Rec> = ch.iter().flat_map(recs).collect();
        c.check("partition", all == recs(&arc), || format!("{} records in chunks of {}", all.len(), arc.len()));
        for (i, k) in ch.iter().enumerate() {
            let d = k.duration().map(|d| d.total_nanoseconds() as i64);
            c.check("chunk duration", d.is_some_and(|d| d <= max), || format!("{d:?} > {max}"));
            if i > 0 {
                let gap = ns_of(k.start_epoch().unwrap()) - ns_of(ch[i - 1].start_epoch().unwrap());
                c.check("chunk starts late enough", gap > max, || format!("{gap} within {max}"));
            }
            c.check("chunk attributes", k.moduli == arc.moduli && k.force_reject == arc.force_reject && k.source == arc.source, || format!("{:?}", k.moduli));
        }
        c.obs("chunks", ch.len() as u64);
    });
    m.group("moduli", 400, 10000, |c| {
        let n = c.u(1, 30);
        let mut arc = TrackingDataArc { measurements: raw_arc(c, n), ..Default::default() };
        arc.sort();
        let before = recs(&arc);
        arc.apply_moduli();
        c.check("without moduli", recs(&arc) == before, || "changed".into());
        let ty = subset(c, &RADAR, 1);
        let mut set = IndexMap::new();
        for t in &ty {
            arc.set_moduli(*t, 77.0);
            let mo = c.logu(0.1, 2e6);
            arc.set_moduli(*t, mo);
            set.insert(format!("{t:?}"), mo);
            arc.set_moduli(*t, 0.0);
            arc.set_moduli(*t, f64::NAN);
        }
        arc.apply_moduli();
        let after = recs(&arc);
        for (a, b) in after.iter().zip(&before) {
            c.check("record", a.ns == b.ns && a.trk == b.trk && a.data.len() == b.data.len(), || format!("{a:?} {b:?}"));
            for (k, v) in &b.data {
                let g = a.data[k];
                match set.get(k) {
                    None => {
                        c.check("other types", g == *v, || format!("{g} {v}"));
                    }
                    Some(mo) => {
                        let k = (v - g) / mo;
                        c.near("whole number of moduli", k, k.round(), 1e-9 * (1.0 + k.abs()));
                        c.check("within the modulus", g >= -1e-9 * mo && g <= *mo, || format!("{g} of {mo}"));
                        c.obs("ambiguous values", 1);
                    }
                }
            }
        }
        c.nontrivial();
    });
    m.group("downsampling", 800, 20000, |c| {
        let nt = c.u(1, 3);
        let base = c.pick(&[1i64, 5, 10, 60]) * 1_000_000_000;
        let tgt_n = c.u(2, 12) as i64;
        let mut ms = vec![];
        let gappy = c.b(0.5);
        let rejects = c.b(0.3);
        let mut steps = IndexMap::new();
        for trk in &TRK[..nt] {
            // The sampling of each tracker divides the target.
            let div = c.pick(&[1i64, 1, tgt_n]);
            let step = base * if div == 1 { 1 } else { tgt_n };
            let n = c.u(2, 60);
            let mut t = if c.b(0.5) { 0 } else { c.i(0, 100) * base };
            let ty = subset(c, &RADAR, 1);
            let partial = c.b(0.3);
            for k in 0..n {
                let mut x = Measurement::new(trk.to_string(), at_ns(t));
                for q in &ty {
                    if !partial || c.b(0.7) || *q == ty[0] {
                        x.push(*q, val(t, trk, *q));
                    }
                }
                x.rejected = rejects && c.b(0.2);
                ms.push(x);
                t += if gappy && k > 0 && c.b(0.1) { c.i(2, 40) * step } else { step };
            }
            steps.insert(trk.to_string(), step);
        }
        let mut arc = TrackingDataArc { measurements: ms, source: Some("x".into()), ..Default::default() };
        arc.sort();
        if c.b(0.5) {
            arc.set_moduli(MT::Range, 5.0);
        }
        arc.force_reject = c.b(0.2);
        let target = base * tgt_n;
        c.p("target", target);
        c.p("steps", &steps);
        let out = arc.downsample(target * Unit::Nanosecond);
        c.check("attributes", out.moduli == arc.moduli && out.force_reject == arc.force_reject && out.source == arc.source, || "changed".into());
        let (src, got) = (recs(&arc), recs(&out));
        c.check("sorted", got.windows(2).all(|w| w[0].ns <= w[1].ns), || "not sorted".into());
        c.nontrivial();
        for trk in &TRK[..nt] {
            let s: Vec<&Rec> = src.iter().filter(|r| r.trk == *trk).collect();
            let g: Vec<&Rec> = got.iter().filter(|r| r.trk == *trk).collect();
            let step = steps[*trk];
            if step >= target {
                c.check("kept as is", s == g, || format!("{trk}: {} of {}", g.len(), s.len()));
                continue;
            }
            let n = (target / step) as usize;
            let want: Vec<&Rec> = s.iter().step_by(n).copied().collect();
            if !c.check("decimation", g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| a.ns == b.ns), || format!("{trk}: {} records instead of {}", g.len(), want.len())) {
                return;
            }
            for r in g {
                let w: Vec<&&Rec> = s.iter().filter(|x| (x.ns - r.ns).abs() <= (n as i64 / 2) * step).collect();
                let mut types: std::collections::BTreeMap<String, (f64, f64)> = Default::default();
                for x in &w {
                    for (k, v) in &x.data {
                        let e = types.entry(k.clone()).or_default();
                        e.0 += v;
                        e.1 += 1.0;
                    }
                }
                c.check("averaged types", types.keys().eq(r.data.keys()), || format!("{types:?} {r:?}"));
                for (k, (sum, cnt)) in &types {
                    if let Some(v) = r.data.get(k) {
                        c.near("average", *v, sum / cnt, 1e-9 * (1.0 + (sum / cnt).abs()));
                    }
                }
                // The average of a window with a flagged observation is tainted by it.
                c.check("rejection of the window", r.rej == w.iter().any(|x| x.rej), || format!("{} with {} flagged of {}", r.rej, w.iter().filter(|x| x.rej).count(), w.len()));
                c.obs("averages", 1);
            }
        }
    });
    m.group("measurements", 500, 10000, |c| {
        let raw = raw_arc(c, 2);
        let mut a = raw[0].clone();
        if c.b(0.3) {
            *a.data.values_mut().next().unwrap() = c.pick(&[0.0, -0.0, -1.0, 1e9]);
        }
        let mut b = a.clone();
        c.check("equal to itself", a == b, || format!("{a}"));
        let t = c.pick(&RADAR);
        let kind = c.u(0, 4);
        match kind {
            0 => b.tracker.push('x'),
            1 => b.epoch += 1 * Unit::Nanosecond,
            2 => {
                let k = *b.data.keys().next().unwrap();
                b.correct(k, c.pick(&[1e-6, -1e-6, 1.0]));
                c.check("corrected", (b.data[&k] - a.data[&k]).abs() > 1e-7, || "not corrected".into());
            }
            3 => {
                if a.data.contains_key(&t) {
                    b.data.shift_remove(&t);
                } else {
                    b.push(t, 1.0);
                }
            }
            _ => {
                let k = *b.data.keys().next().unwrap();
                let v = b.data.shift_remove(&k).unwrap();
                b.push(k, v);
                c.check("order of the types", a == b && b == a, || format!("{a} {b}"));
            }
        }
        if kind < 4 {
            c.check("different", a != b && b != a, || format!("{a} equals {b} ({kind})"));
        }
        let all: IndexSet<MT> = shuffle(c, &RADAR).into_iter().collect();
        let o = a.observation::<Const<4>>(&all);
        let av = a.availability(&all);
        for (i, t) in all.iter().enumerate() {
            c.check("observation", o[i] == a.data.get(t).copied().unwrap_or(0.0) && av[i] == a.data.contains_key(t), || format!("{t:?}: {} {}", o[i], av[i]));
        }
        let before = a.clone();
        let mut d = a.clone();
        let missing: Vec<MT> = RADAR.iter().filter(|t| !a.data.contains_key(*t)).copied().collect();
        if let Some(t) = missing.first() {
            d.correct(*t, 1.0);
            c.check("correction of a missing type", d == before, || format!("{d}"));
        }
        c.nontrivial();
    });
    m.finish()
}

// ---------------------------------------------------------------------------------------------
// C32: tracking arcs in files.

struct Dir(std::path::PathBuf);
impl Dir {
    fn new() -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("nyxtrk-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn val2(ns: i64, trk: &str, t: MT) -> f64 {
    let u = val(ns, trk, t) / 1_000_000.1;
    match t {
        MT::Range => 400.0 + 4e5 * u,
        MT::Doppler => -8.0 + 16.0 * u,
        MT::Azimuth => 360.0 * u,
        _ => 90.0 * u,
    }
}
/// A sorted arc of several trackers, whose epochs are whole multiples of `res` nanoseconds.
fn file_arc(c: &mut Case, res: i64) -> TrackingDataArc {
    let nt = c.u(1, TRK.len());
    let same = c.b(0.4).then(|| subset(c, &RADAR, 1));
    // Sometimes more measurements than the containers read at once.
    let long = c.b(0.02);
    let n = if long { c.u(1025, 2500) } else { c.u(1, 40) };
    if long {
        c.obs("long files", 1);
    }
    let mut ms = vec![];
    let mut t = c.i(0, 200_000_000) * 1_000_000_000 / res * res;
    for _ in 0..n {
        let trk = TRK[c.u(0, nt - 1)];
        let ty = same.clone().unwrap_or_else(|| subset(c, &RADAR, 1));
        let e = scale(c, at_ns(t));
        let mut m = Measurement::new(trk.to_string(), e);
        for q in ty {
            m.push(q, val2(t, trk, q));
        }
        ms.push(m);
        t += match c.u(0, 4) {
            0 => 0,
            1 => res * c.i(1, 999),
            _ => c.i(1, 600) * 1_000_000_000,
        };
    }
    let mut a = TrackingDataArc { measurements: ms, ..Default::default() };
    a.sort();
    a
}
/// Export window: the start is included, measurements exactly at the end are not generated.
fn window(c: &mut Case, a: &TrackingDataArc, res: i64) -> (ExportCfg, i64, i64) {
    let mut cfg = ExportCfg::default();
    let (mut lo, mut hi) = (i64::MIN, i64::MAX);
    let pick = |c: &mut Case| ns_of(a.measurements[c.u(0, a.len() - 1)].epoch);
    if c.b(0.3) {
        lo = pick(c);
        cfg.start_epoch = Some(scale(c, at_ns(lo)));
    }
    if c.b(0.3) {
        hi = pick(c) + res / 2;
        cfg.end_epoch = Some(at_ns(hi));
    }
    (cfg, lo, hi)
}
fn same_records(c: &mut Case, label: &str, got: &[Rec], want: &[Rec], abs: f64) {
    if !c.check(&format!("{label}: records"), got.len() == want.len(), || format!("{} instead of {}", got.len(), want.len())) {
        return;
    }
    for (g, w) in got.iter().zip(want) {
        if !c.check(&format!("{label}: identity"), g.ns == w.ns && g.trk == w.trk && g.data.keys().eq(w.data.keys()), || format!("{g:?} instead of {w:?}")) {
            return;
        }
        for (k, v) in &w.data {
            c.near(&format!("{label}: value"), g.data[k], *v, abs);
        }
        c.obs("records", 1);
    }
}
fn kvn(c: &mut Case, k: &str, v: &str) -> String {
    let pad = c.pick(&["", " ", "\t", "    "]);
    let (a, b) = (c.pick(&["", " ", "   "]), c.pick(&["", " ", "  "]));
    format!("{pad}{k}{a}={b}{v}{}\n", c.pick(&["", " "]))
}
fn iso(ns: i64, ts: TimeScale, digits: usize) -> (String, Epoch) {
    // `ns` is taken as a count in the time scale itself: no leap seconds in 2023 and 2024.
    let secs = ns.div_euclid(1_000_000_000);
    let sub = ns.rem_euclid(1_000_000_000);
    let day = secs.div_euclid(86400);
    let s = secs.rem_euclid(86400);
    // 2023-01-01 plus `day` days
    let mut y = 2023;
    let mut d = day;
    loop {
        let len = if y % 4 == 0 { 366 } else { 365 };
        if d < len {
            break;
        }
        d -= len;
        y += 1;
    }
    let ml = [31, if y % 4 == 0 { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut mo = 0;
    while d >= ml[mo] {
        d -= ml[mo];
        mo += 1;
    }
    let f = format!("{sub:09}");
    let txt = if digits == 0 {
        format!("{y:04}-{:02}-{:02}T{:02}:{:02}:{:02}", mo + 1, d + 1, s / 3600, s / 60 % 60, s % 60)
    } else {
        format!("{y:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{}", mo + 1, d + 1, s / 3600, s / 60 % 60, s % 60, &f[..digits])
    };
    let e = Epoch::from_gregorian(y, mo as u8 + 1, d as u8 + 1, (s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as u8, sub as u32, ts);
    (txt, e)
}

fn c32() {
    let mut m = Mon::new("C32", "a case is nontrivial when a file was written or read and its observations compared, or its refusal was expected");
    m.assume("Arrow and Parquet are trusted as containers; the frequency types and the cartesian ones are not stored");
    m.group("parquet", 700, 15000, |c| {
        let d = Dir::new();
        let a = file_arc(c, 1_000_000);
        let (cfg, lo, hi) = window(c, &a, 1_000_000);
        let path = d.0.join("a.parquet");
        let want: Vec<Rec> = recs(&a).into_iter().filter(|r| r.ns >= lo && r.ns < hi).collect();
        let out = ok!(c, "export", a.to_parquet(&path, cfg));
        c.check("path", out == path, || format!("{out:?}"));
        let b = ok!(c, "import", TrackingDataArc::from_parquet(&path));
        same_records(c, "parquet", &recs(&b), &want, 0.0);
        c.check("flags", b.measurements.iter().all(|m| !m.rejected) && !b.force_reject, || "rejected".into());
        c.nontrivial();
        if want.len() < a.len() {
            c.obs("windows", 1);
        }
    });
    m.group("TDM round trip", 700, 15000, |c| {
        let d = Dir::new();
        let mut a = file_arc(c, 1);
        if c.b(0.3) {
            a.set_moduli(MT::Range, c.logu(1.0, 1e6));
        }
        let (cfg, lo, hi) = window(c, &a, 1_000_000);
        let cfg = ExportCfg { metadata: c.b(0.3).then(|| [("originator".to_string(), "me".to_string()), ("TRANSMIT_BAND".to_string(), "X".to_string())].into_iter().collect()), ..cfg };
        let path = d.0.join("a.tdm");
        let want: Vec<Rec> = recs(&a).into_iter().filter(|r| r.ns >= lo && r.ns < hi).collect();
        if want.is_empty() {
            c.skip("empty window");
            return;
        }
        // Aliases on the way out, and back.
        let out_alias: std::collections::HashMap<String, String> = TRK.iter().filter(|_| c.b(0.5)).map(|t| (t.to_string(), format!("alias of {t}"))).collect();
        let back: std::collections::HashMap<String, String> = out_alias.iter().map(|(k, v)| (v.clone(), k.clone())).collect();
        let moduli = a.moduli.clone();
        let out = ok!(c, "export", a.to_tdm_file("my spacecraft".to_string(), Some(out_alias.clone()), &path, cfg));
        c.check("path", out == path, || format!("{out:?}"));
        let b = ok!(c, "import", TrackingDataArc::from_tdm(&path, Some(back)));
        same_records(c, "TDM", &recs(&b), &want, 3e-12 + 2e-16 * 4e5);
        let has_range = want.iter().any(|r| r.data.contains_key("Range"));
        if has_range {
            c.check("moduli", b.moduli.as_ref().and_then(|m| m.get(&MT::Range)).copied() == moduli.as_ref().and_then(|m| m.get(&MT::Range)).copied(), || format!("{:?} instead of {:?}", b.moduli, moduli));
        }
        // What other readers see in that file.
        let txt = std::fs::read_to_string(&path).unwrap();
        let (mut path_n, mut who, mut seen) = (0, String::new(), 0u64);
        let mut data = false;
        for l in txt.lines() {
            let l = l.trim();
            match l {
                "DATA_START" => data = true,
                "DATA_STOP" => data = false,
                _ => {}
            }
            let Some((k, v)) = l.split_once('=').map(|(k, v)| (k.trim(), v.trim())) else { continue };
            if !data {
                match k {
                    "PATH" => path_n = v.split(',').count(),
                    "PARTICIPANT_1" => who = v.to_string(),
                    "PARTICIPANT_2" => {
                        c.check("spacecraft", v == "my spacecraft", || v.into());
                    }
                    "TIME_SYSTEM" => {
                        c.check("time system", v == "UTC", || v.into());
                    }
                    "CCSDS_TDM_VERS" | "MODE" | "ORIGINATOR" => {}
                    _ => {}
                }
                continue;
            }
            let (e, x) = v.split_once(|ch: char| ch.is_whitespace()).unwrap();
            let (e, x) = (Epoch::from_gregorian_str(&format!("{} UTC", e.trim())).unwrap(), x.trim().parse::<f64>().unwrap());
            let (t, f) = match k {
                "RANGE" => ("Range", 2.0),
                "DOPPLER_INTEGRATED" | "DOPPLER_INSTANTANEOUS" => ("Doppler", 2.0),
                "ANGLE_1" => ("Azimuth", 1.0),
                "ANGLE_2" => ("Elevation", 1.0),
                _ => {
                    c.fail("keyword", k);
                    return;
                }
            };
            let f = if path_n == 3 { f } else { 1.0 };
            let at = want.partition_point(|r| r.ns < ns_of(e));
            let r = want[at..].iter().take_while(|r| r.ns == ns_of(e)).find(|r|  who == *out_alias.get(&r.trk).unwrap_or(&r.trk) && r.data.contains_key(t));
            let Some(r) = r else {
                c.fail("unknown observation", format!("{who}: {l}"));
                return;
            };
            c.near("stored value", x, r.data[t] * f, 2e-12 + 2e-16 * 8e5);
            seen += 1;
        }
        c.check("observations stored", seen == want.iter().map(|r| r.data.len() as u64).sum::<u64>(), || format!("{seen}"));
        c.nontrivial();
    });
    m.group("TDM from elsewhere", 1500, 40000, |c| {
        let d = Dir::new();
        let path = d.0.join("x.tdm");
        let (tsn, ts) = c.pick(&[("UTC", TimeScale::UTC), ("TAI", TimeScale::TAI), ("TT", TimeScale::TT), ("GPS", TimeScale::GPST), ("TDB", TimeScale::TDB)]);
        let mut txt = kvn(c, "CCSDS_TDM_VERS", "2.0");
        txt += "COMMENT a comment = of sorts\n";
        txt += &kvn(c, "CREATION_DATE", "2024-01-01T00:00:00");
        let mut al = std::collections::HashMap::new();
        let renamed = c.b(0.3).then(|| c.pick(&TRK));
        if let Some(x) = renamed {
            al.insert(x.to_string(), "renamed".to_string());
            al.insert("other".to_string(), "x".to_string());
        }
        let modulus = c.b(0.3).then(|| c.pick(&[75660.0, 1.0e3, 0.0]));
        let mut want: std::collections::BTreeMap<(i64, String), std::collections::BTreeMap<String, f64>> = Default::default();
        let mut eps: std::collections::BTreeMap<i64, Epoch> = Default::default();
        let digits = c.pick(&[0usize, 3, 6, 9]);
        let res = 10i64.pow(9 - digits as u32);
        let t0 = c.i(0, 50_000_000) * 1_000_000_000;
        let mut t = t0;
        let nseg = if c.b(0.5) { 1 } else { c.u(2, 3) };
        let mut last: Option<(&str, bool)> = None;
        let (mut f0, mut f_t, mut rate) = (None::<f64>, 0i64, 0.0);
        for seg in 0..nseg {
            let two = c.b(0.5);
            // 0: radiometric, 1: frequencies, 2: both
            let mut mode = c.u(0, 2);
            // As other tools do, the angles of a tracker may be in a segment of their own.
            let mut trk = c.pick(&TRK);
            let angles_of = match last {
                Some((x, true)) if c.b(0.4) => {
                    trk = x;
                    mode = 0;
                    true
                }
                _ => false,
            };
            let no_angles = mode == 0 && !angles_of && seg == 0 && nseg > 1;
            last = Some((trk, no_angles));
            let name = if renamed == Some(trk) { "renamed".to_string() } else { trk.to_string() };
            txt += "META_START\n";
            txt += &kvn(c, "TIME_SYSTEM", tsn);
            txt += &kvn(c, "PARTICIPANT_1", trk);
            txt += &kvn(c, "PARTICIPANT_2", "SC");
            txt += &kvn(c, "MODE", "SEQUENTIAL");
            txt += &kvn(c, "PATH", if two { "1,2,1" } else { "1,2" });
            if let Some(x) = modulus {
                txt += &kvn(c, "RANGE_MODULUS", &format!("{x:E}"));
            }
            if c.b(0.3) {
                txt += &kvn(c, "RANGE_UNITS", "km");
            }
            if c.b(0.3) {
                txt += &kvn(c, "ANGLE_TYPE", "AZEL");
            }
            let corr_flag = c.pick(&[None, None, Some("NO"), Some("YES"), Some("no")]);
            let mut corr: IndexMap<&str, f64> = IndexMap::new();
            if let Some(x) = corr_flag {
                txt += &kvn(c, "CORRECTIONS_APPLIED", x);
                for k in ["RANGE", "ANGLE_1", "ANGLE_2"] {
                    if c.b(0.5) {
                        let v = c.f(-1.0, 1.0);
                        txt += &kvn(c, &format!("CORRECTION_{k}"), &format!("{v:.15e}"));
                        corr.insert(k, v);
                    }
                }
            }
            let apply = matches!(corr_flag, Some("NO" | "no"));
            let ratio = c.b(0.85).then(|| c.pick(&[(880, 749), (240, 221), (880, 221), (1, 1)]));
            if let Some((a, b)) = ratio {
                txt += &kvn(c, "TURNAROUND_NUMERATOR", &a.to_string());
                txt += &kvn(c, "TURNAROUND_DENOMINATOR", &b.to_string());
            }
            // Some tools store the receive frequencies without their bulk.
            let offset = if c.b(0.3) { c.pick(&[1.0e6, 8.4e9, -2.5e3]) } else { 0.0 };
            if offset != 0.0 {
                txt += &kvn(c, "FREQ_OFFSET", &format!("{offset:.3}"));
            }
            txt += "META_STOP\n\nDATA_START\n";
            let idx = c.pick(&["", "_1", "_3", "_5"]);
            let mut lines: Vec<(i64, String)> = vec![];
            let eps_seg: Vec<i64> = if angles_of {
                let known: Vec<i64> = want.keys().filter(|k| k.1 == name).map(|k| k.0).collect();
                if known.is_empty() { vec![t0] } else { known }
            } else {
                let mut v = vec![];
                for _ in 0..c.u(1, 25) {
                    v.push(t);
                    t += res * c.i(1, if digits == 0 { 600 } else { 600_000 });
                }
                v
            };
            for (en, t) in eps_seg.into_iter().enumerate() {
                let (es, e) = iso(t, ts, digits);
                eps.insert(t, e);
                if mode != 1 {
                    for ty in subset(c, &RADAR, 1) {
                        let angle = ty != MT::Range && ty != MT::Doppler;
                        if mode == 2 && ty == MT::Doppler || angles_of && !angle || no_angles && angle {
                            continue;
                        }
                        let x = val2(t, trk, ty);
                        let kw = match ty {
                            MT::Range => "RANGE",
                            MT::Doppler => c.pick(&["DOPPLER_INSTANTANEOUS", "DOPPLER_INTEGRATED"]),
                            MT::Azimuth => "ANGLE_1",
                            _ => "ANGLE_2",
                        };
                        let div = if two && !angle { 2.0 } else { 1.0 };
                        let ad = if apply { corr.get(kw).copied().unwrap_or(0.0) } else { 0.0 };
                        want.entry((t, name.clone())).or_default().insert(format!("{ty:?}"), (x + ad) / div);
                        let sep = c.pick(&[" ", "\t", "   "]);
                        lines.push((t, kvn(c, kw, &format!("{es}{sep}{x:.17e}"))));
                    }
                }
                if mode != 0 {
                    let first = seg > 0 && en == 0;
                    let tick = |a: i64| (t - a) as f64 * 1e-9;
                    if c.b(0.3) || first {
                        let r = c.f(-2.0, 2.0);
                        if let Some(f) = f0 {
                            f0 = Some(f + rate * tick(f_t));
                        }
                        f_t = t;
                        rate = r;
                        lines.push((t, kvn(c, &format!("TRANSMIT_FREQ_RATE{idx}"), &format!("{es} {r:.17e}"))));
                    }
                    if first || c.b(0.4) || f0.is_none() && c.b(0.7) {
                        let f = 7.1e9 + c.f(-1e6, 1e6);
                        f0 = Some(f);
                        f_t = t;
                        lines.push((t, kvn(c, &format!("TRANSMIT_FREQ{idx}"), &format!("{es} {f:.17e}"))));
                    }
                    if c.b(0.7) {
                        let (a, b) = ratio.unwrap_or((1, 1));
                        let q = a as f64 / b as f64;
                        let fr = 7.1e9 * q + c.f(-1e6, 1e6);
                        lines.push((t, kvn(c, &format!("RECEIVE_FREQ{idx}"), &format!("{es} {:.17e}", fr - offset))));
                        if let (Some(f), Some(_)) = (f0, ratio) {
                            let ft = f + rate * tick(f_t);
                            want.entry((t, name.clone())).or_default().insert("Doppler".into(), (ft * q - fr) * 299792.458 / (2.0 * ft * q));
                            c.obs("frequencies", 1);
                        }
                    }
                }
            }
            if mode != 0 && ratio.is_none() {
                // Nothing of these frequencies is kept, nor used for the next segment.
                f0 = None;
                rate = 0.0;
            }
            // Lines out of order are sorted, as long as no state is carried from one to the next.
            if mode == 0 && !lines.is_empty() && c.b(0.3) {
                let k = c.u(0, lines.len() - 1);
                lines.rotate_left(k);
            }
            for (i, (_, l)) in lines.iter().enumerate() {
                txt += l;
                if i % 7 == 3 && c.b(0.3) {
                    txt += "COMMENT in the data\n\n";
                }
            }
            txt += "DATA_STOP\n";
            if nseg > 1 {
                c.obs("segments", 1);
            }
        }
        std::fs::write(&path, &txt).unwrap();
        let r = TrackingDataArc::from_tdm(&path, Some(al));
        c.nontrivial();
        if want.is_empty() {
            c.check("no observation", r.is_err(), || "loaded".into());
            return;
        }
        let a = ok!(c, "import", r);
        c.p("file", &txt);
        if !c.check("records", a.len() == want.len(), || format!("{} instead of {}", a.len(), want.len())) {
            return;
        }
        for (g, ((t, name), w)) in a.measurements.iter().zip(&want) {
            let e = eps[t];
            // The conversion of TDB has a resolution of its own.
            let de = (g.epoch - e).abs();
            c.check("epoch", de <= (if ts == TimeScale::TDB { 100 } else { 0 }) * Unit::Nanosecond, || format!("{} instead of {e}", g.epoch));
            c.check("tracker", g.tracker == *name && !g.rejected, || g.tracker.clone());
            let gd: std::collections::BTreeMap<String, f64> = g.data.iter().map(|(k, v)| (format!("{k:?}"), *v)).collect();
            c.check("types", gd.keys().eq(w.keys()), || format!("{gd:?} instead of {w:?}"));
            for (k, v) in w {
                if let Some(x) = gd.get(k) {
                    c.near(k, *x, *v, 1e-9 * (1.0 + v.abs() * 1e-3));
                }
            }
            c.obs("records", 1);
        }
        let want_mod = modulus.filter(|x| *x > 0.0);
        c.check("modulus", a.moduli.as_ref().and_then(|m| m.get(&MT::Range)).copied() == want_mod, || format!("{:?} instead of {want_mod:?}", a.moduli));
    });
    m.group("refusals", 300, 5000, |c| {
        let d = Dir::new();
        let path = d.0.join("x.bin");
        c.nontrivial();
        c.check("missing file", TrackingDataArc::from_tdm(&path, None).is_err() && TrackingDataArc::from_parquet(&path).is_err(), || "loaded a missing file".into());
        let kind = c.u(0, 10);
        c.p("kind", kind);
        let tdm = |ts: &str, path: &str, line: &str| format!("CCSDS_TDM_VERS = 2.0\nMETA_START\nTIME_SYSTEM = {ts}\nPATH = {path}\nPARTICIPANT_1 = A\nMETA_STOP\nDATA_START\nRANGE = 2023-02-03T04:05:06 123.4\n{line}\nDATA_STOP\n");
        let bad = match kind {
            0 => Some(tdm(c.pick(&["XYZ", "LOCAL", ""]), "1,2", "")),
            1 => Some(tdm("UTC", c.pick(&["1", "1,2,3,1", "1,2,1,2,1"]), "")),
            2 => Some(tdm("UTC", "1,2", c.pick(&["WEATHER = 2023-02-03T04:05:07 1.0", "RANGE_3 = 2023-02-03T04:05:07 1.0", "CARRIER_POWER = 2023-02-03T04:05:07 1"]))),
            3 => Some(tdm("UTC", "1,2", c.pick(&["RANGE = 2023-02-03T04:05:07 abc", "RANGE = 2023-02-03T04:05:07 1.2.3", "ANGLE_1 = 2023-02-03T04:05:07 0x12"]))),
            4 => Some(tdm("UTC", "1,2", c.pick(&["RANGE = 2023-13-03T04:05:07 1.0", "RANGE = yesterday 1.0", "RANGE = 2023-02-03T25:05:07 1.0"]))),
            10 => Some(tdm("UTC", c.pick(&["1,2\nRANGE_UNITS = s", "1,2,1\nRANGE_UNITS = RU", "1,2\nANGLE_TYPE = RADEC", "1,2,1\nANGLE_TYPE = XEYN"]), "ANGLE_1 = 2023-02-03T04:05:06 12.0")),
            5 => Some(c.pick(&["", "hello", "CCSDS_TDM_VERS = 2.0\nDATA_START\nDATA_STOP\n"]).to_string()),
            _ => None,
        };
        if let Some(t) = bad {
            std::fs::write(&path, &t).unwrap();
            c.check("damaged TDM", TrackingDataArc::from_tdm(&path, None).is_err(), || format!("loaded {t}"));
            c.obs("refused", 1);
            return;
        }
        let mut a = file_arc(c, 1_000_000);
        match kind {
            6 => {
                a.measurements.clear();
                c.check("empty parquet", a.to_parquet_simple(&path).is_err(), || "written".into());
                c.check("empty TDM", a.to_tdm_file("x".into(), None, &path, ExportCfg::default()).is_err(), || "written".into());
            }
            7 => {
                std::fs::write(&path, c.pick(&["", "hello", "PAR1PAR1"])).unwrap();
                c.check("not parquet", TrackingDataArc::from_parquet(&path).is_err(), || "loaded".into());
            }
            8 => {
                ok!(c, "export", a.to_parquet_simple(&path));
                let b = std::fs::read(&path).unwrap();
                let k = c.u(0, b.len() - 1);
                std::fs::write(&path, &b[..k]).unwrap();
                c.check("truncated parquet", TrackingDataArc::from_parquet(&path).is_err(), || format!("loaded {k} bytes of {}", b.len()));
            }
            _ => {
                let p = d.0.join("no/such/folder/x");
                c.check("unwritable", a.to_parquet_simple(&p).is_err() && a.clone().to_tdm_file("x".into(), None, &p, ExportCfg::default()).is_err(), || "written".into());
            }
        }
        c.obs("refused", 1);
    });
    m.finish()
}

// ---------------------------------------------------------------------------------------------
// C34: schedules and simulated arcs.

/// A station in sight of the orbit at some point of the trajectory.
fn sim_station(c: &mut Case, name: &str, tr: &Traj<Spacecraft>, ty: &[MT]) -> GroundStation {
    let k = c.u(0, tr.states.len() - 1);
    let o = tr.states[k].orbit;
    let b = almanac().transform_to(o, iau_earth(), None).unwrap().radius_km;
    let spread = c.f(0.0, 25.0);
    let lat = ((b.z / b.norm()).asin().to_degrees() + c.f(-1.0, 1.0) * spread).clamp(-88.0, 88.0);
    let lon = b.y.atan2(b.x).to_degrees() + c.f(-1.0, 1.0) * spread;
    let mut g = GroundStation::from_point(name.to_string(), lat, lon, c.f(0.0, 2.0), iau_earth());
    if c.b(0.5) {
        g.location.terrain_mask = TerrainMask::from_flat_terrain(c.f(0.0, 15.0));
        g.location.terrain_mask_ignored = false;
    }
    for t in ty {
        g = g.with_msr_type(*t, white(0.0, sig(*t)));
    }
    g
}
fn sim_traj(c: &mut Case, hours: f64) -> Traj<Spacecraft> {
    let e = epoch(c);
    let alt = if c.b(0.7) { c.f(500.0, 2000.0) } else { c.f(5000.0, 30000.0) };
    let o = Orbit::try_keplerian(6378.0 + alt, c.f(0.0, 0.01), c.f(5.0, 120.0), c.f(0.0, 360.0), c.f(0.0, 360.0), c.f(0.0, 360.0), e, eme2k()).unwrap();
    let s = sc(c, o);
    kep_traj(o, &s, 0.0, hours * 3600.0, "sc")
}
fn sees(g: &GroundStation, tr: &Traj<Spacecraft>, e: Epoch) -> Option<bool> {
    visible(&g.location, &tr.at(e).ok()?.orbit)
}

fn c34() {
    let mut m = Mon::new("C34", "a case is nontrivial when the epochs of a simulated arc were compared with the visibility on the sampling grid, or a schedule with the passes");
    m.assume("elevations closer than 1e-5 degrees to the mask are not judged; three or more trackers in sight at once are not judged");
    m.group("measurements of strands", 110, 4000, |c| {
        let tr = sim_traj(c, 4.0);
        let (a, b) = (tr.states.first().unwrap().orbit.epoch, tr.states.last().unwrap().orbit.epoch);
        let n = c.u(1, 3);
        let ty = subset(c, &RADAR, 1);
        let mut devs = BTreeMap::new();
        let mut cfgs = BTreeMap::new();
        for i in 0..n {
            let name = format!("GS{i}");
            let mut g = sim_station(c, &name, &tr, &ty);
            if c.b(0.3) {
                g.integration_time = Some(c.pick(&[1.0, 10.0, 60.0]) * Unit::Second);
            }
            let sampling = c.pick(&[10.0, 30.0, 60.0, 26.1]) * Unit::Second;
            // Disjoint strands inside of the trajectory, in any order.
            let ns = c.u(1, 3);
            let span = (b - a).to_seconds() - 300.0;
            let mut cuts: Vec<f64> = (0..2 * ns).map(|_| 150.0 + c.f(0.0, span).floor()).collect();
            cuts.sort_by(f64::total_cmp);
            let mut st: Vec<Strand> = cuts.chunks(2).map(|w| Strand { start: a + w[0] * Unit::Second, end: a + w[1] * Unit::Second }).filter(|s| s.end - s.start >= sampling).collect();
            if c.b(0.3) {
                st.reverse();
            }
            if !st.is_empty() && c.b(0.2) {
                // Out of the trajectory: nothing to measure there, which concerns no other strand.
                let late = b + c.f(100.0, 1000.0) * Unit::Second;
                st.insert(0, Strand { start: late, end: late + 600.0 * Unit::Second });
                c.obs("strands out of the trajectory", 1);
            }
            if st.is_empty() {
                st.push(Strand { start: a + 150.0 * Unit::Second, end: a + 1000.0 * Unit::Second });
            }
            devs.insert(name.clone(), g);
            if i > 0 && c.b(0.1) {
                continue; // no configuration: not used
            }
            cfgs.insert(name, TrkConfig::builder().strands(st).sampling(sampling).build());
        }
        cfgs.insert("unknown".to_string(), TrkConfig::builder().strands(vec![Strand { start: a, end: b }]).build());
        let seed = c.rng_u128() as u64 | 1;
        let mut sim = ok!(c, "simulator", TrackingArcSim::with_seed(devs.clone(), tr.clone(), cfgs.clone(), seed));
        let arc = ok!(c, "simulate", sim.generate_measurements(&almanac()));
        let mut sim2 = ok!(c, "simulator", TrackingArcSim::with_seed(devs.clone(), tr.clone(), cfgs.clone(), seed));
        let arc2 = ok!(c, "simulate", sim2.generate_measurements(&almanac()));
        c.check("same seed", recs2(&arc) == recs2(&arc2), || "different measurements".into());
        let again = ok!(c, "simulate again", sim.generate_measurements(&almanac()));
        let other = if c.b(0.5) { seed ^ 0xff00 } else { seed ^ (1 << 40) };
        let mut sim3 = ok!(c, "simulator", TrackingArcSim::with_seed(devs.clone(), tr.clone(), cfgs.clone(), other));
        let arc3 = ok!(c, "simulate", sim3.generate_measurements(&almanac()));
        let key = |a: &TrackingDataArc| a.measurements.iter().map(|m| (m.epoch, m.tracker.clone())).collect::<Vec<_>>();
        c.check("epochs do not depend on the noise", key(&arc) == key(&again) && key(&arc) == key(&arc3), || "different epochs".into());
        if !arc.is_empty() {
            c.check("other noise", recs2(&arc) != recs2(&again) && recs2(&arc) != recs2(&arc3), || "identical noise".into());
        }
        c.check("sorted", arc.measurements.windows(2).all(|w| w[0].epoch <= w[1].epoch), || "not sorted".into());
        c.check("flags", !arc.force_reject && arc.moduli.is_none() && arc.measurements.iter().all(|m| !m.rejected), || "flags".into());
        c.nontrivial();
        let mut total = 0usize;
        let mut unsure = 0usize;
        for (name, cfg) in &cfgs {
            let Some(g) = devs.get(name) else { continue };
            for st in cfg.strands.as_ref().unwrap() {
                let mut k = 0i64;
                if st.start > b {
                    continue;
                }
                loop {
                    let e = st.start + cfg.sampling * k;
                    if e > st.end {
                        break;
                    }
                    k += 1;
                    let v1 = sees(g, &tr, e);
                    let v0 = g.integration_time.map_or(Some(true), |dt| sees(g, &tr, e - dt));
                    let got = arc.measurements.iter().find(|m| m.epoch == e && m.tracker == *name);
                    match (v0, v1) {
                        (Some(x), Some(y)) => {
                            let want = x && y;
                            if !c.check("measured when visible", got.is_some() == want, || format!("{name} at {e}: measured {} visible {want}", got.is_some())) {
                                return;
                            }
                        }
                        _ => unsure += got.is_some() as usize,
                    }
                    let Some(msr) = got else { continue };
                    total += 1;
                    same_types(c, msr, &ty);
                    let r1 = reference(&g.location, &tr.at(e).unwrap().orbit);
                    let r0 = g.integration_time.map_or(r1, |dt| reference(&g.location, &tr.at(e - dt).unwrap().orbit));
                    for t in &ty {
                        let d = if *t == MT::Azimuth { let dd = pm180(r1.az - r0.az); pm180(msr.data[t] - r0.az - 0.5 * dd) } else { msr.data[t] - 0.5 * (r0.get(*t) + r1.get(*t)) };
                        c.check("value", d.abs() < 8.0 * sig(*t) + tol(*t, &r1), || format!("{t:?} off by {d}"));
                    }
                }
            }
        }
        let _ = unsure;
        c.check("nothing else", total == arc.len(), || format!("{} measurements, {total} on the sampling grids", arc.len()));
        c.obs("measurements", total as u64);
    });
    m.group("schedule of one tracker", 90, 3000, |c| {
        let tr = sim_traj(c, 8.0);
        let (a, b) = (tr.states.first().unwrap().orbit.epoch, tr.states.last().unwrap().orbit.epoch);
        let mut g = sim_station(c, "GS", &tr, &[MT::Range]);
        g.location.terrain_mask_ignored = g.location.terrain_mask.is_empty();
        let sampling = c.pick(&[10.0, 30.0, 60.0]);
        let min = c.u(0, 12) as u32;
        let align = c.pick(&[None, Some(1.0), Some(10.0)]);
        let cad = if c.b(0.4) { Cadence::Intermittent { on: c.f(30.0, 900.0).floor() * Unit::Second, off: c.logu(60.0, 20000.0).floor() * Unit::Second } } else { Cadence::Continuous };
        let sch = Scheduler { handoff: c.pick(&[Handoff::Eager, Handoff::Greedy, Handoff::Overlap]), cadence: cad, min_samples: min, sample_alignment: align.map(|x| x * Unit::Second) };
        c.p("scheduler", format!("{sch:?} {sampling}"));
        let cfg = TrkConfig { scheduler: Some(sch), sampling: sampling * Unit::Second, strands: None };
        let devs: BTreeMap<String, GroundStation> = [("GS".to_string(), g.clone())].into();
        let mut sim = ok!(c, "simulator", TrackingArcSim::with_seed(devs, tr.clone(), [("GS".to_string(), cfg)].into(), 7));
        c.check("unbuilt schedule", sim.generate_measurements(&almanac()).is_err(), || "measurements without a schedule".into());
        let built = ok!(c, "schedule", sim.generate_schedule(&almanac()));
        let st = built["GS"].strands.clone().unwrap_or_default();
        c.check("configuration", built["GS"].scheduler.is_none() && built["GS"].sampling == sampling * Unit::Second, || "changed".into());
        c.nontrivial();
        c.obs("strands", st.len() as u64);
        let al = align.unwrap_or(0.0);
        let eps = 1e-3;
        let secs = |e: Epoch| (e - a).to_seconds();
        let span = secs(b);
        // Visibility over time, scanned every second or so.
        let h = 5.0;
        let n = (span / h).floor() as usize;
        let vis: Vec<bool> = (0..=n).map(|k| sees(&g, &tr, a + k as f64 * h * Unit::Second).unwrap_or(true)).collect();
        let mut passes: Vec<(f64, f64)> = vec![];
        let mut k = 0;
        while k <= n {
            if vis[k] {
                let s = k;
                while k < n && vis[k + 1] {
                    k += 1;
                }
                passes.push((s as f64 * h, k as f64 * h));
            }
            k += 1;
        }
        c.obs("passes", passes.len() as u64);
        for (i, s) in st.iter().enumerate() {
            let (x, y) = (secs(s.start), secs(s.end));
            c.check("chronological", x <= y, || format!("{x} {y}"));
            let slack = al / 2.0 + h + eps;
            c.check("within a pass", passes.iter().any(|p| x >= p.0 - slack && y <= p.1 + slack), || format!("strand {x}..{y} while the passes are {passes:?}"));
            if let Some(q) = align {
                if cad == Cadence::Continuous {
                    for e in [s.start, s.end] {
                        c.check("alignment", e == e.round(q * Unit::Second), || format!("{e}"));
                    }
                }
            }
            if i > 0 {
                c.check("order", st[i - 1].end <= s.start, || format!("{} after {}", st[i - 1].end, s.start));
            }
            match cad {
                Cadence::Continuous => {
                    c.check("enough samples", y - x >= min as f64 * sampling - al - eps, || format!("{} s", y - x));
                }
                Cadence::Intermittent { on, off } => {
                    c.check("on", y - x <= on.to_seconds() + eps, || format!("{} s", y - x));
                    if i > 0 {
                        let gap = x - secs(st[i - 1].end);
                        c.check("off", gap >= off.to_seconds() - eps, || format!("{gap} s"));
                    }
                }
            }
        }
        if cad == Cadence::Continuous {
            for p in &passes {
                if p.1 - p.0 > (min as f64) * sampling + 2.0 * h && p.1 - p.0 > 120.0 {
                    let slack = al / 2.0 + h + eps;
                    c.check("every pass", st.iter().any(|s| secs(s.start) <= p.0 + slack && secs(s.end) >= p.1 - slack), || format!("pass {p:?} not in {:?}", st.iter().map(|s| (secs(s.start), secs(s.end))).collect::<Vec<_>>()));
                    c.obs("full passes", 1);
                }
            }
        }
        // The same schedule without alignment nor cadence, from which this one follows.
        let plain = TrkConfig { scheduler: Some(Scheduler { cadence: Cadence::Continuous, sample_alignment: None, ..sch }), sampling: sampling * Unit::Second, strands: None };
        let raw = ok!(c, "simulator", TrackingArcSim::with_seed([("GS".to_string(), g.clone())].into(), tr.clone(), [("GS".to_string(), plain)].into(), 7));
        let raw = ok!(c, "schedule", raw.generate_schedule(&almanac()))["GS"].strands.clone().unwrap_or_default();
        let mut want: Vec<Strand> = vec![];
        let mut clear = true;
        for r in &raw {
            let mut s = *r;
            if let Some(q) = align {
                let q = q * Unit::Second;
                s = Strand { start: s.start.round(q), end: s.end.round(q) };
            }
            if let Cadence::Intermittent { on, off } = cad {
                if let Some(p) = want.last() {
                    if p.end + off > s.start {
                        s.start = p.end + off;
                        clear &= (s.start - r.end).abs() > (al + 2.0 * eps) * Unit::Second;
                        if s.start > r.end {
                            continue;
                        }
                    }
                }
                if s.end - s.start > on {
                    s.end = s.start + on;
                }
            }
            want.push(s);
        }
        if clear {
            let same = st.len() == want.len() && st.iter().zip(&want).all(|(x, y)| (x.start - y.start).abs() < 2 * Unit::Millisecond && (x.end - y.end).abs() < 2 * Unit::Millisecond);
            c.check("schedule from the passes", same, || format!("{:?} instead of {:?}", st.iter().map(|s| (secs(s.start), secs(s.end))).collect::<Vec<_>>(), want.iter().map(|s| (secs(s.start), secs(s.end))).collect::<Vec<_>>()));
            c.obs("schedules derived", 1);
        }
        ok!(c, "build", sim.build_schedule(&almanac()));
        c.check("same schedule", sim.configs == built, || "another schedule".into());
        let arc = ok!(c, "simulate", sim.generate_measurements(&almanac()));
        let inside = arc.measurements.iter().all(|m| st.iter().any(|s| m.epoch >= s.start && m.epoch <= s.end));
        c.check("measurements within the strands", inside, || "outside".into());
        c.obs("measurements", arc.len() as u64);
    });
    m.group("handoff of two trackers", 80, 2000, |c| {
        let tr = sim_traj(c, 8.0);
        let ga = sim_station(c, "A", &tr, &[MT::Range]);
        let mut gb = sim_station(c, "B", &tr, &[MT::Range]);
        gb.location.latitude_deg = (ga.location.latitude_deg + c.f(-8.0, 8.0)).clamp(-88.0, 88.0);
        gb.location.longitude_deg = ga.location.longitude_deg + c.f(-12.0, 12.0);
        let ho = [c.pick(&[Handoff::Eager, Handoff::Greedy, Handoff::Overlap]), c.pick(&[Handoff::Eager, Handoff::Greedy, Handoff::Overlap])];
        let sp = [c.pick(&[10.0, 30.0]), c.pick(&[10.0, 26.0])];
        let cfg = |i: usize, h: Handoff| TrkConfig { scheduler: Some(Scheduler { handoff: h, cadence: Cadence::Continuous, min_samples: 3, sample_alignment: None }), sampling: sp[i] * Unit::Second, strands: None };
        let devs: BTreeMap<String, GroundStation> = [("A".to_string(), ga), ("B".to_string(), gb)].into();
        let make = |h: [Handoff; 2]| -> BTreeMap<String, TrkConfig> { [("A".to_string(), cfg(0, h[0])), ("B".to_string(), cfg(1, h[1]))].into() };
        // Passes as such, without handoff.
        let over = ok!(c, "simulator", TrackingArcSim::with_seed(devs.clone(), tr.clone(), make([Handoff::Overlap; 2]), 7));
        let over = ok!(c, "schedule", over.generate_schedule(&almanac()));
        let sim = ok!(c, "simulator", TrackingArcSim::with_seed(devs, tr.clone(), make(ho), 7));
        let got = ok!(c, "schedule", sim.generate_schedule(&almanac()));
        let mut all: Vec<(usize, Strand)> = vec![];
        for (i, k) in ["A", "B"].iter().enumerate() {
            for s in over[*k].strands.clone().unwrap_or_default() {
                all.push((i, s));
            }
        }
        all.sort_by_key(|x| x.1.start);
        let mut want = all.clone();
        for k in 1..all.len() {
            let (this, next) = (all[k - 1], all[k]);
            if this.1.end >= next.1.start {
                match ho[this.0] {
                    Handoff::Greedy => want[k].1.start = this.1.end + sp[next.0] * Unit::Second,
                    Handoff::Eager => want[k - 1].1.end = next.1.start - sp[this.0] * Unit::Second,
                    Handoff::Overlap => {}
                }
                c.obs("handoffs", 1);
            }
        }
        c.nontrivial();
        for (i, k) in ["A", "B"].iter().enumerate() {
            let w: Vec<Strand> = want.iter().filter(|x| x.0 == i && x.1.start <= x.1.end).map(|x| x.1).collect();
            let g = got[*k].strands.clone().unwrap_or_default();
            let same = g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| (a.start - b.start).abs() < 2 * Unit::Millisecond && (a.end - b.end).abs() < 2 * Unit::Millisecond);
            c.check("handoff", same, || format!("{k} ({ho:?}): {g:?} instead of {w:?}"));
        }
    });
    m.group("configurations", 60, 500, |c| {
        let tr = sim_traj(c, 0.5);
        let a = tr.states.first().unwrap().orbit.epoch;
        let g = sim_station(c, "GS", &tr, &[MT::Range]);
        let devs: BTreeMap<String, GroundStation> = [("GS".to_string(), g.clone())].into();
        let kind = c.u(0, 5);
        c.p("kind", kind);
        c.nontrivial();
        let st = |x: f64, y: f64| Strand { start: a + x * Unit::Second, end: a + y * Unit::Second };
        let sched = Scheduler::builder().build();
        let cfg = match kind {
            0 => TrkConfig { scheduler: None, sampling: 60 * Unit::Second, strands: None },
            1 => TrkConfig { scheduler: None, sampling: 60 * Unit::Second, strands: Some(vec![]) },
            2 => TrkConfig { scheduler: None, sampling: 60 * Unit::Second, strands: Some(vec![st(100.0, 130.0)]) },
            3 => TrkConfig { scheduler: None, sampling: 60 * Unit::Second, strands: Some(vec![st(10.0, 500.0), st(900.0, 600.0)]) },
            4 => TrkConfig { scheduler: Some(sched), sampling: 60 * Unit::Second, strands: Some(vec![st(10.0, 500.0)]) },
            _ => {
                // A station on the other side never sees anything: no strand, no measurement.
                let mut far = g.clone();
                far.location.latitude_deg = 0.0;
                far.location.terrain_mask = TerrainMask::from_flat_terrain(89.99);
                far.location.terrain_mask_ignored = false;
                let cfgs: BTreeMap<String, TrkConfig> = [("GS".to_string(), TrkConfig { scheduler: Some(sched), sampling: 60 * Unit::Second, strands: None })].into();
                let mut sim = ok!(c, "simulator", TrackingArcSim::with_seed([("GS".to_string(), far)].into(), tr.clone(), cfgs, 1));
                ok!(c, "no pass at all", sim.build_schedule(&almanac()));
                let arc = ok!(c, "simulate", sim.generate_measurements(&almanac()));
                c.check("nothing measured", arc.is_empty(), || format!("{}", arc.len()));
                return;
            }
        };
        let cfgs: BTreeMap<String, TrkConfig> = [("GS".to_string(), cfg)].into();
        c.check("refused", TrackingArcSim::with_seed(devs.clone(), tr.clone(), cfgs, 1).is_err(), || format!("configuration {kind} accepted"));
        c.check("no configuration", TrackingArcSim::with_seed(devs, tr.clone(), BTreeMap::new(), 1).is_err(), || "accepted".into());
    });
    m.finish()
}
fn recs2(a: &TrackingDataArc) -> Vec<(Epoch, String, Vec<(MT, u64)>)> {
    a.measurements.iter().map(|m| (m.epoch, m.tracker.clone(), m.data.iter().map(|(k, v)| (*k, v.to_bits())).collect())).collect()
}

// ---------------------------------------------------------------------------------------------
// C35: noise models.

/// Mean and standard deviation of samples agree with a normal law.
fn normal_law(c: &mut Case, label: &str, x: &[f64], mean: f64, sd: f64) {
    let n = x.len() as f64;
    let m = x.iter().sum::<f64>() / n;
    let v = x.iter().map(|y| (y - mean).powi(2)).sum::<f64>() / n;
    if sd == 0.0 {
        c.check(&format!("{label}: constant"), x.iter().all(|y| (y - mean).abs() <= 1e-12 * (1.0 + mean.abs())), || format!("{m} instead of {mean}"));
        return;
    }
    c.near(&format!("{label}: mean"), m, mean, 6.5 * sd / n.sqrt());
    c.near(&format!("{label}: variance"), v / (sd * sd), 1.0, 6.5 * (2.0 / n).sqrt());
    // Fourth moment and shares within one and two sigmas: the law is normal.
    let one = x.iter().filter(|y| (*y - mean).abs() < sd).count() as f64 / n;
    let two = x.iter().filter(|y| (*y - mean).abs() < 2.0 * sd).count() as f64 / n;
    c.near(&format!("{label}: within one sigma"), one, 0.682689, 6.5 * (0.6827 * 0.3173 / n).sqrt());
    c.near(&format!("{label}: within two sigmas"), two, 0.9545, 6.5 * (0.9545 * 0.0455 / n).sqrt());
    // No correlation from one sample to the next.
    let ac = x.windows(2).map(|w| (w[0] - mean) * (w[1] - mean)).sum::<f64>() / ((n - 1.0) * sd * sd);
    c.near(&format!("{label}: correlation"), ac, 0.0, 6.5 / n.sqrt());
    c.obs("samples", x.len() as u64);
}

fn c35() {
    let mut m = Mon::new("C35", "a case is nontrivial when samples of a noise model were compared with its law, or its parameters with their definition");
    m.assume("each statistical comparison uses a limit of 6.5 standard errors");
    m.group("white noise", 200, 4000, |c| {
        let sd = if c.b(0.1) { 0.0 } else { c.logu(1e-9, 1e3) };
        let mean = if c.b(0.3) { 0.0 } else { c.f(-5.0, 5.0) * sd.max(1e-6) };
        let e0 = epoch(c);
        let mut w = WhiteNoise { mean, sigma: sd };
        let seed = c.rng_u128() | 1;
        let mut rng = Pcg64Mcg::new(seed);
        let x: Vec<f64> = (0..3000).map(|k| w.sample(e0 + k as f64 * Unit::Second, &mut rng)).collect();
        normal_law(c, "white", &x, mean, sd);
        let mut rng = Pcg64Mcg::new(seed);
        let y: Vec<f64> = (0..50).map(|k| w.sample(e0 + k as f64 * Unit::Second, &mut rng)).collect();
        c.check("same seed", x[..50] == y[..], || "different samples".into());
        let q = Stochastics::covariance(&w, e0);
        c.near("covariance", q, sd * sd, 1e-12 * sd * sd);
        let k = c.logu(1e-3, 1e3);
        let w2 = w * k;
        c.near("scaled sigma", w2.sigma, sd * k, 1e-12 * sd * k);
        let mut w3 = w;
        w3 *= k;
        c.check("scaled in place", w3 == w2, || format!("{w3:?}"));
        c.nontrivial();
    });
    m.group("stochastic noise", 200, 4000, |c| {
        let e0 = epoch(c);
        let sd = c.logu(1e-6, 10.0);
        let mean = c.f(-2.0, 2.0) * sd;
        let cst = c.f(-3.0, 3.0) * sd;
        let (hw, hb) = (c.b(0.8), c.b(0.6));
        let bias = if hb { constant_bias(cst) } else { None };
        let mut n = StochasticNoise { white_noise: hw.then_some(WhiteNoise { mean, sigma: sd }), bias };
        let want = (if hw { mean } else { 0.0 }) + (if hb { cst } else { 0.0 });
        let mut rng = Pcg64Mcg::new(c.rng_u128() | 1);
        let x: Vec<f64> = (0..2000).map(|k| n.sample(e0 + k as f64 * Unit::Minute, &mut rng)).collect();
        normal_law(c, "sum", &x, want, if hw { sd } else { 0.0 });
        let q = n.covariance(e0);
        c.near("covariance", q, if hw { sd * sd } else { 0.0 }, 1e-12 * sd * sd);
        // The covariances of the white noise and of the bias add up.
        let g = c.logu(1e-6, 10.0);
        let tau = c.logu(1.0, 1e5) * Unit::Second;
        let b = ok!(c, "bias", GaussMarkov::new(tau, g));
        let both = StochasticNoise { white_noise: Some(WhiteNoise { mean, sigma: sd }), bias: Some(b) };
        c.near("covariance of both", both.covariance(e0), sd * sd + g * g, 1e-12 * (sd * sd + g * g));
        let k = c.logu(0.01, 100.0);
        let q = (both * k).covariance(e0);
        c.near("scaled covariance", q, k * k * (sd * sd + g * g), 1e-9 * k * k * (sd * sd + g * g));
        let mut z = StochasticNoise::ZERO;
        c.check("no noise", z.sample(e0, &mut rng) == 0.0 && z.covariance(e0) == 0.0, || "noise".into());
        c.nontrivial();
    });
    m.group("Gauss-Markov bias", 200, 4000, |c| {
        // The first sample of each realization.
        let e0 = epoch(c);
        let q = c.logu(1e-9, 10.0);
        let tau = c.logu(1.0, 1e6) * Unit::Second;
        let b = ok!(c, "new", GaussMarkov::new(tau, q));
        let cst = c.b(0.5).then(|| c.f(-3.0, 3.0) * q);
        let b = GaussMarkov { constant: cst, ..b };
        let mut rng = Pcg64Mcg::new(c.rng_u128() | 1);
        let x: Vec<f64> = (0..2000)
            .map(|_| {
                let mut g = b;
                g.sample(e0, &mut rng)
            })
            .collect();
        normal_law(c, "first", &x, cst.unwrap_or(0.0), q);
        c.near("covariance", Stochastics::covariance(&b, e0), q * q, 1e-12 * q * q);
        // Nothing changes over no time at all; a realization repeats with its seed.
        let seed = c.rng_u128() | 1;
        let run = |b: GaussMarkov| {
            let mut rng = Pcg64Mcg::new(seed);
            let mut g = b;
            (0..20).map(|k| g.sample(e0 + k as f64 * Unit::Minute, &mut rng)).collect::<Vec<_>>()
        };
        c.check("same seed", run(b) == run(b), || "different".into());
        // Later samples are centered on the constant, whatever their spread, and a scaled process starts over.
        let dt = tau * c.logu(0.01, 20.0);
        let k = c.logu(0.01, 100.0);
        let mut scaled = vec![];
        let later: Vec<f64> = (0..2000)
            .map(|_| {
                let mut g = b;
                g.sample(e0, &mut rng);
                let x = g.sample(e0 + dt, &mut rng) - cst.unwrap_or(0.0);
                let mut h = GaussMarkov { constant: None, ..g } * k;
                scaled.push(h.sample(e0 + dt, &mut rng));
                x
            })
            .collect();
        normal_law(c, "scaled process", &scaled, 0.0, q * k);
        let spread = (later.iter().map(|x| x * x).sum::<f64>() / later.len() as f64).sqrt();
        let mean = later.iter().sum::<f64>() / later.len() as f64;
        c.near("centered on the constant", mean, 0.0, 6.5 * spread / (later.len() as f64).sqrt());
        let mut g = b;
        let a0 = g.sample(e0, &mut rng);
        let a1 = g.sample(e0, &mut rng);
        c.near("no time elapsed", a1, a0, 1e-12 * (a0.abs() + q));
        let mut z = GaussMarkov::ZERO;
        let zs: Vec<f64> = (0..10).map(|k| z.sample(e0 + k as f64 * Unit::Hour, &mut rng)).collect();
        c.check("zero", zs.iter().all(|x| *x == 0.0), || format!("{zs:?}"));
        for tau in [0.0, -1.0, -1e5] {
            c.check("time constant refused", GaussMarkov::new(tau * Unit::Second, q).is_err(), || format!("{tau}"));
        }
        c.nontrivial();
    });
    m.group("link budgets", 400, 10000, |c| {
        let cl = 299792.458;
        let ad = c.logu(1e-16, 1e-9);
        let ti = c.logu(0.1, 1e4);
        let db = c.f(20.0, 80.0);
        let (sn, snh) = c.pick(&[(SN0::Strong(), 65.0), (SN0::Average(), 50.0), (SN0::Poor(), 40.0), (SN0::ManualDbHz(db), db), (SN0::ManualDbHz(db), db)]);
        let (cn, cnh) = c.pick(&[(CN0::Strong(), 70.0), (CN0::Average(), 55.0), (CN0::Poor(), 45.0), (CN0::ManualDbHz(db), db), (CN0::ManualDbHz(db), db)]);
        let hz = c.logu(1e3, 1e8);
        let (ch, chh) = c.pick(&[(ChipRate::Lowest(), 1e3), (ChipRate::Low(), 1e5), (ChipRate::StandardT4B(), 1e6), (ChipRate::High(), 1e7), (ChipRate::VeryHigh(), 2.5e7), (ChipRate::ManualHz(hz), hz)]);
        let fz = c.logu(1e8, 1e11);
        let (fr, frh) = c.pick(&[(CarrierFreq::SBand(), 2.2e9), (CarrierFreq::XBand(), 8.4e9), (CarrierFreq::KaBand(), 32e9), (CarrierFreq::ManualHz(fz), fz)]);
        let lin = |d: f64| 10f64.powf(d / 10.0);
        let t = ti * Unit::Second;
        let ti = t.to_seconds();
        let r = StochasticNoise::from_hardware_range_km(ad, t, ch, sn);
        let th = cl / (std::f64::consts::TAU * chh * (2.0 * lin(snh)).sqrt());
        let ck = cl * ad * ti / 3f64.sqrt();
        let want = th.hypot(ck);
        let w = r.white_noise.unwrap();
        c.near("range", w.sigma, want, 1e-10 * want);
        c.check("range mean", w.mean == 0.0 && r.bias.is_none(), || format!("{r}"));
        let d = StochasticNoise::from_hardware_doppler_km_s(ad, t, fr, cn);
        let th = cl / (std::f64::consts::TAU * frh * (2.0 * lin(cnh) * ti).sqrt());
        let want = th.hypot(cl * ad);
        let w = d.white_noise.unwrap();
        c.near("Doppler", w.sigma, want, 1e-10 * want);
        c.check("Doppler mean", w.mean == 0.0 && d.bias.is_none(), || format!("{d}"));
        let (pr, bw) = (c.logu(1.0, 1e9), c.logu(1e3, 1e9));
        let w = WhiteNoise::from_pr_n0(pr, bw);
        c.near("Pr/N0", w.sigma, cl / (2.0 * bw * pr.sqrt()), 1e-12 * w.sigma);
        let p = c.logu(1e-9, 1e3);
        let w = ok!(c, "white noise", WhiteNoise::new(p, t));
        c.near("noise over time", w.sigma, p / ti, 1e-12 * w.sigma);
        c.check("constant noise", WhiteNoise::constant_white_noise(p) == WhiteNoise { mean: 0.0, sigma: p }, || "constant".into());
        c.check("negative noise refused", WhiteNoise::new(-p, t).is_err(), || "accepted".into());
        c.check("bad time refused", WhiteNoise::new(p, -t).is_err() && WhiteNoise::new(p, 0 * Unit::Second).is_err(), || "accepted".into());
        c.nontrivial();
    });
    m.group("simulated noise files", 10, 100, |c| {
        let d = Dir::new();
        let sd = c.logu(1e-6, 10.0);
        let mut n = white(0.0, sd);
        let cst = if c.b(0.5) { c.f(-3.0, 3.0) * sd } else { 0.0 };
        if cst != 0.0 {
            n.bias = constant_bias(cst);
        }
        let path = d.0.join("n.parquet");
        let runs = c.u(1, 4) as u32;
        let s = match n.simulate(&path, Some(runs), Some("km".into())) {
            Ok(s) => s,
            Err(e) => {
                c.fail("simulate", e.to_string());
                return;
            }
        };
        let x: Vec<f64> = s.iter().map(|s| s.sample).collect();
        normal_law(c, "file", &x, cst, sd);
        for run in 0..runs {
            let x: Vec<f64> = s.iter().filter(|s| s.run == run).map(|s| s.sample).collect();
            normal_law(c, "run of the file", &x, cst, sd);
        }
        c.check("runs", s.iter().map(|s| s.run).collect::<std::collections::BTreeSet<_>>().len() == runs as usize, || "runs".into());
        c.check("variance", s.iter().all(|s| (s.variance - sd * sd).abs() <= 1e-12 * sd * sd), || "variance".into());
        c.check("file", path.exists() && std::fs::metadata(&path).unwrap().len() > 100, || "no file".into());
        c.nontrivial();
    });
    m.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C24") => c24(),
        Some("C25") => c25(),
        Some("C31") => c31(),
        Some("C32") => c32(),
        Some("C34") => c34(),
        Some("C35") => c35(),
        x => panic!("unknown property {x:?}"),
    }
}
