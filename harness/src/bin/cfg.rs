//! C37 stored configurations, C39 uncertainties.
use anise::astro::{Aberration, Location, TerrainMask};
use anise::analysis::prelude::OrbitalElement;
use anise::prelude::*;
use der::{Decode, Encode};
use hifitime::{Duration, Epoch, TimeScale, Unit};
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Matrix3, SMatrix, SVector, Vector3};
use nyx_space::cosmic::eclipse::ShadowModel;
use nyx_space::cosmic::{DragData, GuidanceMode, Mass, SRPData, Spacecraft};
use nyx_space::dynamics::guidance::{
    LocalFrame, Maneuver, MnvrRepr, ObjectiveEfficiency, ObjectiveWeight, Thruster,
};
use nyx_space::dynamics::guidance::mnvr::ImpulsiveManeuver;
use nyx_space::dynamics::sequence::*;
use nyx_space::dynamics::solid_tides::{SolidTides, TidalPerturber};
use nyx_space::dynamics::{AtmDensity, Drag, PointMasses, SolarPressure};
use nyx_space::io::ConfigRepr;
use nyx_space::io::gravity::GravityFieldConfig;
use nyx_space::md::prelude::Objective;
use nyx_space::md::StateParameter;
use nyx_space::od::GroundStation;
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, WhiteNoise};
use nyx_space::od::position::PositionDevice;
use nyx_space::od::process::SigmaRejection;
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrkConfig};
use nyx_space::polyfit::CommonPolynomial;
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions};
use nyxmon::alm::*;
use nyxmon::gens;
use nyxmon::math::*;
use nyx_space::State;
use nyx_space::mc::{MvnSpacecraft, StateDispersion};
use nyx_space::od::estimate::{Estimate, KfEstimate, NavSolution, SpacecraftUncertainty};
use rand_distr::Distribution;
use rand_pcg::Pcg64Mcg;
use nyxmon::mon::*;
use serde::Serialize;
use serde::de::DeserializeOwned;
use std::collections::BTreeMap;
use std::fmt::Debug;

use MeasurementType as MT;
const TYPES: [MT; 10] = [
    MT::Range,
    MT::Doppler,
    MT::Azimuth,
    MT::Elevation,
    MT::ReceiveFrequency,
    MT::TransmitFrequency,
    MT::TransmitFrequencyRate,
    MT::X,
    MT::Y,
    MT::Z,
];

thread_local! {
    static DHALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/* ---- generators ---- */
fn real(c: &mut Case) -> f64 {
    match c.u(0, 9) {
        0 => 0.0,
        1 => c.i(-1000, 1000) as f64,
        2 => c.pick(&[1.0, -1.0, 0.5, 0.1, 1e-9, 1e12, 123456789.0, 255.0, 256.0, -128.0, 65535.5]),
        3 => c.logu(1e-30, 1e30),
        4 => -c.logu(1e-12, 1e12),
        _ => c.f(-500.0, 500.0),
    }
}
fn pos(c: &mut Case) -> f64 {
    real(c).abs() + 1e-9
}
fn dur(c: &mut Case) -> Duration {
    match c.u(0, 5) {
        0 => c.i(1, 100) * Unit::Nanosecond,
        1 => c.i(1, 90) * Unit::Second,
        2 => c.i(1, 90) * Unit::Minute,
        3 => Duration::from_total_nanoseconds(c.i(1, 10_i64.pow(17)) as i128),
        4 => c.i(1, 40) * Unit::Day + c.i(0, 86_399) * Unit::Second,
        _ => c.i(1, 10_i64.pow(13)) * Unit::Nanosecond,
    }
}
fn epoch(c: &mut Case) -> Epoch {
    let e = gens::epoch(c) + c.i(0, 999_999_999) * Unit::Nanosecond;
    e.to_time_scale(c.pick(&[TimeScale::TAI, TimeScale::UTC, TimeScale::TT, TimeScale::GPST, TimeScale::TDB, TimeScale::ET]))
}
fn name(c: &mut Case) -> String {
    c.pick(&[
        "DSS-65 Madrid", "a", "", "no", "null", "123", "1.5", "été Ω", "with: colon", "# hash", "\"quoted\"", "it's", "multi\nline", "- dash", "{}", "${x}", "back\\slash", "true",
        " leading and trailing ", "~", "tab\tbed",
    ])
    .to_string()
}
fn opt<T>(c: &mut Case, f: impl FnOnce(&mut Case) -> T) -> Option<T> {
    if c.b(0.6) { Some(f(c)) } else { None }
}
fn list<T>(c: &mut Case, max: usize, mut f: impl FnMut(&mut Case) -> T) -> Vec<T> {
    let n = c.u(0, max);
    (0..n).map(|_| f(c)).collect()
}
fn frame(c: &mut Case) -> Frame {
    let mut f = c.pick(&[eme2k(), moonj2k(), iau_earth(), iau_moon(), sunj2k()]);
    if c.b(0.3) {
        f.strip();
    }
    f
}
fn white(c: &mut Case) -> WhiteNoise {
    WhiteNoise { mean: real(c), sigma: pos(c) }
}
fn gm(c: &mut Case) -> GaussMarkov {
    GaussMarkov { tau: dur(c), process_noise: pos(c), constant: opt(c, real), prev_epoch: None, init_sample: None }
}
fn noise(c: &mut Case) -> StochasticNoise {
    StochasticNoise { white_noise: opt(c, white), bias: opt(c, gm) }
}
fn types(c: &mut Case) -> IndexSet<MT> {
    list(c, 6, |c| c.pick(&TYPES)).into_iter().collect()
}
fn noises(c: &mut Case) -> IndexMap<MT, StochasticNoise> {
    list(c, 6, |c| (c.pick(&TYPES), noise(c))).into_iter().collect()
}
fn location(c: &mut Case) -> Location {
    Location {
        latitude_deg: c.f(-90.0, 90.0),
        longitude_deg: c.f(-180.0, 360.0),
        height_km: c.f(-0.4, 8.0),
        frame: iau_earth().into(),
        terrain_mask: list(c, 4, |c| TerrainMask { azimuth_deg: c.f(0.0, 360.0), elevation_mask_deg: c.f(-5.0, 30.0) }),
        terrain_mask_ignored: c.b(0.5),
    }
}
fn station(c: &mut Case) -> GroundStation {
    GroundStation {
        name: name(c),
        location: location(c),
        measurement_types: types(c),
        integration_time: opt(c, dur),
        light_time_correction: c.b(0.5),
        timestamp_noise_s: opt(c, noise),
        stochastic_noises: opt(c, noises),
    }
}
fn cadence(c: &mut Case) -> Cadence {
    if c.b(0.4) { Cadence::Continuous } else { Cadence::Intermittent { on: dur(c), off: dur(c) } }
}
fn scheduler(c: &mut Case) -> Scheduler {
    Scheduler {
        handoff: c.pick(&[Handoff::Eager, Handoff::Greedy, Handoff::Overlap]),
        cadence: cadence(c),
        min_samples: c.pick(&[0u32, 1, 10, 127, 128, 255, 256, 65_536, 4_000_000_000]),
        sample_alignment: opt(c, dur),
    }
}
fn strand(c: &mut Case) -> Strand {
    let start = epoch(c);
    let end = start + dur(c);
    // Both ends need not be in the same time scale
    Strand { start, end: if c.b(0.5) { end } else { end.to_time_scale(epoch(c).time_scale) } }
}
fn trkcfg(c: &mut Case) -> TrkConfig {
    TrkConfig { scheduler: opt(c, scheduler), sampling: dur(c), strands: opt(c, |c| list(c, 4, strand)) }
}
fn thruster(c: &mut Case) -> Thruster {
    Thruster { thrust_N: pos(c), isp_s: pos(c) }
}
fn mass(c: &mut Case) -> Mass {
    Mass { dry_mass_kg: pos(c), prop_mass_kg: pos(c), extra_mass_kg: if c.b(0.5) { 0.0 } else { pos(c) } }
}
fn spacecraft(c: &mut Case) -> Spacecraft {
    let mut o = gens::any_orbit(c);
    o.epoch = epoch(c);
    let mut s = gens::sc(c, o);
    s.mass = mass(c);
    s.srp = SRPData { area_m2: pos(c), coeff_reflectivity: c.f(0.0, 2.0) };
    s.drag = DragData { area_m2: pos(c), coeff_drag: pos(c) };
    s.mode = c.pick(&[GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit]);
    s.thruster = opt(c, thruster);
    s
}
fn local(c: &mut Case) -> LocalFrame {
    c.pick(&[LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::VNC, LocalFrame::RCN])
}
fn vec3(c: &mut Case) -> Vector3<f64> {
    Vector3::new(real(c), real(c), real(c))
}
fn poly(c: &mut Case) -> CommonPolynomial {
    match c.u(0, 2) {
        0 => CommonPolynomial::Constant { a: real(c) },
        1 => CommonPolynomial::Linear { a: real(c), b: real(c) },
        _ => CommonPolynomial::Quadratic { a: real(c), b: real(c), c: real(c) },
    }
}
fn maneuver(c: &mut Case) -> Maneuver {
    let start = epoch(c);
    Maneuver {
        start,
        end: start + dur(c),
        thrust_prct: c.f(0.0, 1.0),
        representation: if c.b(0.5) { MnvrRepr::Vector(vec3(c)) } else { MnvrRepr::Angles { azimuth: poly(c), elevation: poly(c) } },
        frame: local(c),
    }
}
fn impulsive(c: &mut Case) -> ImpulsiveManeuver {
    ImpulsiveManeuver { local_frame: local(c), dv_km_s: vec3(c) }
}
fn param(c: &mut Case) -> StateParameter {
    use StateParameter as S;
    // serde_dhall does not write tuple variants without fields.
    if DHALL.get() {
        return S::Element(c.pick(&[
            OrbitalElement::SemiMajorAxis,
            OrbitalElement::Eccentricity,
            OrbitalElement::Inclination,
            OrbitalElement::RAAN,
            OrbitalElement::AoP,
            OrbitalElement::EquinoctialH,
            OrbitalElement::VX,
        ]));
    }
    let lf = local(c);
    c.pick(&[
        S::Element(OrbitalElement::SemiMajorAxis),
        S::Element(OrbitalElement::Eccentricity),
        S::Element(OrbitalElement::Inclination),
        S::Element(OrbitalElement::EquinoctialH),
        S::Element(OrbitalElement::VX),
        S::BdotR(),
        S::BdotT(),
        S::BLTOF(),
        S::Cd(),
        S::Cr(),
        S::DryMass(),
        S::PropMass(),
        S::Isp(),
        S::Thrust(),
        S::ThrustX(),
        S::ThrustInPlane(lf),
        S::ThrustOutOfPlane(lf),
        S::GuidanceMode(),
        S::Epoch(),
        S::TotalMass(),
    ])
}
fn objective(c: &mut Case) -> Objective {
    objective_on(param(c), c)
}
fn objective_on(parameter: StateParameter, c: &mut Case) -> Objective {
    Objective { parameter, desired_value: real(c), tolerance: pos(c), multiplicative_factor: real(c), additive_factor: real(c) }
}
fn options(c: &mut Case) -> IntegratorOptions {
    IntegratorOptions {
        init_step: dur(c),
        min_step: dur(c),
        max_step: dur(c),
        tolerance: pos(c),
        attempts: c.u(1, 255) as u8,
        fixed_step: c.b(0.5),
        error_ctrl: c.pick(&[
            ErrorControl::RSSCartesianState,
            ErrorControl::RSSCartesianStep,
            ErrorControl::RSSState,
            ErrorControl::RSSStep,
            ErrorControl::LargestError,
            ErrorControl::LargestState,
            ErrorControl::LargestStep,
        ]),
        integration_frame: opt(c, frame),
    }
}
fn point_masses(c: &mut Case) -> PointMasses {
    PointMasses {
        celestial_objects: list(c, 4, |c| c.pick(&[399, 301, 10, 4, 5, -7])),
        correction: opt(c, |c| Aberration { converged: c.b(0.5), stellar: c.b(0.5), transmit_mode: c.b(0.5) }),
    }
}
fn gravity(c: &mut Case) -> GravityFieldConfig {
    GravityFieldConfig { degree: c.u(0, 300), order: c.u(0, 300), filepath: c.pick(&["a/b.shadr.gz", "EGM 2008.cof", "x"]).into(), gunzipped: c.b(0.5), frame: iau_earth().into() }
}
fn tides(c: &mut Case) -> SolidTides {
    SolidTides { frame: frame(c), k2: real(c), k3: real(c), perturbers: list(c, 3, |c| TidalPerturber { frame: frame(c), compute_degree_3: c.b(0.5) }) }
}
fn srp(c: &mut Case) -> SolarPressure {
    SolarPressure { phi: pos(c), shadow_model: ShadowModel { light_source: frame(c), shadow_bodies: list(c, 3, frame) }, estimate: c.b(0.5) }
}
fn drag(c: &mut Case) -> Drag {
    Drag {
        density: match c.u(0, 2) {
            0 => AtmDensity::Constant(pos(c)),
            1 => AtmDensity::Exponential { rho0: pos(c), r0: pos(c), ref_alt_m: pos(c) },
            _ => AtmDensity::StdAtm { max_alt_m: pos(c) },
        },
        frame: frame(c),
        estimate: c.b(0.5),
    }
}
fn prop_cfg(c: &mut Case) -> PropagatorConfig {
    PropagatorConfig {
        dynamics: Dynamics {
            accel_models: AccelModels { point_masses: opt(c, point_masses), gravity_field: opt(c, gravity), solid_tides: opt(c, tides) },
            force_models: ForceModels { solar_pressure: opt(c, srp), drag: opt(c, drag) },
        },
        method: c.pick(&[
            IntegratorMethod::RungeKutta89,
            IntegratorMethod::DormandPrince78,
            IntegratorMethod::DormandPrince45,
            IntegratorMethod::RungeKutta4,
            IntegratorMethod::CashKarp45,
            IntegratorMethod::Verner56,
        ]),
        options: options(c),
    }
}
fn physical(c: &mut Case) -> PhysicalProperties {
    PhysicalProperties { mass: opt(c, mass), srp: opt(c, |c| SRPData { area_m2: pos(c), coeff_reflectivity: real(c) }), drag: opt(c, |c| DragData { area_m2: pos(c), coeff_drag: real(c) }) }
}
fn event(c: &mut Case) -> DiscreteEvent {
    match c.u(0, 2) {
        0 => DiscreteEvent::Staging { impulsive_maneuver: opt(c, impulsive), decrement_properties: opt(c, physical) },
        1 => DiscreteEvent::Docking { impulsive_maneuver: opt(c, impulsive), increment_properties: opt(c, physical) },
        _ => DiscreteEvent::FrameSwap { new_frame: frame(c) },
    }
}
fn guidance(c: &mut Case) -> GuidanceConfig {
    GuidanceConfig {
        thruster_model: name(c),
        disable_prop_mass: c.b(0.5),
        law: match c.u(0, 2) {
            0 => SteeringLaw::FiniteBurn(maneuver(c)),
            1 => SteeringLaw::Kluever { objectives: list(c, 3, |c| ObjectiveWeight { objective: objective(c), weight: real(c) }), max_eclipse_prct: opt(c, real) },
            _ => SteeringLaw::Ruggiero { objectives: list(c, 3, |c| ObjectiveEfficiency { objective: objective(c), efficiency: real(c) }), max_eclipse_prct: opt(c, real) },
        },
    }
}
fn sequence(c: &mut Case) -> SpacecraftSequence {
    let mut s = SpacecraftSequence::default();
    let mut e = epoch(c);
    for _ in 0..c.u(0, 4) {
        s.seq.insert(
            e,
            Phase::Activity { name: name(c), propagator: name(c), guidance: opt(c, |c| Box::new(guidance(c))), on_entry: opt(c, |c| Box::new(event(c))), disabled: c.b(0.3) },
        );
        e += dur(c);
    }
    s.seq.insert(e, Phase::Terminate);
    // One entry each: the order of the entries of these maps is not defined.
    if c.b(0.7) {
        s.thruster_sets.insert(name(c), thruster(c));
    }
    if c.b(0.7) {
        s.propagators.insert(name(c), prop_cfg(c));
    }
    s
}

/* ---- oracles ---- */
fn der_trip<T: Encode + for<'a> Decode<'a> + Debug>(c: &mut Case, what: &str, x: &T) {
    c.obs("values encoded", 1);
    c.p(what, x);
    let bytes = match x.to_der() {
        Ok(b) => b,
        Err(e) => return c.fail(what, format!("cannot be encoded: {e}")),
    };
    let len = x.encoded_len().map(u32::from).unwrap_or(u32::MAX);
    c.check(what, len as usize == bytes.len(), || format!("announces {len} bytes but writes {}", bytes.len()));
    match T::from_der(&bytes) {
        Ok(y) => {
            let (a, b) = (format!("{x:?}"), format!("{y:?}"));
            c.check(what, a == b, || format!("wrote {a} but read {b}"));
        }
        Err(e) => c.fail(what, format!("{x:?} cannot be decoded from what it wrote: {e}")),
    }
    // What was cut is not something else.
    let cut = c.u(0, bytes.len().saturating_sub(1));
    if let Ok(y) = T::from_der(&bytes[..cut]) {
        c.fail(what, format!("{cut} of the {} bytes read as {y:?}", bytes.len()));
    }
    let mut more = bytes.clone();
    more.push(0);
    if let Ok(y) = T::from_der(&more) {
        c.fail(what, format!("a byte too many read as {y:?}"));
    }
    c.nontrivial();
}

fn text_trip<T: Serialize + DeserializeOwned + Debug>(c: &mut Case, what: &str, x: &T) {
    c.obs("values written as YAML", 1);
    c.p(what, x);
    let txt = match serde_yml::to_string(x) {
        Ok(t) => t,
        Err(e) => return c.fail(what, format!("cannot be written: {e} {x:?}")),
    };
    match serde_yml::from_str::<T>(&txt) {
        Ok(y) => {
            let (a, b) = (format!("{x:?}"), format!("{y:?}"));
            c.check(what, a == b, || format!("wrote {a} but read {b} from\n{txt}"));
        }
        Err(e) => c.fail(what, format!("cannot be read from what was written: {e}\n{txt}")),
    }
    c.nontrivial();
}
fn dhall_trip<T: Serialize + DeserializeOwned + Debug + serde_dhall::StaticType>(c: &mut Case, what: &str, x: &T) {
    c.obs("values written as Dhall", 1);
    c.p(what, x);
    let txt = match serde_dhall::serialize(x).static_type_annotation().to_string() {
        Ok(t) => t,
        Err(e) => return c.fail(what, format!("cannot be written: {e} {x:?}")),
    };
    match serde_dhall::from_str(&txt).parse::<T>() {
        Ok(y) => {
            let (a, b) = (format!("{x:?}"), format!("{y:?}"));
            c.check(what, a == b, || format!("wrote {a} but read {b} from\n{txt}"));
        }
        Err(e) => c.fail(what, format!("cannot be read from what was written: {e}\n{txt}")),
    }
    c.nontrivial();
}
/// Sequences are only written: the Dhall parser takes minutes on the annotated text of a sequence.
fn sequence_dhall(c: &mut Case) {
    let x = sequence(c);
    c.p("sequence", &x);
    match serde_dhall::serialize(&x).static_type_annotation().to_string() {
        Ok(t) => {
            c.check("written sequence", t.len() > 100, || t);
        }
        // The annotation of the two maps is that of lists of pairs.
        Err(e) if e.to_string().contains("expected a value of type List { _1 : Text, _2") => c.fail("maps-of-a-sequence", format!("{e}")),
        Err(e) => c.fail("written sequence", format!("{e}")),
    }
    c.nontrivial();
}
fn file_trip<T: ConfigRepr + Clone>(c: &mut Case, what: &str, mut make: impl FnMut(&mut Case) -> T) {
    let dir = std::env::temp_dir().join(format!("nyxmon-cfg-{}-{}-{what}", std::process::id(), c.idx));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("c.yaml");
    let one = make(c);
    c.p(what, &one);
    std::fs::write(&path, serde_yml::to_string(&one).unwrap_or_default()).unwrap();
    match T::load(&path) {
        Ok(y) => {
            let (a, b) = (format!("{one:?}"), format!("{y:?}"));
            c.check(what, a == b, || format!("wrote {a} but loaded {b}"));
        }
        Err(e) => c.fail(what, format!("{one:?} cannot be loaded: {e}")),
    }
    let many: Vec<T> = list(c, 4, &mut make);
    let txt = serde_yml::to_string(&many).unwrap_or_default();
    std::fs::write(&path, &txt).unwrap();
    let want = format!("{many:?}");
    for (how, got) in [("load_many", T::load_many(&path)), ("loads_many", T::loads_many(&txt))] {
        match got {
            Ok(y) => {
                let b = format!("{y:?}");
                c.check(what, want == b, || format!("{how}: wrote {want} but loaded {b}"));
            }
            Err(e) => c.fail(what, format!("{how}: {want} cannot be loaded: {e}")),
        }
    }
    let named: BTreeMap<String, T> = list(c, 4, |c| (name(c), make(c))).into_iter().collect();
    let txt = serde_yml::to_string(&named).unwrap_or_default();
    std::fs::write(&path, &txt).unwrap();
    let want = format!("{named:?}");
    for (how, got) in [("load_named", T::load_named(&path)), ("loads_named", T::loads_named(&txt))] {
        match got {
            Ok(y) => {
                let b = format!("{y:?}");
                c.check(what, want == b, || format!("{how}: wrote {want} but loaded {b}"));
            }
            Err(e) => c.fail(what, format!("{how}: {want} cannot be loaded: {e}")),
        }
    }
    c.check(what, T::load(dir.join("missing.yaml")).is_err(), || "a missing file was loaded".into());
    std::fs::write(&path, "][").unwrap();
    c.check(what, T::load(&path).is_err(), || "a damaged file was loaded".into());
    std::fs::remove_dir_all(&dir).ok();
    c.obs("files loaded", 5);
    c.nontrivial();
}

fn c37() {
    let m = Mon::new("C37", "non-trivial: at least one configuration was written and read back");
    m.group("binary", 1500, 60000, |c| {
        let what = c.u(0, 9);
        match what {
            0 => {
                let x = white(c);
                der_trip(c, "white noise", &x)
            }
            1 => {
                let x = gm(c);
                der_trip(c, "Gauss-Markov process", &x)
            }
            2 => {
                let x = noise(c);
                der_trip(c, "stochastic noise", &x)
            }
            3 => {
                let x = cadence(c);
                der_trip(c, "cadence", &x)
            }
            4 => {
                let x = scheduler(c);
                der_trip(c, "scheduler", &x)
            }
            5 => {
                let x = strand(c);
                der_trip(c, "strand", &x)
            }
            6 => {
                let x = trkcfg(c);
                der_trip(c, "tracking configuration", &x)
            }
            7 => {
                let x = thruster(c);
                der_trip(c, "thruster", &x)
            }
            8 => {
                let x = spacecraft(c);
                der_trip(c, "spacecraft", &x)
            }
            _ => {
                let x = station(c);
                der_trip(c, "ground station", &x)
            }
        }
    });
    m.group("enumerations", 20, 20, |c| {
        for x in TYPES {
            der_trip(c, "measurement type", &x);
            text_trip(c, "measurement type", &x);
        }
        for x in [Handoff::Eager, Handoff::Greedy, Handoff::Overlap] {
            der_trip(c, "handoff", &x);
            text_trip(c, "handoff", &x);
        }
        for x in [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit] {
            der_trip(c, "guidance mode", &x);
            text_trip(c, "guidance mode", &x);
        }
        c.p("i", c.idx);
    });
    m.group("text", 1500, 60000, |c| {
        DHALL.set(false);
        let what = c.u(0, 12);
        match what {
            0 => {
                let x = station(c);
                text_trip(c, "ground station", &x)
            }
            1 => {
                let x = trkcfg(c);
                text_trip(c, "tracking configuration", &x)
            }
            2 => {
                let x = spacecraft(c);
                text_trip(c, "spacecraft", &x)
            }
            3 => {
                let x = noise(c);
                text_trip(c, "stochastic noise", &x)
            }
            4 => {
                let x = PositionDevice { name: name(c), stochastic_noises: opt(c, noises), measurement_types: types(c) };
                text_trip(c, "position device", &x)
            }
            5 => {
                let x = SigmaRejection { num_sigmas: real(c) };
                text_trip(c, "rejection", &x)
            }
            6 => {
                let x = options(c);
                text_trip(c, "propagator options", &x)
            }
            7 => {
                let x = maneuver(c);
                text_trip(c, "maneuver", &x)
            }
            8 => {
                let x = objective(c);
                text_trip(c, "objective", &x)
            }
            9 => {
                let x = prop_cfg(c);
                text_trip(c, "propagator configuration", &x)
            }
            10 => {
                let x = guidance(c);
                text_trip(c, "guidance configuration", &x)
            }
            11 => {
                let x = event(c);
                text_trip(c, "discrete event", &x)
            }
            _ => {
                let x = sequence(c);
                text_trip(c, "sequence", &x)
            }
        }
    });
    m.group("dhall", 160, 8000, |c| {
        DHALL.set(true);
        let what = c.u(0, 7);
        match what {
            0 => {
                let x = options(c);
                dhall_trip(c, "propagator options", &x)
            }
            1 => {
                let x = maneuver(c);
                dhall_trip(c, "maneuver", &x)
            }
            2 => {
                let x = objective(c);
                dhall_trip(c, "objective", &x)
            }
            3 => {
                let x = prop_cfg(c);
                dhall_trip(c, "propagator configuration", &x)
            }
            4 => {
                let x = guidance(c);
                dhall_trip(c, "guidance configuration", &x)
            }
            5 => {
                let x = event(c);
                dhall_trip(c, "discrete event", &x)
            }
            6 => {
                let x = thruster(c);
                dhall_trip(c, "thruster", &x)
            }
            _ => sequence_dhall(c),
        }
    });
    m.group("files", 60, 2000, |c| {
        let what = c.u(0, 5);
        match what {
            0 => file_trip(c, "ground stations", station),
            1 => file_trip(c, "tracking configurations", trkcfg),
            2 => file_trip(c, "spacecraft", spacecraft),
            3 => file_trip(c, "rejections", |c| SigmaRejection { num_sigmas: real(c) }),
            4 => file_trip(c, "Gauss-Markov processes", gm),
            _ => file_trip(c, "position devices", |c| PositionDevice { name: name(c), stochastic_noises: opt(c, noises), measurement_types: types(c) }),
        }
    });
    m.finish()
}

/* ---- C39 ---- */
type M6 = SMatrix<f64, 6, 6>;
type M9 = SMatrix<f64, 9, 9>;
type X9 = SVector<f64, 9>;
const ANGLES: [OrbitalElement; 10] = [
    OrbitalElement::RAAN,
    OrbitalElement::AoP,
    OrbitalElement::TrueAnomaly,
    OrbitalElement::AoL,
    OrbitalElement::TrueLongitude,
    OrbitalElement::MeanAnomaly,
    OrbitalElement::EccentricAnomaly,
    OrbitalElement::RightAscension,
    OrbitalElement::Declination,
    OrbitalElement::Longitude,
];
fn scaled(c: &mut Case) -> X9 {
    X9::from_iterator((0..9).map(|i| {
        if i < 3 {
            c.logu(1e-4, 10.0)
        } else if i < 6 {
            c.logu(1e-7, 1e-2)
        } else {
            c.logu(1e-4, 1.0)
        }
    }))
}
/// A covariance with correlations.
fn covariance(c: &mut Case) -> M9 {
    let s = M9::from_diagonal(&scaled(c));
    let l = M9::from_fn(|i, j| if i >= j { if i == j { c.f(0.3, 1.0) } else { c.f(-0.7, 0.7) } } else { 0.0 });
    let p = s * l * l.transpose() * s;
    (p + p.transpose()) * 0.5
}
fn value(o: &Orbit, e: OrbitalElement) -> Option<f64> {
    Spacecraft { orbit: *o, ..Default::default() }.value(StateParameter::Element(e)).ok()
}
/// The derivatives of an element with respect to the Cartesian state, by finite differences.
fn gradient(o: &Orbit, e: OrbitalElement) -> Option<SVector<f64, 6>> {
    let mut g = SVector::<f64, 6>::zeros();
    for i in 0..6 {
        let h = if i < 3 { 1e-4 * o.rmag_km() } else { 1e-4 * o.vmag_km_s() };
        let at = |k: f64| {
            let mut q = *o;
            if i < 3 {
                q.radius_km[i] += k * h;
            } else {
                q.velocity_km_s[i - 3] += k * h;
            }
            value(&q, e)
        };
        let wrap = |d: f64| if ANGLES.contains(&e) { (d + 180.0).rem_euclid(360.0) - 180.0 } else { d };
        let d1 = wrap(at(1.0)? - at(-1.0)?) / (2.0 * h);
        let d2 = wrap(at(2.0)? - at(-2.0)?) / (4.0 * h);
        g[i] = (4.0 * d1 - d2) / 3.0;
    }
    Some(g)
}
fn tame_orbit(c: &mut Case) -> Orbit {
    let e = gens::epoch(c);
    let f = c.pick(&[eme2k(), moonj2k(), marsj2k()]);
    let mut o = gens::orbit(c, f, e, 0.6, 4.0);
    // Away from the singularities of the elements.
    if o.ecc().unwrap() < 0.05 || !(5.0..175.0).contains(&o.inc_deg().unwrap()) {
        o = Orbit::keplerian(o.sma_km().unwrap() * 1.3, c.f(0.06, 0.2), c.f(6.0, 170.0), c.f(5.0, 355.0), c.f(5.0, 355.0), c.f(5.0, 355.0), e, f);
    }
    o
}
fn elements(c: &mut Case) {
    let o = tame_orbit(c);
    // Angles computed from their cosine lose their accuracy where it is flat.
    let flat = |d: f64| (d.rem_euclid(180.0) - 90.0).abs() > 88.0;
    if [o.raan_deg(), o.aop_deg(), o.ta_deg()].into_iter().any(|a| a.is_ok_and(flat)) {
        return c.skip("an angle near 0 or 180 deg");
    }
    let s = gens::sc(c, o);
    let p = covariance(c);
    let mut est = KfEstimate::from_covar(s, p);
    if c.b(0.3) {
        est.covar_bar *= 4.0;
    }
    let p6: M6 = p.fixed_view::<6, 6>(0, 0).into_owned();
    use OrbitalElement as E;
    const ALL: [E; 27] = [
        E::X, E::Y, E::Z, E::VX, E::VY, E::VZ, E::Rmag, E::Vmag, E::HX, E::HY, E::HZ, E::Hmag, E::Energy, E::SemiMajorAxis, E::Eccentricity, E::Inclination, E::RAAN, E::AoP, E::TrueAnomaly,
        E::PeriapsisRadius, E::ApoapsisRadius, E::C3, E::SemiMinorAxis, E::SemiParameter, E::RightAscension, E::Declination, E::AoL,
    ];
    for e in ALL {
        let Some(g) = gradient(&o, e) else { continue };
        let want = (g.transpose() * p6 * g)[(0, 0)].sqrt();
        match est.sigma_for(e) {
            Ok(got) => {
                c.near(&format!("sigma of {e:?}"), got, want, 2e-5 * want + 1e-12);
            }
            Err(x) => c.fail(&format!("sigma of {e:?}"), format!("{x}")),
        }
        c.obs("sigmas of elements", 1);
    }
    let six = [E::SemiMajorAxis, E::Eccentricity, E::Inclination, E::RAAN, E::AoP, E::TrueAnomaly];
    let mut j = M6::zeros();
    for (k, e) in six.iter().enumerate() {
        let Some(g) = gradient(&o, *e) else { return };
        j.set_row(k, &g.transpose());
    }
    let want = j * p6 * j.transpose();
    let got = est.keplerian_covar();
    for a in 0..6 {
        for b in 0..6 {
            let tol = 1e-4 * (want[(a, a)] * want[(b, b)]).sqrt();
            c.near("Keplerian covariance", got[(a, b)], want[(a, b)], tol);
        }
    }
    c.nontrivial();
}
/// The sigmas printed between brackets.
fn printed(s: &str) -> Vec<f64> {
    let Some((_, t)) = s.rsplit_once("sigmas [") else { return vec![] };
    let Some((t, _)) = t.split_once(']') else { return vec![] };
    t.split(", ")
        .map(|w| {
            let w = w.rsplit_once(": ").map(|(_, w)| w).unwrap_or(w);
            w.split(' ').next().unwrap_or("").parse().unwrap_or(f64::NAN)
        })
        .collect()
}
fn estimates(c: &mut Case) {
    let o = tame_orbit(c);
    let s = gens::sc(c, o);
    let d = scaled(c);
    let diag = d.map(|x| x * x);
    let full = covariance(c);
    let dev = X9::from_iterator((0..9).map(|_| c.gauss())).component_mul(&d) * 0.8;
    // Builders
    let z = <KfEstimate<Spacecraft> as Estimate<Spacecraft>>::zeros(s);
    let a = KfEstimate::from_diag(s, diag);
    let b = KfEstimate::from_covar(s, full);
    for (w, e, p) in [("zeros", &z, M9::zeros()), ("from_diag", &a, M9::from_diagonal(&diag)), ("from_covar", &b, full)] {
        c.check(w, e.covar == p && e.covar() == p && e.predicted_covar() == p, || format!("{}", e.covar));
        c.check(w, e.state_deviation == X9::zeros() && e.stm == M9::identity() && e.predicted(), || format!("{e}"));
        c.check(w, format!("{:?}", e.nominal_state()) == format!("{s:?}") && e.epoch() == s.orbit.epoch, || format!("{e}"));
    }
    // The state is the nominal state and its deviation.
    let mut e = a;
    e.set_state_deviation(dev);
    let st = e.state();
    c.vnear("estimated position", st.orbit.radius_km.as_slice(), (s.orbit.radius_km + dev.fixed_rows::<3>(0)).as_slice(), 1e-9);
    c.vnear("estimated velocity", st.orbit.velocity_km_s.as_slice(), (s.orbit.velocity_km_s + dev.fixed_rows::<3>(3)).as_slice(), 1e-12);
    c.near("estimated Cr", st.srp.coeff_reflectivity, (s.srp.coeff_reflectivity + dev[6]).clamp(0.0, 2.0), 1e-12);
    c.near("estimated Cd", st.drag.coeff_drag, s.drag.coeff_drag + dev[7], 1e-12);
    c.near("estimated mass", st.mass.prop_mass_kg, s.mass.prop_mass_kg + dev[8], 1e-9);
    c.check("orbital state", e.orbital_state() == st.orbit && e.expected_state() == s.orbit, || format!("{}", e.orbital_state()));
    // Bounds
    let worst = (0..9).map(|i| dev[i].abs() / d[i]).fold(0.0, f64::max);
    for k in [1.0, 2.0, 3.0, worst * 1.001, worst * 0.999] {
        c.check("within bounds", e.within_sigma(k) == (worst <= k), || format!("{worst} within {k} is {}", e.within_sigma(k)));
    }
    c.check("within bounds", e.within_3sigma() == (worst <= 3.0), || format!("{worst}"));
    e.set_covar(full);
    c.check("covariance set", e.covar() == full, || String::new());
    // Scaling multiplies the sigmas.
    let k = c.f(0.1, 10.0);
    let m = e * k;
    let err = (m.covar - full * (k * k)).norm();
    c.near("scaled", err, 0.0, 1e-12 * k * k * full.norm());
    c.check("scaled", m.state_deviation == dev && m.nominal_state.orbit == s.orbit, || format!("{m}"));
    // Text
    let got = printed(&format!("{b}"));
    let exp = printed(&format!("{b:e}"));
    let hex = printed(&format!("{b:x}"));
    c.check("printed sigmas", got.len() == 9 && exp.len() == 9 && hex.len() == 6, || format!("{b}\n{b:e}\n{b:x}"));
    if got.len() == 9 && exp.len() == 9 && hex.len() == 6 {
        for i in 0..9 {
            let w = full[(i, i)].sqrt();
            let m = if i < 6 { 1e3 } else { 1.0 };
            c.near("printed sigma", got[i], w * m, 1e-6 + 1e-6 * w * m);
            c.near("printed sigma in km", exp[i], w, 1e-9 * w);
        }
        let kc = b.keplerian_covar();
        for i in 0..6 {
            let w = kc[(i, i)].sqrt();
            c.near("printed Keplerian sigma", hex[i], w, 1e-6 + 1e-5 * w);
        }
    }
    c.nontrivial();
    c.obs("estimates", 3);
}
fn dispersions(c: &mut Case) {
    let o = tame_orbit(c);
    let s = gens::sc(c, o);
    let seed = c.rng_u128() | 1;
    let mut disp = vec![];
    for e in [OrbitalElement::X, OrbitalElement::VZ, OrbitalElement::SemiMajorAxis, OrbitalElement::Inclination] {
        if c.b(0.5) {
            disp.push(StateDispersion::zero_mean(StateParameter::Element(e), match e {
                OrbitalElement::VZ => c.logu(1e-6, 1e-3),
                OrbitalElement::Inclination => c.logu(1e-5, 1e-2),
                _ => c.logu(1e-3, 1.0),
            }));
        }
    }
    if c.b(0.4) {
        disp.push(StateDispersion::zero_mean(StateParameter::PropMass(), 1.0));
    }
    let a = match KfEstimate::from_dispersions(s, disp.clone(), Some(seed)) {
        Ok(a) => a,
        Err(e) => return c.fail("dispersed estimate", format!("{e}")),
    };
    let Ok(b) = KfEstimate::from_dispersions(s, disp.clone(), Some(seed)) else { return c.fail("dispersed estimate", "not reproducible") };
    c.check("reproducible", a.state_deviation == b.state_deviation && a.covar == b.covar, || format!("{a} {b}"));
    c.check("nominal state", format!("{:?}", a.nominal_state) == format!("{s:?}"), || format!("{a}"));
    for i in 0..9 {
        for j in 0..9 {
            let w = if i == j { (3.0 * a.state_deviation[i]).powi(2) } else { 0.0 };
            c.near("dispersed covariance", a.covar[(i, j)], w, 1e-12 * w);
            c.near("dispersed covariance", a.covar_bar[(i, j)], w, 1e-12 * w);
        }
    }
    c.check("within three sigmas", a.within_3sigma() && a.within_sigma(0.34), || format!("{a}"));
    // The deviation leads to the dispersed state of the same generator.
    if let Ok(g) = MvnSpacecraft::new(s, disp) {
        let t = g.sample(&mut Pcg64Mcg::new(seed)).state;
        let u = a.state();
        c.vnear("dispersed position", u.orbit.radius_km.as_slice(), t.orbit.radius_km.as_slice(), 1e-8);
        c.vnear("dispersed velocity", u.orbit.velocity_km_s.as_slice(), t.orbit.velocity_km_s.as_slice(), 1e-11);
        c.near("dispersed mass", u.mass.prop_mass_kg, t.mass.prop_mass_kg, 1e-9);
    }
    c.nontrivial();
    c.obs("dispersed estimates", 1);
}
fn uncertainty(c: &mut Case) {
    let o = tame_orbit(c);
    let s = gens::sc(c, o);
    let d = scaled(c);
    let fr = c.pick(&[None, None, Some(LocalFrame::Inertial), Some(LocalFrame::RIC), Some(LocalFrame::VNC), Some(LocalFrame::RCN)]);
    c.p("frame", fr);
    c.p("sigmas", d);
    let mut u = SpacecraftUncertainty::builder()
        .nominal(s)
        .x_km(d[0])
        .y_km(d[1])
        .z_km(d[2])
        .vx_km_s(d[3])
        .vy_km_s(d[4])
        .vz_km_s(d[5])
        .coeff_reflectivity(d[6])
        .coeff_drag(d[7])
        .mass_kg(d[8])
        .build();
    u.frame = fr;
    let e = match u.to_estimate() {
        Ok(e) => e,
        Err(x) => return c.fail("uncertainty", format!("{x}")),
    };
    c.check("nominal state", format!("{:?}", e.nominal_state) == format!("{s:?}") && e.state_deviation == X9::zeros() && e.predicted, || format!("{e}"));
    c.check("both covariances", e.covar == e.covar_bar, || format!("{}", e.covar_bar));
    let sym = (e.covar - e.covar.transpose()).norm();
    c.near("symmetry", sym, 0.0, 1e-12 * e.covar.norm());
    for i in 6..9 {
        c.near("coefficients and mass", e.covar[(i, i)], d[i] * d[i], 1e-14 * d[i] * d[i]);
        for j in 0..9 {
            if i != j {
                c.near("coefficients and mass", e.covar[(i, j)], 0.0, 0.0);
            }
        }
    }
    // The sum of the variances of the position is the same in all axes.
    let tr = e.covar.fixed_view::<3, 3>(0, 0).trace();
    let (r, v) = (&o.radius_km, &o.velocity_km_s);
    let rot = match fr {
        None | Some(LocalFrame::Inertial) => Matrix3::identity(),
        Some(LocalFrame::RIC) => ric(r, v).transpose(),
        Some(LocalFrame::VNC) => vnc(r, v).transpose(),
        Some(LocalFrame::RCN) => rcn(r, v).transpose(),
    };
    let dp = Matrix3::from_diagonal(&Vector3::new(d[0] * d[0], d[1] * d[1], d[2] * d[2]));
    let dv = Matrix3::from_diagonal(&Vector3::new(d[3] * d[3], d[4] * d[4], d[5] * d[5]));
    if rot == Matrix3::identity() {
        let want = M9::from_diagonal(&d.map(|x| x * x));
        for i in 0..9 {
            for j in 0..9 {
                c.near("inertial covariance", e.covar[(i, j)], want[(i, j)], 1e-14 * (want[(i, i)] * want[(j, j)]).sqrt());
            }
        }
        c.near("trace", tr, dp.trace(), 1e-12 * dp.trace());
        c.obs("inertial uncertainties", 1);
    } else {
        let p: Matrix3<f64> = e.covar.fixed_view::<3, 3>(0, 0).into_owned();
        let q: Matrix3<f64> = e.covar.fixed_view::<3, 3>(3, 3).into_owned();
        let (wp, wv) = (rot * dp * rot.transpose(), rot * dv * rot.transpose());
        // The rotation rate of the local frame may also be accounted for: it adds that of the position to the velocity.
        let rate = 1.6 * o.hmag().unwrap_or(0.0) / r.norm_squared() * d.fixed_rows::<3>(0).amax();
        let slack = 1.02 * (rate * rate + 2.0 * rate * d.fixed_rows::<3>(3).amax());
        let good = (p - wp).norm() <= 1e-9 * dp.norm() && (q - wv).norm() <= 3.0 * slack + 1e-9 * dv.norm();
        // The known finding: rotated by the transpose (with the rates in the position).
        let tp = rot.transpose() * dp * rot;
        let (rate_t, tv) = (1.6 * o.hmag().unwrap_or(0.0) / r.norm_squared(), rot.transpose() * dv * rot);
        let slack_t = 1.02 * (rate_t * rate_t * dv.amax() + 2.0 * rate_t * dv.amax());
        let known = (p - tp).norm() <= 3.0 * slack_t + 1e-9 * dp.norm() && (q - tv).norm() <= 1e-9 * dv.norm();
        if !good && known {
            c.fail("local-frame-rotation", format!("sigmas {:?} in {fr:?} gave a position covariance of {p} instead of {wp}", d.as_slice()));
        } else {
            c.check("local covariance", good, || format!("position {p} instead of {wp}, velocity {q} instead of {wv} (slack {slack})"));
        }
        c.obs("local uncertainties", 1);
    }
    // Randomized
    let seed = c.rng_u128() | 1;
    match (u.to_estimate_randomized(Some(seed)), u.to_estimate_randomized(Some(seed)), u.to_estimate_randomized(Some(seed ^ 6))) {
        (Ok(a), Ok(b), Ok(w)) => {
            c.check("reproducible", format!("{:?}", a.nominal_state) == format!("{:?}", b.nominal_state), || format!("{a} {b}"));
            c.check("seed", a.nominal_state.orbit.radius_km != w.nominal_state.orbit.radius_km, || format!("{a}"));
            c.check("covariance of the randomized estimate", a.covar == e.covar, || format!("{}", a.covar));
            let x = a.nominal_state.orbit.radius_km - r;
            let big = e.covar.fixed_view::<3, 3>(0, 0).trace().sqrt();
            c.check("size of the dispersion", x.norm() < 7.0 * big, || format!("{} km for a sigma of {big} km", x.norm()));
        }
        _ => c.fail("randomized", "an error"),
    }
    // None is negative.
    let k = c.u(0, 8);
    let n = -d[k];
    match k {
        0 => u.x_km = n,
        1 => u.y_km = n,
        2 => u.z_km = n,
        3 => u.vx_km_s = n,
        4 => u.vy_km_s = n,
        5 => u.vz_km_s = n,
        6 => u.coeff_reflectivity = n,
        7 => u.coeff_drag = n,
        _ => u.mass_kg = n,
    }
    c.check("negative sigma", u.to_estimate().is_err(), || format!("sigma {k} may be {n}"));
    c.nontrivial();
}
/// The spread of the randomized estimates, and of the random variable of an estimate, is their covariance.
fn spread(c: &mut Case) {
    let o = tame_orbit(c);
    let s = Spacecraft { mass: Mass::from_dry_and_prop_masses(500.0, 800.0), srp: SRPData { area_m2: 1.0, coeff_reflectivity: 1.0 }, ..gens::sc(c, o) };
    let mut d = scaled(c);
    d[6] = d[6].min(0.1);
    let u = SpacecraftUncertainty::builder()
        .nominal(s)
        .x_km(d[0])
        .y_km(d[1])
        .z_km(d[2])
        .vx_km_s(d[3])
        .vy_km_s(d[4])
        .vz_km_s(d[5])
        .coeff_reflectivity(d[6])
        .coeff_drag(d[7])
        .mass_kg(d[8])
        .build();
    let n = 600usize;
    let vec = |t: &Spacecraft| {
        let mut x = X9::zeros();
        for i in 0..3 {
            x[i] = t.orbit.radius_km[i] - s.orbit.radius_km[i];
            x[i + 3] = t.orbit.velocity_km_s[i] - s.orbit.velocity_km_s[i];
        }
        x[6] = t.srp.coeff_reflectivity - s.srp.coeff_reflectivity;
        x[7] = t.drag.coeff_drag - s.drag.coeff_drag;
        x[8] = t.mass.prop_mass_kg - s.mass.prop_mass_kg;
        x
    };
    let mut run = |c: &mut Case, what: &str, mean: &X9, p: &M9, draw: &mut dyn FnMut(u128) -> Option<X9>| {
        let base = c.rng_u128();
        let mut xs = vec![];
        for k in 0..n {
            let Some(x) = draw(base.wrapping_add(2 * k as u128 * 7919) | 1) else { return c.fail(what, "an error") };
            xs.push(x);
        }
        let m = xs.iter().sum::<X9>() / n as f64;
        let mut cov = M9::zeros();
        for x in &xs {
            cov += (x - m) * (x - m).transpose();
        }
        cov /= n as f64 - 1.0;
        // The rounding of a decomposition of such a covariance.
        let floor = 1e-14 * p.trace();
        for i in 0..9 {
            let si = (p[(i, i)] + floor).sqrt();
            c.near(&format!("mean of the {what}"), m[i], mean[i], 6.0 * si / (n as f64).sqrt() + 1e-9);
            for j in 0..9 {
                let sj = (p[(j, j)] + floor).sqrt();
                c.near(&format!("covariance of the {what}"), cov[(i, j)], p[(i, j)], 6.0 * 1.5 * si * sj / (n as f64).sqrt() + 1e-18);
            }
        }
        c.obs("samples", n as u64);
    };
    let p = M9::from_diagonal(&d.map(|x| x * x));
    run(c, "randomized estimates", &X9::zeros(), &p, &mut |seed| u.to_estimate_randomized(Some(seed)).ok().map(|e| vec(&e.nominal_state)));
    let mut p = covariance(c);
    let k = 0.1 / p[(6, 6)].sqrt().max(0.1);
    for i in 0..9 {
        p[(6, i)] *= k;
        p[(i, 6)] *= k;
    }
    let mut e = KfEstimate::from_covar(s, p);
    if c.b(0.5) {
        e.set_state_deviation(d * 0.5);
        e.state_deviation[6] = 0.05;
    }
    let mean = e.state_deviation;
    match e.to_random_variable() {
        Ok(g) => {
            let mut rng = Pcg64Mcg::new(c.rng_u128() | 1);
            run(c, "random variable", &mean, &p, &mut |_| Some(vec(&g.sample(&mut rng).state)));
        }
        Err(x) => c.fail("random variable", format!("{x}")),
    }
    c.nontrivial();
}
fn objectives(c: &mut Case) {
    let o = tame_orbit(c);
    let s = gens::sc(c, o);
    let (e, v) = {
        let e = c.pick(&[OrbitalElement::SemiMajorAxis, OrbitalElement::Eccentricity, OrbitalElement::Inclination, OrbitalElement::RAAN, OrbitalElement::VX]);
        (e, value(&o, e).unwrap())
    };
    let tol = c.logu(1e-6, 10.0);
    let want = v + tol * c.pick(&[0.0, 0.5, -0.5, 0.99, -0.99, 1.01, -1.01, 3.0, -40.0]);
    let mut ob = Objective::within_tolerance(StateParameter::Element(e), want, tol);
    c.check("objective", ob.multiplicative_factor == 1.0 && ob.additive_factor == 0.0 && ob.desired_value == want && ob.tolerance == tol, || format!("{ob}"));
    if c.b(0.5) {
        ob.multiplicative_factor = c.f(-3.0, 3.0);
        ob.additive_factor = tol * c.f(-2.0, 2.0);
    }
    let err = ob.multiplicative_factor * (want - v) + ob.additive_factor;
    c.p("error over tolerance", err / tol);
    let mut all = vec![ob.assess_value(v)];
    match ob.assess(&s) {
        Ok(x) => all.push(x),
        Err(x) => c.fail("assess", format!("{x}")),
    }
    for (ok, got) in all {
        c.near("objective error", got, err, 1e-12 * (v.abs() + want.abs() + tol));
        if (err.abs() / tol - 1.0).abs() > 1e-4 {
            c.check("objective met", ok == (err.abs() <= tol), || format!("an error of {err} within {tol}: {ok}"));
        }
    }
    let n = Objective::new(StateParameter::Element(e), want);
    c.check("default tolerance", n.tolerance == StateParameter::Element(e).default_event_precision() && n.desired_value == want, || format!("{n}"));
    c.nontrivial();
    c.obs("objectives", 1);
}
fn c39() {
    let m = Mon::new("C39", "non-trivial: an uncertainty, estimate or objective was compared with the reference");
    m.group("elements", 2000, 40000, elements);
    m.group("estimates", 2000, 40000, estimates);
    m.group("dispersions", 1500, 20000, dispersions);
    m.group("uncertainty", 2500, 60000, uncertainty);
    m.group("spread", 60, 1000, spread);
    m.group("objectives", 3000, 60000, objectives);
    m.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C37") => c37(),
        Some("C39") => c39(),
        x => panic!("unknown property {x:?}"),
    }
}
