//! C22, C23: Monte Carlo runs and dispersions.
use anise::analysis::event::{Condition, Event};
use anise::analysis::expr::ScalarExpr;
use anise::analysis::prelude::OrbitalElement;
use anise::prelude::*;
use arrow::array::{Array, Float64Array, Int32Array, StringArray};
use hifitime::{Epoch, Unit};
use nalgebra::{Const, OMatrix, OVector, SMatrix, SVector, Vector3};
use nyx_space::cosmic::{Spacecraft, State};
use nyx_space::dynamics::{Dynamics, DynamicsError, OrbitalDynamics, SpacecraftDynamics};
use nyx_space::io::ExportCfg;
use nyx_space::mc::helpers::{dv_execution_error, unit_vector_from_seed};
use nyx_space::mc::{MonteCarlo, MvnSpacecraft, StateDispersion};
use nyx_space::md::prelude::Interpolatable;
use nyx_space::md::StateParameter;
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::propagators::*;
use nyxmon::alm::*;
use nyxmon::gens::*;
use nyxmon::mon::*;
use nyxmon::ok;
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use rand_distr::Distribution;
use rand_pcg::Pcg64Mcg;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

const EL: fn(OrbitalElement) -> StateParameter = StateParameter::Element;

fn bits(s: &Spacecraft) -> Vec<u64> {
    let mut v: Vec<u64> = s.orbit.radius_km.iter().chain(s.orbit.velocity_km_s.iter()).map(|x| x.to_bits()).collect();
    v.push(s.mass.prop_mass_kg.to_bits());
    v.push(s.mass.dry_mass_kg.to_bits());
    v.push(s.srp.coeff_reflectivity.to_bits());
    v.push(s.drag.coeff_drag.to_bits());
    v.push(s.orbit.epoch.to_tai_duration().total_nanoseconds() as u64);
    v
}

/// Two body dynamics which delay each run by a random amount, and fail the runs of a high enough reflectivity.
#[derive(Clone)]
struct Chaos {
    inner: SpacecraftDynamics,
    delay_us: u64,
    fail_above: f64,
    trace: Arc<Mutex<Vec<u64>>>,
    calls: Arc<AtomicU64>,
}
impl Dynamics for Chaos {
    type HyperdualSize = Const<9>;
    type StateType = Spacecraft;
    fn eom(&self, dt: f64, v: &OVector<f64, Const<90>>, ctx: &Spacecraft, a: &Almanac) -> Result<OVector<f64, Const<90>>, DynamicsError> {
        let n = self.calls.fetch_add(1, Ordering::Relaxed);
        let id = ctx.srp.coeff_reflectivity.to_bits();
        {
            let mut t = self.trace.lock().unwrap();
            if t.last() != Some(&id) {
                t.push(id);
            }
        }
        if self.delay_us > 0 && n % 7 == 0 {
            let h = id.wrapping_mul(0x9E3779B97F4A7C15) >> 40;
            std::thread::sleep(std::time::Duration::from_micros(h % self.delay_us));
        }
        if ctx.srp.coeff_reflectivity > self.fail_above {
            return Err(DynamicsError::MasslessSpacecraft);
        }
        self.inner.eom(dt, v, ctx, a)
    }
}

fn rd(p: &std::path::Path) -> arrow::record_batch::RecordBatch {
    let r = ParquetRecordBatchReaderBuilder::try_new(std::fs::File::open(p).unwrap()).unwrap().with_batch_size(1 << 20).build().unwrap();
    let b: Vec<_> = r.map(|x| x.unwrap()).collect();
    arrow::compute::concat_batches(&b[0].schema(), &b).unwrap()
}

fn disp(c: &mut Case) -> Vec<StateDispersion> {
    let mut d = vec![StateDispersion::zero_mean(StateParameter::Cr(), 0.1)];
    if c.b(0.8) {
        d.push(StateDispersion::zero_mean(EL(OrbitalElement::SemiMajorAxis), c.f(0.1, 5.0)));
    }
    if c.b(0.5) {
        d.push(StateDispersion::zero_mean(EL(OrbitalElement::Inclination), c.f(1e-4, 1e-2)));
    }
    if c.b(0.3) {
        d.push(StateDispersion::zero_mean(EL(OrbitalElement::VX), c.f(1e-5, 1e-3)));
    }
    d
}

fn c22() -> ! {
    let mut m = Mon::new("C22", "Monte Carlo: reproducible, exactly once per index, isolated failures, resume, reports");
    m.assume("the runs are compared with single threaded propagations of the same states");
    m.group("states", 150, 3000, |c| {
        let o = leo(c);
        let s = sc(c, o);
        let d = disp(c);
        let seed = c.rng_u128();
        let (skip, n) = (c.u(0, 20), c.u(0, 30));
        let mk = || MonteCarlo::new(s, MvnSpacecraft::new(s, d.clone()).unwrap(), "t".into(), Some(seed));
        let mc = mk();
        let all = mc.generate_states(0, skip + n, Some(seed));
        let again = mk().generate_states(0, skip + n, Some(seed));
        let part = mc.generate_states(skip, n, Some(seed));
        c.check("count", all.len() == skip + n && part.len() == n, || format!("{} {}", all.len(), part.len()));
        c.check("indices", all.iter().enumerate().all(|(i, (k, _))| i == *k), || "indices".into());
        c.check("reproducible", all.iter().zip(&again).all(|((i, a), (j, b))| i == j && bits(&a.state) == bits(&b.state)), || "same seed, other states".into());
        c.check("resume", part.iter().zip(all.iter().skip(skip)).all(|((_, a), (_, b))| bits(&a.state) == bits(&b.state)), || "the resumed states are not the tail of the full run".into());
        let u: std::collections::HashSet<_> = all.iter().map(|(_, a)| bits(&a.state)).collect();
        c.check("independent-draws", u.len() == all.len(), || "repeated states".into());
        if n > 0 {
            let other = mc.generate_states(0, skip + n, Some(seed ^ 6));
            c.check("other-seed", all.iter().zip(&other).all(|((_, a), (_, b))| bits(&a.state) != bits(&b.state)), || "another seed gave the same states".into());
            let other = mc.generate_states(0, skip + n, Some(seed ^ (1 << c.u(3, 127))));
            c.check("other-seed", all.iter().zip(&other).all(|((_, a), (_, b))| bits(&a.state) != bits(&b.state)), || "another seed gave the same states".into());
            let (r1, r2) = (mc.generate_states(0, n, None), mc.generate_states(0, n, None));
            c.check("unseeded", r1.iter().zip(&r2).all(|((_, a), (_, b))| bits(&a.state) != bits(&b.state)), || "unseeded runs are not random".into());
        }
        c.check("untouched", all.iter().all(|(_, a)| a.state.epoch() == s.epoch() && a.state.mass.dry_mass_kg == s.mass.dry_mass_kg && a.state.orbit.frame == s.orbit.frame && a.state.srp.area_m2 == s.srp.area_m2), || "a property which is not dispersed changed".into());
        c.obs("states", all.len() as u64);
        c.nontrivial();
    });
    m.group_w("runs", 24, 250, 4, |c| {
        let o = leo(c);
        let s = sc(c, o);
        let d = disp(c);
        let seed = c.rng_u128();
        let (skip, n) = (c.u(0, 6), c.u(1, 24));
        let threads = c.pick(&[1usize, 2, 3, 8, 16]);
        c.p("threads", threads);
        c.p("n", n);
        let trace = Arc::new(Mutex::new(vec![]));
        let ch = Chaos {
            inner: SpacecraftDynamics::new(OrbitalDynamics::two_body()),
            delay_us: c.pick(&[0u64, 20, 300]),
            fail_above: s.srp.coeff_reflectivity + c.pick(&[0.05, 0.15, 10.0, -10.0]),
            trace: trace.clone(),
            calls: Arc::new(AtomicU64::new(0)),
        };
        let opts = IntegratorOptions::with_fixed_step_s(60.0);
        let end = o.epoch + c.f(300.0, 1500.0) * Unit::Second * if c.b(0.3) { -1.0 } else { 1.0 };
        let mc = MonteCarlo::new(s, MvnSpacecraft::new(s, d.clone()).unwrap(), "runs".into(), Some(seed));
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        let prop = Propagator::new(ch.clone(), IntegratorMethod::DormandPrince45, opts);
        let res = pool.install(|| mc.resume_run_until_epoch(prop.clone(), almanac(), skip, end, n));
        let tr = trace.lock().unwrap().clone();
        let mut hs = std::collections::hash_map::DefaultHasher::new();
        std::hash::Hash::hash(&tr, &mut hs);
        c.p("schedule", std::hash::Hasher::finish(&hs));
        c.obs("context-switches", tr.len() as u64);
        let st = mc.generate_states(skip, n, Some(seed));
        let quiet = Chaos { delay_us: 0, ..ch.clone() };
        let qp = Propagator::new(quiet, IntegratorMethod::DormandPrince45, opts);
        c.check("count", res.runs.len() == n, || format!("{} of {n}", res.runs.len()));
        let (mut good, mut bad) = (0, 0);
        for (i, (run, (k, ds))) in res.runs.iter().zip(&st).enumerate() {
            c.check("in-order", run.index == *k && (i == 0 || run.index == res.runs[i - 1].index + 1), || format!("{} in place {i}", run.index));
            c.check("initial-state", bits(&run.dispersed_state.state) == bits(&ds.state), || "the run is not that of its dispersed state".into());
            let want = qp.with(ds.state, almanac()).until_epoch_with_traj(end);
            match (&run.result, want) {
                (Ok(g), Ok((w, t))) => {
                    good += 1;
                    c.check("final-state", bits(&g.state) == bits(&w), || format!("{} vs {w}", g.state));
                    c.check("trajectory", g.traj.states.len() == t.states.len() && g.traj.states.iter().zip(&t.states).all(|(a, b)| bits(a) == bits(b)), || "trajectory".into());
                }
                (Err(_), Err(_)) => bad += 1,
                (a, b) => c.fail("isolated-failures", format!("run {i} {} but alone {}", if a.is_ok() { "succeeded" } else { "failed" }, if b.is_ok() { "succeeds" } else { "fails" })),
            }
        }
        c.obs("successful-runs", good);
        c.obs("failed-runs", bad);
        // Reports
        if c.b(0.3) && skip == 0 {
            // From the start, with the other entry point
            let r0 = pool.install(|| MonteCarlo::new(s, MvnSpacecraft::new(s, d.clone()).unwrap(), "runs".into(), Some(seed)).run_until_epoch(prop.clone(), almanac(), end, n));
            c.check("run and resume", r0.runs.len() == n && r0.runs.iter().zip(&res.runs).all(|(a, b)| a.index == b.index && bits(&a.dispersed_state.state) == bits(&b.dispersed_state.state) && match (&a.result, &b.result) { (Ok(x), Ok(y)) => bits(&x.state) == bits(&y.state), (Err(_), Err(_)) => true, _ => false }), || "a run and its resumption from the start differ".into());
        }
        // including a parameter which is not available in (some of) these states
        let param = c.pick(&[EL(OrbitalElement::SemiMajorAxis), EL(OrbitalElement::X), StateParameter::Cr(), StateParameter::PropMass(), StateParameter::Isp(), StateParameter::ThrustX()]);
        c.p("param", param.to_string());
        let dflt = if c.b(0.5) { Some(-7.25) } else { None };
        let firsts = res.first_values_of(param, dflt);
        let lasts = res.last_values_of(param, dflt);
        let step = c.f(30.0, 200.0) * Unit::Second;
        let every = res.every_value_of(param, step, dflt);
        let (e0, e1) = if end > o.epoch { (o.epoch, end) } else { (end, o.epoch) };
        let (w0, w1) = (e0 + (e1 - e0) * c.f(-0.2, 0.5), e0 + (e1 - e0) * c.f(0.5, 1.3));
        let btw = res.every_value_of_between(param, step, w0, w1, dflt);
        let (mut f, mut l, mut ev, mut bt) = (vec![], vec![], vec![], vec![]);
        for run in &res.runs {
            match &run.result {
                Ok(r) => {
                    f.extend(r.traj.states[0].value(param).ok().or(dflt));
                    l.extend(r.traj.states.last().unwrap().value(param).ok().or(dflt));
                    let mut e = e0;
                    while e <= e1 {
                        ev.extend(r.traj.at(e).unwrap().value(param).ok().or(dflt));
                        e += step;
                    }
                    let mut e = w0.max(e0);
                    while e <= w1.min(e1) {
                        bt.extend(r.traj.at(e).unwrap().value(param).ok().or(dflt));
                        e += step;
                    }
                }
                Err(_) => {
                    if let Some(x) = dflt {
                        for v in [&mut f, &mut l, &mut ev, &mut bt] {
                            v.push(x);
                        }
                    }
                }
            }
        }
        c.check("first-values", firsts == f, || format!("{firsts:?} {f:?}"));
        c.check("last-values", lasts == l, || format!("{lasts:?} {l:?}"));
        c.check("every-value", every == ev, || format!("{} {}", every.len(), ev.len()));
        c.check("every-value-between", btw == bt, || format!("{} {}", btw.len(), bt.len()));
        let dv = res.dispersion_values_of(StateParameter::Cr());
        match dv {
            Ok(v) => c.check("dispersion-values", v.len() == n && v.iter().zip(&st).all(|(x, (_, d))| (x - (d.state.srp.coeff_reflectivity - s.srp.coeff_reflectivity)).abs() < 1e-12), || format!("{v:?}")),
            Err(e) => c.check("dispersion-values", false, || e.to_string()),
        };
        c.check("dispersion-unknown", res.dispersion_values_of(StateParameter::Isp()).is_err(), || "reported a parameter which was not dispersed".into());
        // Export
        let path = std::env::temp_dir().join(format!("nyxmon-mc-{}-{}.parquet", std::process::id(), c.idx));
        let with_step = c.b(0.5);
        let mut cfg = if with_step { ExportCfg::builder().step(step).build() } else { ExportCfg::default() };
        let (mut x0, mut x1) = (e0, e1);
        if with_step && c.b(0.5) {
            x0 = e0 + (e1 - e0) * c.f(0.0, 0.4);
            cfg.start_epoch = Some(x0);
        }
        if with_step && c.b(0.5) {
            x1 = e0 + (e1 - e0) * c.f(0.5, 1.0);
            cfg.end_epoch = Some(x1);
        }
        let out = res.to_parquet(&path, cfg);
        if good == 0 {
            c.check("export-without-success", out.is_err(), || "exported a Monte Carlo without a successful run".into());
        } else if c.check("export", out.is_ok(), || format!("{:?}", out.as_ref().err().map(|e| e.to_string()))) {
            let b = rd(&path);
            let idx = b.column_by_name("Monte Carlo Run Index").unwrap().as_any().downcast_ref::<Int32Array>().unwrap().clone();
            let ep = b.column_by_name("Epoch (UTC)").unwrap().as_any().downcast_ref::<StringArray>().unwrap().clone();
            let col = |n: &str| b.columns()[b.schema().fields().iter().position(|f| f.name().starts_with(n)).unwrap()].as_any().downcast_ref::<Float64Array>().unwrap().clone();
            let x = col("X (");
            let mut row = 0;
            let mut bad = None;
            let mut all: Vec<Spacecraft> = vec![];
            for run in &res.runs {
                let Ok(r) = &run.result else { continue };
                let states: Vec<Spacecraft> = if with_step {
                    let mut v = vec![];
                    let mut e = x0;
                    while e <= x1 {
                        v.push(r.traj.at(e).unwrap());
                        e += step;
                    }
                    v
                } else {
                    r.traj.states.clone()
                };
                all.extend(states.iter().copied());
                for s in &states {
                    if row >= idx.len()
                        || idx.value(row) != run.index as i32
                        || (x.value(row) - s.orbit.radius_km.x).abs() > 1e-9
                        || (ep.value(row).parse::<Epoch>().map(|e| (e - s.epoch()).abs() > 1.0 * Unit::Microsecond).unwrap_or(true))
                    {
                        bad.get_or_insert(row);
                    }
                    row += 1;
                }
            }
            for p in Spacecraft::export_params() {
                let want: Vec<Option<f64>> = all.iter().map(|s| s.value(p).ok()).collect();
                let Some(a) = b.column_by_name(&p.to_string()) else {
                    c.check("exported-columns", want.iter().all(|v| v.is_none()), || format!("{p} is missing"));
                    continue;
                };
                if let Some(a) = a.as_any().downcast_ref::<Float64Array>() {
                    let got: Vec<Option<f64>> = (0..a.len()).map(|i| a.is_valid(i).then(|| a.value(i))).collect();
                    c.check("exported-values", got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| match (g, w) { (Some(g), Some(w)) => (g - w).abs() <= 1e-9 * (1.0 + w.abs()), (None, None) => true, _ => false }), || format!("{p}: {got:?} instead of {want:?}"));
                    c.obs("exported-columns", 1);
                }
            }
            c.check("exported-rows", row == idx.len() && bad.is_none(), || format!("{row} rows expected, {} stored, first wrong {bad:?}", idx.len()));
        }
        let _ = std::fs::remove_file(&path);
        c.nontrivial();
    });
    m.group_w("events", 30, 240, 4, |c| {
        let e = epoch(c);
        let o = orbit(c, eme2k(), e, 0.4, 2.0);
        if o.ecc().unwrap() < 0.02 {
            c.skip("near circular");
            return;
        }
        let s = sc(c, o);
        let d = vec![StateDispersion::zero_mean(StateParameter::Cr(), 0.1), StateDispersion::zero_mean(EL(OrbitalElement::SemiMajorAxis), 10.0)];
        let seed = c.rng_u128();
        let n = c.u(2, 14);
        let nth = c.u(1, 4);
        let skip = c.u(0, 4);
        let ev = if c.b(0.5) { Event::apoapsis() } else { Event { scalar: ScalarExpr::Element(OrbitalElement::Declination), condition: Condition::Equals(0.0), epoch_precision: 0.1 * Unit::Second, ab_corr: None } };
        let opts = IntegratorOptions::builder().min_step(0.1 * Unit::Second).max_step(120.0 * Unit::Second).init_step(10.0 * Unit::Second).tolerance(1e-10).attempts(50).build();
        let mc = MonteCarlo::new(s, MvnSpacecraft::new(s, d).unwrap(), "ev".into(), Some(seed));
        // Some runs start late, so that they do not end in the order of their index.
        let st = mc.generate_states(skip, n, Some(seed));
        let late = st.iter().map(|(_, x)| (x.state.srp.coeff_reflectivity, if c.b(0.4) { c.u(2, 8) as u64 * 1000 } else { 0 })).collect();
        let prop = Propagator::rk89(SpacecraftDynamics::from_model(OrbitalDynamics::two_body(), Arc::new(Late { e0: o.epoch, late })), opts);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(c.pick(&[1usize, 4, 8, 8])).build().unwrap();
        let dur = o.period().unwrap() * c.f(0.5, 1.4 + nth as f64);
        let res = pool.install(|| mc.resume_run_until_nth_event(prop.clone(), almanac(), skip, dur, &ev, nth, n));
        c.check("count", res.runs.len() == n, || "count".into());
        let mut nok = 0;
        for (i, (run, (_, ds))) in res.runs.iter().zip(&st).enumerate() {
            c.check("in-order", run.index == i, || format!("{} at {i}", run.index));
            let w = prop.with(ds.state, almanac()).until_nth_event(dur, &ev, None, nth);
            match (&run.result, w) {
                (Ok(g), Ok((w, t))) => {
                    nok += 1;
                    c.check("event-state", bits(&g.state) == bits(&w), || format!("{} vs {w}", g.state));
                    c.check("event-trajectory", g.traj.states.len() == t.states.len() && g.traj.states.iter().zip(&t.states).all(|(a, b)| bits(a) == bits(b)), || "traj".into());
                }
                (Err(_), Err(_)) => {}
                _ => c.fail("isolated-failures", format!("run {i}")),
            }
        }
        c.obs("event-runs", nok);
        // each run is exported over its own span
        let path = std::env::temp_dir().join(format!("nyxmon-mce-{}-{}.parquet", std::process::id(), c.idx));
        if nok > 0 {
            let out = res.to_parquet(&path, ExportCfg::builder().step(60.0 * Unit::Second).build());
            if c.check("export", out.is_ok(), || "export".into()) {
                let b = rd(&path);
                let idx = b.column_by_name("Monte Carlo Run Index").unwrap().as_any().downcast_ref::<Int32Array>().unwrap().clone();
                for run in &res.runs {
                    let Ok(r) = &run.result else { continue };
                    let got = idx.iter().filter(|v| *v == Some(run.index as i32)).count();
                    let lo = ((r.state.epoch() - o.epoch).to_seconds() / 60.0).floor() as usize + 1;
                    let hi = ((r.traj.last().epoch() - o.epoch).to_seconds() / 60.0).floor() as usize + 1;
                    c.check("exported-span", (lo..=hi).contains(&got), || format!("run {} has {got} rows, expected {lo} to {hi}", run.index));
                }
            }
        }
        let _ = std::fs::remove_file(&path);
        c.nontrivial();
    });
    m.finish()
}

/// No force, but some runs (known by their Cr) are late to start.
struct Late {
    e0: Epoch,
    late: Vec<(f64, u64)>,
}
impl std::fmt::Display for Late {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "late")
    }
}
impl nyx_space::dynamics::ForceModel for Late {
    fn estimation_index(&self) -> Option<usize> {
        None
    }
    fn eom(&self, ctx: &Spacecraft, _: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
        if ctx.orbit.epoch == self.e0 {
            if let Some((_, us)) = self.late.iter().find(|(cr, us)| *cr == ctx.srp.coeff_reflectivity && *us > 0) {
                std::thread::sleep(std::time::Duration::from_micros(*us));
            }
        }
        Ok(Vector3::zeros())
    }
    fn gradient(&self, _: &Spacecraft, _: &Almanac) -> Result<(Vector3<f64>, nalgebra::Matrix4x3<f64>), DynamicsError> {
        Ok((Vector3::zeros(), nalgebra::Matrix4x3::zeros()))
    }
}

fn wrap180(x: f64) -> f64 {
    let y = x.rem_euclid(360.0);
    if y > 180.0 { y - 360.0 } else { y }
}

/// (mean, covariance) of samples
fn stats<const N: usize>(v: &[SVector<f64, N>]) -> (SVector<f64, N>, SMatrix<f64, N, N>) {
    let n = v.len() as f64;
    let mut mu = SVector::<f64, N>::zeros();
    for x in v {
        mu += x / n;
    }
    let mut p = SMatrix::<f64, N, N>::zeros();
    for x in v {
        let d = x - mu;
        p += d * d.transpose() / (n - 1.0);
    }
    (mu, p)
}

fn delta(a: &Spacecraft, s: &Spacecraft) -> SVector<f64, 9> {
    let d = a.orbit.radius_km - s.orbit.radius_km;
    let w = a.orbit.velocity_km_s - s.orbit.velocity_km_s;
    SVector::<f64, 9>::from_iterator([d.x, d.y, d.z, w.x, w.y, w.z, a.srp.coeff_reflectivity - s.srp.coeff_reflectivity, a.drag.coeff_drag - s.drag.coeff_drag, a.mass.prop_mass_kg - s.mass.prop_mass_kg])
}

fn c23() -> ! {
    let mut m = Mon::new("C23", "dispersions follow the requested means and standard deviations; dispersed states match the reported dispersions");
    m.assume("statistics over 3000 samples, six standard errors of tolerance; dispersions small enough for the linear map");
    const NS: usize = 3000;
    let z = 6.5;
    m.group("elements", 60, 800, move |c| {
        let e = epoch(c);
        let o = orbit(c, eme2k(), e, 0.5, 2.0);
        if o.ecc().unwrap() < 0.05 || o.inc_deg().unwrap() < 5.0 || o.inc_deg().unwrap() > 175.0 {
            c.skip("ill defined angles");
            return;
        }
        let s = sc(c, o);
        let menu: Vec<(StateParameter, f64, bool)> = vec![
            (EL(OrbitalElement::SemiMajorAxis), 0.1, false),
            (EL(OrbitalElement::Eccentricity), 1e-5, false),
            (EL(OrbitalElement::Inclination), 1e-3, true),
            (EL(OrbitalElement::RAAN), 1e-3, true),
            (EL(OrbitalElement::AoP), 1e-3, true),
            (EL(OrbitalElement::TrueAnomaly), 1e-3, true),
        ];
        let cart: Vec<(StateParameter, f64, bool)> = vec![
            (EL(OrbitalElement::X), 0.5, false),
            (EL(OrbitalElement::Y), 0.5, false),
            (EL(OrbitalElement::Z), 0.5, false),
            (EL(OrbitalElement::VX), 1e-3, false),
            (EL(OrbitalElement::VY), 1e-3, false),
            (EL(OrbitalElement::VZ), 1e-3, false),
        ];
        let others: Vec<(StateParameter, f64, bool)> = vec![(StateParameter::Cr(), 0.1, false), (StateParameter::Cd(), 0.2, false), (StateParameter::PropMass(), 3.0, false)];
        let mut chosen = vec![];
        let base = if c.b(0.6) { menu } else { cart };
        for p in base {
            if c.b(0.5) {
                chosen.push(p);
            }
        }
        if chosen.is_empty() && c.b(0.7) {
            chosen.push((EL(OrbitalElement::Rmag), 0.5, false));
        }
        for p in others {
            if c.b(0.4) {
                let at = c.u(0, chosen.len());
                chosen.insert(at, p);
            }
        }
        if chosen.is_empty() {
            c.skip("nothing to disperse");
            return;
        }
        let zero = c.b(0.3);
        let mut want = vec![];
        let mut ds = vec![];
        for (p, sc_, ang) in &chosen {
            let sd = sc_ * c.f(0.2, 1.0);
            let mean = sc_ * c.f(-2.0, 2.0);
            let kind = c.u(0, 3);
            let d = match kind {
                0 => StateDispersion { param: *p, mean: None, std_dev: Some(sd) },
                1 => StateDispersion { param: *p, mean: Some(mean), std_dev: None },
                _ => StateDispersion { param: *p, mean: Some(mean), std_dev: Some(sd) },
            };
            want.push((*p, if zero { 0.0 } else { d.mean.unwrap_or(0.0) }, d.std_dev.unwrap_or(0.0), *sc_, *ang));
            ds.push(d);
        }
        c.p("dispersions", format!("{want:?}"));
        let g = ok!(c, "construct", if zero { MvnSpacecraft::zero_mean(s, ds) } else { MvnSpacecraft::new(s, ds) });
        let seed = c.rng_u128();
        let samples: Vec<_> = (&g).sample_iter(Pcg64Mcg::new(seed)).take(NS).collect();
        let n = NS as f64;
        let mut cols: Vec<Vec<f64>> = vec![];
        for (k, (p, mean, sd, scale, ang)) in want.iter().enumerate() {
            let v0 = s.value(*p).unwrap();
            // the dispersions are those of the linear map: gradient of the parameter (computed by ANISE)
            let mut grad = SVector::<f64, 9>::zeros();
            match p {
                StateParameter::Element(oe) => {
                    let g = anise::astro::orbit_gradient::OrbitGrad::from(o).partial_for(*oe).unwrap();
                    for (i, x) in [g.wrt_x(), g.wrt_y(), g.wrt_z(), g.wrt_vx(), g.wrt_vy(), g.wrt_vz()].into_iter().enumerate() {
                        grad[i] = x;
                    }
                }
                StateParameter::Cr() => grad[6] = 1.0,
                StateParameter::Cd() => grad[7] = 1.0,
                _ => grad[8] = 1.0,
            }
            let vals: Vec<f64> = samples.iter().map(|x| grad.dot(&delta(&x.state, &s))).collect();
            let mu = vals.iter().sum::<f64>() / n;
            let sg = (vals.iter().map(|x| (x - mu).powi(2)).sum::<f64>() / (n - 1.0)).sqrt();
            let lin = 2e-3 * scale;
            c.near("mean", mu, *mean, z * sd / n.sqrt() + lin);
            c.near("std-dev", sg, *sd, z * sd / (2.0 * n).sqrt() + lin);
            for x in samples.iter().take(30) {
                let (pp, a) = &x.actual_dispersions[k];
                let mut d = x.state.value(*p).unwrap() - v0;
                let mut a = *a;
                if *ang {
                    d = wrap180(d);
                    a = wrap180(a);
                }
                c.check("reported-dispersion", pp == p && (a - d).abs() <= 1e-9 * (1.0 + v0.abs()), || format!("{pp} reported {a:e} but the state moved by {d:e}"));
            }
            cols.push(vals);
        }
        // independent parameters
        for i in 0..cols.len() {
            for j in 0..i {
                if want[i].2 == 0.0 || want[j].2 == 0.0 {
                    continue;
                }
                let (mi, mj) = (cols[i].iter().sum::<f64>() / n, cols[j].iter().sum::<f64>() / n);
                let cv = cols[i].iter().zip(&cols[j]).map(|(a, b)| (a - mi) * (b - mj)).sum::<f64>() / n;
                c.near("independence", cv / (want[i].2 * want[j].2), 0.0, z / n.sqrt() + 0.1);
            }
        }
        // what was not requested stays
        let has = |q: StateParameter| want.iter().any(|w| w.0 == q);
        for x in samples.iter().take(50) {
            c.check("coefficients-untouched", (has(StateParameter::Cr()) || x.state.srp.coeff_reflectivity == s.srp.coeff_reflectivity) && (has(StateParameter::Cd()) || x.state.drag.coeff_drag == s.drag.coeff_drag) && (has(StateParameter::PropMass()) || x.state.mass.prop_mass_kg == s.mass.prop_mass_kg), || "a parameter which was not dispersed changed".into());
            c.check("dry-mass-and-epoch", x.state.mass.dry_mass_kg == s.mass.dry_mass_kg && x.state.epoch() == s.epoch(), || "dry mass".into());
            let orb = want.iter().any(|w| matches!(w.0, StateParameter::Element(_)));
            c.check("orbit-untouched", orb || x.state.orbit == s.orbit, || "the orbit changed".into());
        }
        c.obs("samples", NS as u64);
        c.nontrivial();
    });
    m.group("covariance", 50, 600, move |c| {
        let o = leo(c);
        let s = sc(c, o);
        // random covariance, possibly rank deficient, in very different units
        let rank = c.u(1, 9);
        let scale = [1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-3, 0.1, 0.1, 1.0];
        let mut a = SMatrix::<f64, 9, 9>::zeros();
        for i in 0..9 {
            for j in 0..rank {
                a[(i, j)] = scale[i] * c.gauss();
            }
        }
        let diag = c.b(0.3);
        let mut cov = a * a.transpose();
        if diag {
            for i in 0..9 {
                for j in 0..9 {
                    if i != j {
                        cov[(i, j)] = 0.0;
                    } else if i >= rank {
                        cov[(i, i)] = 0.0;
                    }
                }
            }
        }
        let mut mean = SVector::<f64, 9>::zeros();
        if c.b(0.5) {
            for i in 0..9 {
                mean[i] = scale[i] * c.f(-3.0, 3.0);
            }
        }
        c.p("rank", rank);
        let via = c.b(0.4);
        let g = if via {
            let mut est = KfEstimate::from_covar(s, cov);
            est.set_state_deviation(mean);
            ok!(c, "to-random-variable", est.to_random_variable())
        } else {
            ok!(c, "construct", MvnSpacecraft::from_spacecraft_cov(s, cov, mean))
        };
        let seed = c.rng_u128();
        let v: Vec<SVector<f64, 9>> = (&g).sample_iter(Pcg64Mcg::new(seed)).take(NS).map(|x| delta(&x.state, &s)).collect();
        let (mu, p) = stats(&v);
        let n = NS as f64;
        for i in 0..9 {
            let sd = cov[(i, i)].sqrt();
            let rd = 1e-11 * [7e3, 7e3, 7e3, 8.0, 8.0, 8.0, 2.0, 2.0, 1e3][i];
            c.near("mean", mu[i], mean[i], z * sd / n.sqrt() + rd + 1e-6 * scale[i]);
            for j in 0..=i {
                let (si, sj) = (sd, cov[(j, j)].sqrt());
                c.near("covariance", p[(i, j)], cov[(i, j)], z * 1.42 * si * sj / n.sqrt() + 1e-6 * scale[i] * scale[j] + rd * rd);
            }
        }
        let names = [EL(OrbitalElement::X), EL(OrbitalElement::Y), EL(OrbitalElement::Z), EL(OrbitalElement::VX), EL(OrbitalElement::VY), EL(OrbitalElement::VZ), StateParameter::Cr(), StateParameter::Cd(), StateParameter::PropMass()];
        for (i, nme) in names.iter().enumerate() {
            if let Some(d) = g.dispersions.iter().find(|d| d.param == *nme) {
                c.near("recorded-std-dev", d.std_dev.unwrap_or(0.0), cov[(i, i)].sqrt(), 1e-9 * scale[i] + 1e-9 * cov[(i, i)].sqrt());
            }
        }
        for x in (&g).sample_iter(Pcg64Mcg::new(seed)).take(20) {
            let d = delta(&x.state, &s);
            for (q, a) in &x.actual_dispersions {
                let i = names.iter().position(|n| n == q).unwrap();
                c.near("reported-dispersion", *a, d[i], 1e-9);
            }
        }
        c.obs("samples", NS as u64);
        c.nontrivial();
    });
    m.group("not-psd", 40, 300, |c| {
        let o = leo(c);
        let s = sc(c, o);
        let mut a = SMatrix::<f64, 9, 9>::zeros();
        for i in 0..9 {
            for j in 0..9 {
                a[(i, j)] = c.gauss();
            }
        }
        let mut cov = a * a.transpose();
        let k = c.u(0, 8);
        cov[(k, k)] = -c.f(0.1, 5.0);
        c.check("refused", MvnSpacecraft::from_spacecraft_cov(s, cov, SVector::zeros()).is_err(), || "accepted an indefinite covariance".into());
        let p = c.pick(&[StateParameter::Isp(), StateParameter::Thrust(), StateParameter::Epoch(), StateParameter::DryMass(), StateParameter::GuidanceMode()]);
        c.check("refused-parameter", MvnSpacecraft::new(s, vec![StateDispersion::zero_mean(p, 1.0)]).is_err(), || format!("dispersed {p}"));
        c.nontrivial();
    });
    m.group("estimate", 60, 600, move |c| {
        // the dispersed estimates
        let o = leo(c);
        let mut s = sc(c, o);
        s.srp.coeff_reflectivity = c.f(0.9, 1.1);
        let sd = [c.f(0.1, 1.0), c.f(1e-4, 1e-3), c.f(0.01, 0.1)];
        let mean = [c.f(-3.0, 3.0), c.f(-3e-3, 3e-3), c.f(-0.3, 0.3)];
        let ds: Vec<StateDispersion> = vec![
            StateDispersion { param: EL(OrbitalElement::X), mean: Some(mean[0]), std_dev: Some(sd[0]) },
            StateDispersion { param: EL(OrbitalElement::VY), mean: Some(mean[1]), std_dev: Some(sd[1]) },
            StateDispersion { param: StateParameter::Cr(), mean: Some(mean[2]), std_dev: Some(sd[2]) },
        ];
        let n = 300;
        let mut acc = [0.0; 3];
        for k in 0..n {
            let seed = c.rng_u128();
            let e = ok!(c, "estimate", KfEstimate::from_dispersions(s, ds.clone(), Some(seed)));
            let st = e.state();
            let d = delta(&st, &s);
            acc[0] += d[0];
            acc[1] += d[4];
            acc[2] += d[6];
            if k < 5 {
                let e2 = KfEstimate::from_dispersions(s, ds.clone(), Some(seed)).unwrap();
                c.check("reproducible", e2.state_deviation() == e.state_deviation(), || "other deviation for the same seed".into());
                c.check("nominal", bits(&e.nominal_state()) == bits(&s), || "the nominal state changed".into());
                for i in 0..9 {
                    c.near("three-sigma", e.covar()[(i, i)].sqrt(), 3.0 * e.state_deviation()[i].abs(), 1e-12 + 1e-9 * d[i].abs());
                    for j in 0..i {
                        c.near("diagonal", e.covar()[(i, j)], 0.0, 0.0);
                    }
                }
                c.check("within", e.within_3sigma(), || "deviation beyond its own three sigmas".into());
            }
        }
        for i in 0..3 {
            c.near("mean", acc[i] / n as f64, mean[i], z * sd[i] / (n as f64).sqrt() + 1e-9);
        }
        c.nontrivial();
    });
    m.group("helpers", 20, 200, move |c| {
        let mut rng = Pcg64Mcg::new(c.rng_u128());
        let n = 3000;
        let v: Vec<Vector3<f64>> = (0..n).map(|_| unit_vector_from_seed(&mut rng)).collect();
        c.check("unit", v.iter().all(|x| (x.norm() - 1.0).abs() < 1e-12), || "not a unit vector".into());
        let (mu, p) = stats(&v);
        for i in 0..3 {
            c.near("sphere-mean", mu[i], 0.0, z * (1.0 / 3.0_f64).sqrt() / (n as f64).sqrt());
            c.near("sphere-variance", p[(i, i)], 1.0 / 3.0, z * 0.3 / (n as f64).sqrt());
            for j in 0..i {
                c.near("sphere-covariance", p[(i, j)], 0.0, z * 0.26 / (n as f64).sqrt());
            }
        }
        let dv = Vector3::new(c.f(-0.1, 0.1), c.f(-0.1, 0.1), c.f(0.01, 0.1));
        let sg = c.f(0.001, 0.02) * dv.norm();
        let w: Vec<f64> = (0..n).map(|_| dv_execution_error(&dv, dv, 0.0, 3.0 * sg, &mut rng).unwrap().dot(&dv.normalize())).collect();
        let mu = w.iter().sum::<f64>() / n as f64;
        let s = (w.iter().map(|x| (x - mu).powi(2)).sum::<f64>() / n as f64).sqrt();
        c.near("magnitude-mean", mu, dv.norm(), z * sg / (n as f64).sqrt());
        c.near("magnitude-sigma", s, sg, z * sg / (2.0 * n as f64).sqrt());
        let (a, b) = (nyx_space::mc::Dispersion::from_std_dev(StateParameter::Cr(), sg), nyx_space::mc::Dispersion::from_3std_dev(StateParameter::Cr(), 3.0 * sg));
        for (k, d) in [a, b].iter().enumerate() {
            c.near("normal dispersion mean", d.distr.mean(), 0.0, 1e-15);
            c.near(["one sigma", "three sigmas"][k], d.distr.std_dev(), sg, 1e-12 * sg);
            c.check("unbounded", d.bound_min.is_none() && d.bound_max.is_none() && d.param == StateParameter::Cr(), || "other dispersion".into());
        }
        c.check("bad-percentage", dv_execution_error(&dv, dv, 1.5, 0.0, &mut rng).is_err() && dv_execution_error(&dv, dv, -0.1, 0.0, &mut rng).is_err(), || "accepted".into());
        c.check("null-dv", dv_execution_error(&dv, Vector3::zeros(), 0.1, 0.0, &mut rng).is_err(), || "accepted".into());
        c.nontrivial();
    });
    let _: Option<OMatrix<f64, Const<1>, Const<1>>> = None;
    m.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C22") => c22(),
        Some("C23") => c23(),
        _ => std::process::exit(3),
    }
}
