//! C38: what calls leave behind does not grow.
use crate::lifecycle::{build_tuned, data_for, probe, snap, train};
use crate::threads::{gen_job, gen_like, gen_make, perform, Job, Make, Shared, What};
use crate::util::*;
use crate::zoo::{self, acts, gen_spec, Data};
use dst::alloc::live;
use dst::prng::{hash_str, mix2};
use dst::{ensure, Act, Ctx, Fault, Kind, Plan, Verdict};
use rusty_machine::linalg::{BaseMatrix, Matrix};

/// The bytes and blocks held after each of so many rounds.
fn rounds(n: usize, mut f: impl FnMut(usize)) -> Vec<(i64, i64)> {
    let mut held = Vec::with_capacity(n);
    for i in 0..n {
        f(i);
        held.push(live());
    }
    held
}

/// Rounds of the very same calls after which more was held each time.
fn grows(held: &[(i64, i64)]) -> bool {
    let last = &held[held.len() - 5..];
    last.windows(2).all(|w| w[1].0 > w[0].0)
}
/// Many rounds of the very same calls, with more held whenever their number
/// has doubled: something that makes room in advance.
fn creeps(held: &[(i64, i64)]) -> bool {
    held.len() > 64 && [4, 8, 16, 32].iter().all(|i| held[2 * i].0 > held[*i].0)
}
fn long(c: &mut Ctx) -> usize {
    if c.chance(1, 12) { 65 } else { 7 }
}
fn steps(held: &[(i64, i64)]) -> Vec<i64> {
    held.windows(2).map(|w| w[1].0 - w[0].0).collect()
}

fn failed(c: &mut Ctx, jobs: &[Job]) {
    let n = jobs.iter().filter(|j| !j.plan.faults.is_empty()).count();
    c.add("fault.planned", n as u64);
}

pub fn keeps(c: &mut Ctx) -> Verdict {
    match c.below(30) {
        0 => many(c),
        1..=10 => one_model(c),
        _ => repeated(c),
    }
}

/// The same calls over and over.
fn repeated(c: &mut Ctx) -> Verdict {
    let (mut makes, mut shared, mut widths) = (vec![], vec![], vec![]);
    if c.chance(1, 3) {
        let m = gen_make(c);
        if let Some(s) = m.make() {
            widths.push(match &m {
                Make::Model(s, _, d) => (d.x.cols(), Some(s.kind)),
                Make::MinMax(x) | Make::Standard(x) => (x.cols(), None),
            });
            makes.push(m);
            shared.push(s);
        }
    }
    let ask = !makes.is_empty();
    let n = c.urange(1, 2);
    let jobs: Vec<Job> = (0..n).map(|_| gen_job(c, &makes, &widths, ask, None)).collect();
    failed(c, &jobs);
    let brief = jobs.iter().map(|j| j.brief()).collect::<Vec<_>>().join("; ");
    c.note(|| format!("{}, over and over", brief));
    c.case(mix2(hash_str(&brief), jobs[0].plan.stream.seed));
    let times = long(c);
    let held = rounds(times, |_| {
        for j in &jobs {
            perform(j, &shared);
        }
    });
    c.hit("probe.repeated");
    c.nontrivial = true;
    c.see(jobs[0].plan.stream.seed);
    ensure!(!grows(&held) && !creeps(&held), "holds-more", "{}: repeated with the same arguments and draws, more and more memory is held afterwards: {:?} bytes", brief, steps(&held));
    c.sample = Some(format!("{}: {:?} bytes over {} rounds", brief, steps(&held[..7]), times));
    Ok(())
}

/// One model, trained (sometimes unsuccessfully) and asked over and over.
fn one_model(c: &mut Ctx) -> Verdict {
    let kind = *c.pick(&zoo::KINDS);
    let mut spec = gen_spec(c, kind);
    if kind == zoo::Kind::Net {
        spec.d = c.urange(1, 3);
        spec.t = c.urange(2, 3);
    }
    let n = c.urange(1, 3);
    let mut script: Vec<(Data, Plan, Matrix<f64>)> = Vec::new();
    for _ in 0..n {
        let bad = c.chance(1, 4);
        let d = data_for(c, &spec, bad);
        let mut p = Plan::new(stream(c));
        if c.chance(1, 3) {
            let k = *c.pick(&[Kind::Draw, Kind::Call, Kind::La]);
            let act = match k {
                Kind::Draw => Act::Panic,
                Kind::La => Act::Err,
                Kind::Call => *c.pick(acts(kind)),
            };
            p.faults.push(Fault { kind: k, at: c.below(12), act });
            c.hit("fault.planned");
        }
        let x = probe(c, d.x.cols(), kind);
        script.push((d, p, x));
    }
    // all of one width, lest a question is inadmissible
    let w = script[0].0.x.cols();
    script.retain(|s| s.0.x.cols() == w);
    let brief = script.iter().map(|(d, p, x)| format!("train on {}x{} ({}) {:?}, ask about {} rows", d.x.rows(), d.x.cols(), d.style, p.faults, x.rows())).collect::<Vec<_>>().join("; ");
    c.note(|| format!("{:?}: {}", spec, brief));
    c.case(mix2(hash_str(&brief), script[0].1.stream.seed));
    let mut m = build_tuned(&spec, &[]);
    let times = long(c);
    let held = rounds(times, |_| {
        for (d, p, x) in &script {
            train(&mut *m, d, p);
            snap(&*m, x);
        }
    });
    c.hit("probe.one_model");
    c.nontrivial = true;
    c.see(script[0].1.stream.seed);
    ensure!(!grows(&held) && !creeps(&held), "holds-more", "{:?}, the same model every time: {}: more and more memory is held: {:?} bytes", spec, brief, steps(&held));
    c.sample = Some(format!("{:?}: {}: {:?} bytes over {} rounds", spec, brief, steps(&held[..7]), times));
    Ok(())
}

/// Many different calls of one sort.
fn many(c: &mut Ctx) -> Verdict {
    let like = gen_like(c);
    let (n, block) = (if c.thorough { 360 } else { 120 }, if c.thorough { 120 } else { 40 });
    let jobs: Vec<Job> = (0..n).map(|_| gen_job(c, &[], &[], false, Some(like))).collect();
    failed(c, &jobs);
    let sort = match &jobs[0].what {
        What::Train(s, ..) => format!("{:?}", s.kind),
        _ => jobs[0].brief(),
    };
    c.note(|| format!("{} calls like {}", n, sort));
    c.case(mix2(hash_str(&sort), jobs[0].plan.stream.seed));
    let none: Vec<Shared> = vec![];
    let held = rounds(n, |i| {
        perform(&jobs[i], &none);
    });
    c.hit("probe.many");
    c.nontrivial = true;
    c.see(jobs[0].plan.stream.seed);
    let more = |a: usize| held[a + block - 1].0 > held[a].0 && held[a..a + block].windows(2).filter(|w| w[1].0 > w[0].0).count() > block / 4;
    ensure!(!(more(n - 2 * block) && more(n - block)), "holds-more", "{} different calls like {}: more and more memory is held: {:?} bytes", n, sort, held.iter().step_by(block / 4).map(|h| h.0 - held[0].0).collect::<Vec<_>>());
    c.sample = Some(format!("{} calls like {}: {} bytes more at the end", n, sort, held[n - 1].0 - held[1].0));
    Ok(())
}
