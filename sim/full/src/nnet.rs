//! C18: networks: initial weights, blocks of parameters, failing parts.
use crate::util::*;
use dst::prng::{mix2, Prng};
use dst::sched::{call_point, outside};
use dst::{ensure, fail, stat, step, Act, Caught, Ctx, Fault, Kind, Plan, Stream, Verdict};
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::nnet::net_layer::{Linear, NetLayer};
use rusty_machine::learning::nnet::{BCECriterion, BaseNeuralNet, Criterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::toolkit::activ_fn::{self, Sigmoid, Tanh};
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::{LearningResult, SupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix, MatrixSlice};
use std::cell::RefCell;
use std::rc::Rc;

type M = (usize, usize, Vec<u64>);
fn m(x: &Matrix<f64>) -> M {
    (x.rows(), x.cols(), bits(x.data()))
}
fn sl(x: &MatrixSlice<f64>) -> (usize, usize, Vec<f64>) {
    let mut v = Vec::with_capacity(x.rows() * x.cols());
    for i in 0..x.rows() {
        for j in 0..x.cols() {
            v.push(x[[i, j]]);
        }
    }
    (x.rows(), x.cols(), v)
}

/// One call received by a layer.
#[derive(Clone, Debug)]
enum Ev {
    Forward { layer: usize, params: (usize, usize, Vec<u64>), input: M, output: Option<M> },
    Back { layer: usize, what: &'static str, params: (usize, usize, Vec<u64>), out_grad: M, input: M, output: M, result: M },
}

#[derive(Debug, Default)]
struct Log {
    ev: Vec<Ev>,
    /// what default_params returned, layer by layer
    initial: Vec<Vec<f64>>,
}
type Shared = Rc<RefCell<Log>>;

/// A layer of any parameter shape: out[r][j] depends on every input of row r
/// and on every parameter.
#[derive(Debug)]
struct Odd {
    shape: (usize, usize),
    out: usize,
    id: usize,
}
impl NetLayer for Odd {
    fn forward(&self, x: &Matrix<f64>, p: MatrixSlice<f64>) -> LearningResult<Matrix<f64>> {
        outside(|| {
            let s: f64 = sl(&p).2.iter().enumerate().map(|(i, v)| v * (1.0 + i as f64)).sum();
            let v = rows(x).iter().flat_map(|r| {
                let t: f64 = r.iter().enumerate().map(|(i, v)| v * (0.5 + i as f64)).sum();
                (0..self.out).map(move |j| (0.1 * t + s + 0.3 * j as f64).sin()).collect::<Vec<_>>()
            }).collect::<Vec<f64>>();
            Ok(Matrix::new(x.rows(), self.out, v))
        })
    }
    fn back_input(&self, g: &Matrix<f64>, x: &Matrix<f64>, _: &Matrix<f64>, _: MatrixSlice<f64>) -> Matrix<f64> {
        outside(|| Matrix::new(x.rows(), x.cols(), (0..x.rows() * x.cols()).map(|i| 0.01 * i as f64 + g.data().iter().sum::<f64>() * 0.5).collect::<Vec<_>>()))
    }
    fn back_params(&self, g: &Matrix<f64>, _: &Matrix<f64>, _: &Matrix<f64>, _: MatrixSlice<f64>) -> Matrix<f64> {
        outside(|| Matrix::new(self.shape.0, self.shape.1, (0..self.shape.0 * self.shape.1).map(|i| (self.id * 100 + i) as f64 + g.data().iter().sum::<f64>()).collect::<Vec<_>>()))
    }
    fn default_params(&self) -> Vec<f64> {
        outside(|| (0..self.shape.0 * self.shape.1).map(|i| ((self.id + 1) * 1000 + i) as f64 * 1e-3).collect())
    }
    fn param_shape(&self) -> (usize, usize) {
        self.shape
    }
}

/// Records and passes on, or fails.
#[derive(Debug)]
struct Spy {
    layer: usize,
    inner: Box<dyn NetLayer>,
    log: Shared,
}

fn hurt(act: Option<Act>, mut x: Matrix<f64>) -> Matrix<f64> {
    let v = match act {
        Some(Act::Nan) => f64::NAN,
        Some(Act::Inf) => f64::INFINITY,
        _ => return x,
    };
    if !x.data().is_empty() {
        x.mut_data()[0] = v;
    }
    x
}

impl NetLayer for Spy {
    fn forward(&self, x: &Matrix<f64>, p: MatrixSlice<f64>) -> LearningResult<Matrix<f64>> {
        let act = call_point();
        let params = outside(|| {
            let q = sl(&p);
            (q.0, q.1, bits(&q.2))
        });
        let r = if let Some(Act::Err) = act { Err(Error::new(ErrorKind::InvalidData, "injected")) } else { self.inner.forward(x, p).map(|y| hurt(act, y)) };
        outside(|| {
            let output = r.as_ref().ok().map(m);
            self.log.borrow_mut().ev.push(Ev::Forward { layer: self.layer, params, input: m(x), output });
        });
        r
    }
    fn back_input(&self, g: &Matrix<f64>, x: &Matrix<f64>, y: &Matrix<f64>, p: MatrixSlice<f64>) -> Matrix<f64> {
        let act = call_point();
        let q = outside(|| sl(&p));
        let r = hurt(act, self.inner.back_input(g, x, y, p));
        outside(|| self.log.borrow_mut().ev.push(Ev::Back { layer: self.layer, what: "back_input", params: (q.0, q.1, bits(&q.2)), out_grad: m(g), input: m(x), output: m(y), result: m(&r) }));
        r
    }
    fn back_params(&self, g: &Matrix<f64>, x: &Matrix<f64>, y: &Matrix<f64>, p: MatrixSlice<f64>) -> Matrix<f64> {
        let act = call_point();
        let q = outside(|| sl(&p));
        let r = hurt(act, self.inner.back_params(g, x, y, p));
        outside(|| self.log.borrow_mut().ev.push(Ev::Back { layer: self.layer, what: "back_params", params: (q.0, q.1, bits(&q.2)), out_grad: m(g), input: m(x), output: m(y), result: m(&r) }));
        r
    }
    fn default_params(&self) -> Vec<f64> {
        call_point();
        let v = self.inner.default_params();
        outside(|| {
            let mut l = self.log.borrow_mut();
            l.initial.push(v.clone());
        });
        v
    }
    fn param_shape(&self) -> (usize, usize) {
        self.inner.param_shape()
    }
}

/// What the optimiser saw and did.
#[derive(Debug, Default)]
struct AlgLog {
    start: Vec<f64>,
    calls: Vec<(Vec<f64>, f64, Vec<f64>, usize, usize)>,
    done: Option<Vec<f64>>,
    /// (analytic, numeric) gradients of all rows together
    checked: Vec<(f64, f64)>,
}

#[derive(Debug)]
struct Alg {
    seed: u64,
    calls: usize,
    numeric: bool,
    log: Rc<RefCell<AlgLog>>,
    ev: Shared,
}

impl<C: Criterion> OptimAlgorithm<BaseNeuralNet<C>> for Alg {
    fn optimize(&self, model: &BaseNeuralNet<C>, start: &[f64], x: &Matrix<f64>, y: &Matrix<f64>) -> Vec<f64> {
        let mut b = Prng::new(self.seed);
        self.log.borrow_mut().start = start.to_vec();
        let mut p = start.to_vec();
        for t in 0..self.calls {
            call_point();
            outside(|| {
                for v in p.iter_mut() {
                    *v += 0.2 * b.normal();
                }
            });
            let from = self.ev.borrow().ev.len();
            let (c, g) = model.compute_grad(&p, x, y);
            let to = self.ev.borrow().ev.len();
            outside(|| self.log.borrow_mut().calls.push((p.clone(), c, g.clone(), from, to)));
            if self.numeric && t == 0 {
                for i in 0..p.len() {
                    // costs are means over the rows, gradients sums
                    let n = x.rows() as f64;
                    let slope = |h: f64| {
                        let mut q = p.clone();
                        q[i] = p[i] + h;
                        let hi = model.compute_grad(&q, x, y).0;
                        q[i] = p[i] - h;
                        n * (hi - model.compute_grad(&q, x, y).0) / (2.0 * h)
                    };
                    let (fine, coarse) = (slope(1e-5), slope(2e-5));
                    // saturated outputs: the cost is too rough to differ
                    if (fine - coarse).abs() <= 1e-5 * (1.0 + fine.abs()) && n * c < 15.0 {
                        outside(|| self.log.borrow_mut().checked.push((g[i], fine)));
                    }
                }
            }
        }
        outside(|| self.log.borrow_mut().done = Some(p.clone()));
        p
    }
}

// -------------------------------------------------------------- initial law

fn weights_of<T, A>(n: &NeuralNet<T, A>, layers: usize) -> Vec<(usize, usize, Vec<f64>)>
where
    T: Criterion,
    A: OptimAlgorithm<BaseNeuralNet<T>>,
{
    (0..layers).map(|i| sl(&n.get_net_weights(i))).collect()
}

/// Weights of a new network by one of the public routes, linear layers only.
type Weights = Vec<(usize, usize, Vec<f64>)>;
fn fresh(route: u64, sizes: &[usize], twice: bool, plan: &Plan) -> Result<(Weights, Weights), Caught> {
    step(plan, || (fresh_once(route, sizes), if twice { fresh_once(route, sizes) } else { Vec::new() })).res
}
fn fresh_once(route: u64, sizes: &[usize]) -> Weights {
    let alg = || Alg { seed: 0, calls: 0, numeric: false, log: Default::default(), ev: Default::default() };
    let n = 2 * (sizes.len() - 1);
    match route {
        0 => weights_of(&NeuralNet::default(sizes), n).into_iter().step_by(2).collect(),
        1 => weights_of(&NeuralNet::mlp(sizes, MSECriterion::default(), alg(), Tanh), n).into_iter().step_by(2).collect(),
        2 => {
            let mut net = NeuralNet::new(BCECriterion::default(), alg());
            for s in sizes.windows(2) {
                net.add(Box::new(Linear::new(s[0], s[1])));
            }
            weights_of(&net, sizes.len() - 1)
        }
        3 => {
            let mut net = NeuralNet::new(MSECriterion::default(), alg());
            net.add_layers(sizes.windows(2).map(|s| Box::new(Linear::without_bias(s[0], s[1])) as Box<dyn NetLayer>));
            weights_of(&net, sizes.len() - 1)
        }
        _ => sizes.windows(2).map(|s| {
            let l = Linear::new(s[0], s[1]);
            (l.param_shape().0, l.param_shape().1, l.default_params())
        }).collect(),
    }
}

fn law(c: &mut Ctx) -> Verdict {
    let l = c.urange(2, 4);
    let sizes: Vec<usize> = (0..l).map(|_| if c.chance(1, 8) { c.urange(10, 40) } else { c.urange(1, 7) }).collect();
    let route = c.below(5);
    let trials = if c.thorough { 3000 } else { 500 };
    let seed = c.below(1 << 40);
    c.case(mix2(sizes.iter().fold(route, |a, s| mix2(a, *s as u64)), seed));
    c.note(|| format!("law of the initial weights, sizes {:?} by route {}, {} trials from {}", sizes, route, trials, seed));
    c.hit("experiments");
    c.add("trials", trials);
    c.nontrivial = true;
    let bias = (route != 3) as usize;
    let shapes: Vec<(usize, usize)> = sizes.windows(2).map(|s| (s[0] + bias, s[1])).collect();
    let total: usize = shapes.iter().map(|s| s.0 * s.1).sum();
    // all weights in units of the documented deviation
    let mut z: Vec<Vec<f64>> = vec![Vec::new(); shapes.len()];
    // every weight by itself, trial by trial (of large networks, some), and
    // those of the same network built again right after
    let again = c.chance(1, 2);
    let mut watch: Vec<(usize, usize, usize)> = Vec::new();
    for g in 0..=again as usize {
        for (i, s) in shapes.iter().enumerate() {
            watch.extend((0..s.0 * s.1).map(|j| (g, i, j)));
        }
    }
    {
        let (most, last) = (400, watch.len() - 1);
        let mut b = c.bulk();
        if last >= most {
            let ends: Vec<_> = watch.iter().cloned().filter(|w| w.2 < 2 || w.2 + 2 >= shapes[w.1].0 * shapes[w.1].1).collect();
            for i in 0..=last {
                let j = i + b.below((last - i + 1) as u64) as usize;
                watch.swap(i, j);
            }
            watch.truncate(most);
            watch.extend(ends);
            watch.sort();
            watch.dedup();
        }
    }
    let mut single: Vec<Vec<f64>> = vec![Vec::new(); watch.len()];
    // products with the next weight of the network, and with weights of the next layer
    let (mut next, mut pairs) = (0.0, 0u64);
    let (mut across, mut cross) = (0.0, 0u64);
    for t in 0..trials {
        let plan = Plan::new(Stream::plain(mix2(seed, t)));
        let (w, w2) = match fresh(route, &sizes, again, &plan) {
            Ok(w) => w,
            Err(e) => fail!("panic", "a network of sizes {:?} cannot be built: {}", sizes, caught(&e)),
        };
        ensure!(w2.len() == if again { w.len() } else { 0 } && w2.iter().zip(&w).all(|(a, b)| a.2.len() == b.2.len()), "shape", "two networks of sizes {:?} have weights of different shapes", sizes);
        ensure!(w.len() == shapes.len(), "shape", "a network of sizes {:?} has {} linear layers", sizes, w.len());
        let mut flat = Vec::with_capacity(total);
        for (i, (r, q, v)) in w.iter().enumerate() {
            ensure!((*r, *q) == shapes[i] && v.len() == r * q, "shape", "a network of sizes {:?} has weights of shape {}x{} ({} values) in layer {}", sizes, r, q, v.len(), i);
            let sd = (2.0 / (r + q) as f64).sqrt();
            let u: Vec<f64> = v.iter().map(|x| x / sd).collect();
            z[i].extend(&u);
            flat.push(u);
        }
        for (k, (g, i, j)) in watch.iter().enumerate() {
            single[k].push(if *g == 0 { flat[*i][*j] } else { w2[*i].2[*j] / (2.0 / (shapes[*i].0 + shapes[*i].1) as f64).sqrt() });
        }
        for i in 0..flat.len() {
            for j in 1..flat[i].len() {
                next += flat[i][j - 1] * flat[i][j];
                pairs += 1;
            }
            if i > 0 {
                for j in 0..flat[i].len().min(flat[i - 1].len()) {
                    across += flat[i][j] * flat[i - 1][j];
                    cross += 1;
                }
            }
        }
    }
    for (i, v) in z.iter_mut().enumerate() {
        let n = v.len() as f64;
        let var = v.iter().map(|x| x * x).sum::<f64>() / n;
        let zv = (var - 1.0) * (n / 2.0).sqrt();
        let mut u: Vec<f64> = v.iter().map(|x| stat::phi(*x)).collect();
        u.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        let (d, p) = stat::ks_p(&u);
        c.see_f(d);
        ensure!(p > P && zv.abs() < 8.5, "wrong-law", "the weights of layer {} ({}x{}) of a network of sizes {:?} do not follow N(0, 2/({}+{})): distance {:.4} (p={:e}), variance {:.4} of the documented one", i, shapes[i].0, shapes[i].1, sizes, shapes[i].0, shapes[i].1, d, p, var);
    }
    for (s, n, what) in [(next, pairs, "neighbouring weights"), (across, cross, "weights of neighbouring layers")] {
        if n > 0 {
            let z = s / (n as f64).sqrt();
            ensure!(z.abs() < 8.5, "dependent-weights", "{} of a network of sizes {:?} are correlated: {:.4} over {} pairs", what, sizes, s / n as f64, n);
        }
    }
    let place = |k: usize| format!("weight {} of layer {} of the {} network of sizes {:?}", watch[k].2, watch[k].1, ["first", "second"][watch[k].0], sizes);
    for (k, v) in single.iter().enumerate() {
        let mut u: Vec<f64> = v.iter().map(|x| stat::phi(*x)).collect();
        u.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        let (d, p) = stat::ks_p(&u);
        ensure!(p > P, "wrong-law", "{} does not follow N(0, 2/({}+{})): distance {:.4} (p={:e})", place(k), shapes[watch[k].1].0, shapes[watch[k].1].1, d, p);
    }
    for k in 1..single.len() {
        for l in 0..k {
            let s: f64 = single[k].iter().zip(&single[l]).map(|(x, y)| x * y).sum();
            let z = s / (trials as f64).sqrt();
            ensure!(z.abs() < 9.5, "dependent-weights", "{} and {} are correlated: {:.4} over {} trials", place(l), place(k), s / trials as f64, trials);
        }
    }
    c.add("probe.pairs_of_weights", (single.len() * (single.len() - 1) / 2) as u64);
    c.sample = Some(format!("law of the initial weights, sizes {:?}, route {}, {} trials", sizes, route, trials));
    Ok(())
}

// ------------------------------------------------------------------ blocks

struct Plan18 {
    /// kind, input and output width, odd shape
    layers: Vec<(u64, usize, usize, (usize, usize))>,
    mse: bool,
    reg: u64,
}

fn layer(k: &(u64, usize, usize, (usize, usize)), id: usize) -> Box<dyn NetLayer> {
    match k.0 {
        0 => Box::new(Linear::new(k.1, k.2)),
        1 => Box::new(Linear::without_bias(k.1, k.2)),
        2 => Box::new(Sigmoid),
        3 => Box::new(Tanh),
        4 => Box::new(activ_fn::Linear),
        _ => Box::new(Odd { shape: k.3, out: k.2, id }),
    }
}

fn reg(k: u64) -> Regularization<f64> {
    match k {
        0 => Regularization::L2(0.3),
        1 => Regularization::L1(0.2),
        2 => Regularization::ElasticNet(0.1, 0.4),
        _ => Regularization::None,
    }
}

fn shape(c: &mut Ctx, real: bool) -> Plan18 {
    let n = if c.chance(1, 8) { c.urange(6, 14) } else { c.urange(1, 5) };
    let mut w = c.urange(1, 4);
    let mut layers = Vec::new();
    for i in 0..n {
        let k = c.below(if real { 5 } else { 7 });
        let out = if k < 2 || k > 4 { c.urange(1, 4) } else { w };
        let s = (c.urange(if i % 2 == 0 { 1 } else { 0 }, 3), c.urange(1, 4));
        layers.push((k, w, out, s));
        w = out;
    }
    let mse = real && c.chance(2, 3) || !real && c.chance(4, 5);
    if !mse {
        // outputs between 0 and 1
        layers.push((2, w, w, (0, 0)));
    }
    Plan18 { layers, mse, reg: if real { 9 } else { c.below(6) } }
}

pub fn networks(c: &mut Ctx) -> Verdict {
    if c.chance(1, 200) {
        return law(c);
    }
    if c.chance(1, 8) {
        return routes(c);
    }
    let real = c.chance(1, 3);
    let s = shape(c, real);
    if s.mse { go(c, &s, real, MSECriterion::new(reg(s.reg))) } else { go(c, &s, real, BCECriterion::new(reg(s.reg))) }
}

/// The same layers give the same weights by every route, from one stream.
fn routes(c: &mut Ctx) -> Verdict {
    let l = if c.chance(1, 8) { c.urange(6, 10) } else { c.urange(2, 5) };
    let sizes: Vec<usize> = (0..l).map(|_| c.urange(1, 6)).collect();
    let mut plan = Plan::new(stream(c));
    draw_fault(c, &mut plan, 20);
    c.case(mix2(sizes.iter().fold(1, |a, s| mix2(a, *s as u64)), plan.stream.seed));
    c.note(|| format!("networks of sizes {:?} built in five ways, {:?} {:?}", sizes, plan.stream, plan.faults));
    let mut first: Option<Vec<(usize, usize, Vec<u64>)>> = None;
    for route in [0u64, 1, 2, 4] {
        memory(c);
        let r = fresh(route, &sizes, false, &plan).map(|w| w.0);
        memory_off();
        let w: Vec<(usize, usize, Vec<u64>)> = match r {
            Ok(w) => w.into_iter().map(|(r, q, v)| (r, q, bits(&v))).collect(),
            Err(Caught::Injected) => {
                c.hit("fault.rng_failure");
                return Ok(());
            }
            Err(e) => fail!("panic", "a network of sizes {:?} cannot be built: {}", sizes, caught(&e)),
        };
        for (i, q) in w.iter().enumerate() {
            c.see(q.2.iter().fold(i as u64, |a, b| mix2(a, *b)));
            ensure!((q.0, q.1) == (sizes[i] + 1, sizes[i + 1]) && q.2.len() == q.0 * q.1, "shape", "a network of sizes {:?} has weights of shape {}x{} in layer {}", sizes, q.0, q.1, i);
        }
        match &first {
            None => first = Some(w),
            Some(f) => ensure!(*f == w, "depends-on-route", "the weights of sizes {:?} built by route {} differ from those of `default` on the same stream", sizes, route),
        }
    }
    c.nontrivial = l > 2;
    c.hit("probe.routes_compared");
    Ok(())
}

fn go<C: Criterion + Copy>(c: &mut Ctx, s: &Plan18, real: bool, crit: C) -> Verdict {
    let ev: Shared = Default::default();
    let alog: Rc<RefCell<AlgLog>> = Default::default();
    let calls = c.urange(1, 2);
    let nl = s.layers.len();
    let what = format!("{:?}", s.layers.iter().map(|l| (["Linear", "Linear without bias", "Sigmoid", "Tanh", "identity", "odd", "odd"][l.0 as usize], l.1, l.2)).collect::<Vec<_>>());
    // numeric gradients cost many forward passes
    let numeric = real && c.chance(1, 2);
    let st = stream(c);
    let alg = Alg { seed: c.below(1 << 40), calls, numeric, log: alog.clone(), ev: ev.clone() };
    let mut net = NeuralNet::new(crit, alg);
    let n = c.urange(1, 4);
    let wrong = c.chance(1, 10);
    let mut b = c.bulk();
    let x = normal_matrix(&mut b, n, s.layers[0].1 + wrong as usize, 1.0);
    let wide = s.layers[nl - 1].2;
    let y = if s.mse { normal_matrix(&mut b, n, wide, 1.0) } else { Matrix::new(n, wide, (0..n * wide).map(|_| b.below(2) as f64).collect::<Vec<_>>()) };
    c.case(mix2(mix2(dst::prng::hash_str(&what), n as u64), st.seed));
    c.note(|| format!("layers {}, {} rows, criterion {} {:?}, {:?}", what, n, if s.mse { "MSE" } else { "BCE" }, reg(s.reg), st));
    // ---- build, in one or two batches, maybe failing
    let mut have = 0usize;
    let mut plan = Plan::new(st);
    if c.chance(1, 8) {
        plan.faults.push(Fault { kind: Kind::Call, at: c.below(nl as u64), act: Act::Panic });
    } else {
        draw_fault(c, &mut plan, 10);
    }
    let split = c.urange(0, nl);
    let spy = |i: usize| Box::new(Spy { layer: i, inner: layer(&s.layers[i], i), log: ev.clone() }) as Box<dyn NetLayer>;
    let mut failed = false;
    for part in 0..2 {
        let (a, z) = if part == 0 { (0, split) } else { (split, nl) };
        if a == z || failed {
            continue;
        }
        memory(c);
        let before = if have > 0 { weights_of(&net, have) } else { vec![] };
        let op = step(&plan, || {
            if part == 0 {
                net.add_layers((a..z).map(|i| spy(i)));
            } else {
                for i in a..z {
                    net.add(spy(i));
                }
            }
        });
        memory_off();
        if let Err(e) = &op.res {
            ensure!(op.fired > 0, "panic", "adding layers {}..{} of {}: {}", a, z, what, caught(e));
            note_fired(c, &plan, op.fired);
            c.hit("probe.construction_failed");
            failed = true;
        }
        have = ev.borrow().initial.len();
        ensure!(failed || have == z, "layers", "{}: {} layers asked for their parameters, {} added", what, have, z);
        if failed {
            // how many layers are there? At least the ones of before
            ev.borrow_mut().ev.clear();
            let probe = normal_matrix(&mut b, 1, s.layers[0].1, 1.0);
            let op = step(&Plan::new(st), || net.predict(&probe).is_ok());
            let most = have;
            have = ev.borrow().ev.len();
            ensure!(matches!(op.res, Ok(true)) && have >= before.len() && have <= most, "broken-by-failure", "{}: after adding layer {} failed, predict gives {:?} and runs {} layers", what, most, op.res.map_err(|e| caught(&e)), have);
        }
        let after = if have > 0 { weights_of(&net, have) } else { vec![] };
        for (i, w) in after.iter().enumerate() {
            let l = &s.layers[i];
            let want = layer(l, i).param_shape();
            ensure!((w.0, w.1) == want, "block", "{}: layer {} has weights of shape {}x{}", what, i, w.0, w.1);
            ensure!(bits(&w.2) == bits(&ev.borrow().initial[i]), "block", "{}: layer {} was created with {} but has {}", what, i, brief(&ev.borrow().initial[i]), brief(&w.2));
        }
        ensure!(before.iter().zip(&after).all(|(p, q)| bits(&p.2) == bits(&q.2)), "block", "{}: adding layers changed the weights of others", what);
        plan = Plan::new(Stream::plain(st.seed ^ 1));
    }
    if have == 0 {
        return Ok(());
    }
    // a network that could not be finished works with the layers it has
    let nl = have;
    let y = if failed {
        let wide = s.layers[nl - 1].2;
        normal_matrix(&mut b, n, wide, 1.0)
    } else {
        y
    };
    // ---- predict, train, predict.., each maybe with a failure
    let steps = c.urange(2, 5);
    let mut trained = 0;
    for t in 0..steps {
        let mut plan = Plan::new(stream(c));
        let is_train = t % 2 == 1;
        let points = if is_train { 3 * nl * calls + calls } else { nl };
        let faulty = c.chance(1, 3) && !wrong;
        if faulty {
            let act = *c.pick(&[Act::Panic, Act::Err, Act::Nan, Act::Inf]);
            plan.faults.push(Fault { kind: Kind::Call, at: c.below(points as u64), act });
        }
        let before = weights_of(&net, nl);
        let block = |p: &[f64], i: usize| -> Vec<u64> {
            let start: usize = before[..i].iter().map(|w| w.2.len()).sum();
            bits(&p[start..start + before[i].2.len()])
        };
        let flat: Vec<f64> = before.iter().flat_map(|w| w.2.clone()).collect();
        ev.borrow_mut().ev.clear();
        *alog.borrow_mut() = AlgLog::default();
        memory(c);
        let op = step(&plan, || if is_train { net.train(&x, &y).map(|_| None) } else { net.predict(&x).map(Some) });
        memory_off();
        note_fired(c, &plan, op.fired);
        let act = if op.fired > 0 { plan.faults.get(0).map(|f| f.act) } else { None };
        let after = weights_of(&net, nl);
        let log = ev.borrow();
        let al = alog.borrow();
        let doing = if is_train { "train" } else { "predict" };
        let ok = matches!(&op.res, Ok(Ok(_)));
        // ---- the calls themselves
        check_calls(&log.ev, &al, &what, is_train, &x, &flat, nl, &before, &block, &y, crit)?;
        match &op.res {
            Ok(Ok(Some(p))) => {
                ensure!(act != Some(Act::Err), "error-lost", "{}: a layer's forward failed, predict succeeded", what);
                let last = log.ev.last();
                let out = match last {
                    Some(Ev::Forward { output: Some(o), .. }) => o.clone(),
                    o => fail!("not-last-output", "{}: predict ends with {:?}", what, o),
                };
                ensure!(out == m(p), "not-last-output", "{}: predict gave {:?}, the last layer {:?}", what, p, out);
                for v in p.data() {
                    c.see_f(*v);
                }
            }
            Ok(Ok(None)) => {
                let done = al.done.clone().unwrap_or_default();
                ensure!(bits(&flat) == bits(&al.start), "wrong-start", "{}: training starts the optimiser from {}, the weights are {}", what, brief(&al.start), brief(&flat));
                let now: Vec<f64> = after.iter().flat_map(|w| w.2.clone()).collect();
                ensure!(bits(&now) == bits(&done), "weights-lost", "{}: the optimiser returned {}, the weights are {}", what, brief(&done), brief(&now));
                trained += 1;
                if act.is_none() {
                    for (g, want) in &al.checked {
                        let size = al.calls[0].1.abs();
                        if want.is_finite() && size < 50.0 {
                            ensure!((g - want).abs() <= 1e-4 * (1.0 + want.abs() + size), "wrong-gradient", "{}: training on {} rows uses the derivative {}, numerically it is {} (cost {})", what, n, g, want, size);
                            c.hit("probe.derivatives_checked");
                        }
                    }
                }
            }
            Ok(Err(e)) => {
                ensure!(act == Some(Act::Err) || wrong, "refuses", "{}: {} answers {:?}", what, doing, err_key(e));
                c.hit("probe.refused");
            }
            Err(e) => {
                ensure!(act.is_some() || wrong && is_train, "panic", "{}: {} fails with {}", what, doing, caught(e));
                c.hit("probe.failed");
            }
        }
        if !(ok && is_train) {
            ensure!(before.iter().zip(&after).all(|(p, q)| bits(&p.2) == bits(&q.2)), "weights-changed", "{}: {} {} the weights", what, doing, if ok { "changed" } else { "failed and changed" });
            c.hit("probe.weights_kept");
        }
    }
    c.nontrivial = nl >= 2 && trained > 0;
    c.sample = Some(format!("{} layers {}, {} steps", nl, what, steps));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_calls<C: Criterion>(
    ev: &[Ev],
    al: &AlgLog,
    what: &str,
    is_train: bool,
    x: &Matrix<f64>,
    flat: &[f64],
    nl: usize,
    before: &[(usize, usize, Vec<f64>)],
    block: &dyn Fn(&[f64], usize) -> Vec<u64>,
    y: &Matrix<f64>,
    crit: C,
) -> Verdict {
    // which stretch of calls used which weights
    let spans: Vec<(usize, usize, &[f64], Option<&Vec<f64>>)> = if is_train {
        al.calls.iter().map(|q| (q.3, q.4, &q.0[..], Some(&q.2))).collect()
    } else {
        vec![(0, ev.len(), flat, None)]
    };
    for (from, to, p, grad) in spans {
        let mut at = 0usize;
        let mut input = m(x);
        let mut ins: Vec<M> = vec![];
        let mut outs: Vec<M> = vec![];
        // the gradient at each layer's output
        let mut grads: Vec<Option<M>> = vec![None; nl];
        let mut blocks: Vec<Option<M>> = vec![None; nl];
        for e in &ev[from..to] {
            match e {
                Ev::Forward { layer, params, input: i, output } => {
                    ensure!(*layer == at && at < nl, "order", "{}: layer {} was run where layer {} was due", what, layer, at);
                    ensure!((params.0, params.1) == (before[at].0, before[at].1) && params.2 == block(p, at), "not-own-block", "{}: layer {} was given the parameters {:?} ({}x{}), not its own", what, layer, params.2.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>(), params.0, params.1);
                    ensure!(*i == input, "not-own-input", "{}: layer {} was given another input than the previous layer's output", what, layer);
                    ins.push(i.clone());
                    if let Some(o) = output {
                        input = o.clone();
                        outs.push(o.clone());
                    }
                    at += 1;
                }
                Ev::Back { layer, what: which, params, out_grad, input: i, output, result } => {
                    ensure!(outs.len() == nl, "order", "{}: {} of layer {} before the forward pass ended", what, which, layer);
                    ensure!(params.2 == block(p, *layer), "not-own-block", "{}: {} of layer {} was given parameters not its own", what, which, layer);
                    ensure!(*i == ins[*layer] && *output == outs[*layer], "not-own-input", "{}: {} of layer {} was given another input or output than its forward had", what, which, layer);
                    if *layer + 1 == nl {
                        let o = &outs[nl - 1];
                        let om = Matrix::new(o.0, o.1, o.2.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>());
                        grads[*layer] = Some(m(&crit.cost_grad(&om, y)));
                    }
                    match &grads[*layer] {
                        Some(want) => ensure!(*out_grad == *want, "not-own-gradient", "{}: {} of layer {} was given another gradient than layer {} passed back", what, which, layer, layer + 1),
                        None => fail!("order", "{}: {} of layer {} before the gradient reached it", what, which, layer),
                    }
                    if *which == "back_input" {
                        if *layer > 0 {
                            grads[*layer - 1] = Some(result.clone());
                        }
                    } else {
                        blocks[*layer] = Some(result.clone());
                    }
                }
            }
        }
        if let Some(g) = grad {
            // a completed call: every layer's gradient in its own block
            let mut want: Vec<f64> = Vec::new();
            for (i, b) in blocks.iter().enumerate() {
                match b {
                    Some(b) => want.extend(b.2.iter().map(|v| f64::from_bits(*v))),
                    None => ensure!(before[i].2.is_empty(), "not-own-gradient", "{}: layer {} was not asked for its gradient", what, i),
                }
            }
            if crit.is_regularized() && !want.is_empty() {
                let pm = Matrix::new(p.len(), 1, p.to_vec());
                let r = crit.reg_cost_grad(pm.as_slice());
                for (w, v) in want.iter_mut().zip(r.data()) {
                    *w += v;
                }
            }
            ensure!(bits(&want) == bits(g), "not-own-gradient", "{}: the optimiser was given the gradient {}, the layers' own are {}", what, brief(g), brief(&want));
        }
    }
    Ok(())
}
