//! Simulations of the whole crate.
#[path = "../../core/src/elems.rs"]
mod elems;
mod confusion;
mod gmm;
mod keep;
mod kfold;
mod kmeans;
mod lifecycle;
mod nnet;
mod optim;
mod parts;
mod progress;
mod reuse;
mod shuffler;
mod svm;
mod threads;
mod transform;
mod util;
mod zoo;

use dst::runner::{main as run, Prop};

const REAL: &str = "the whole of /repo's crate, and rand 0.4.6's Rng, ranges and ziggurat samplers";
const STUB: &str = "rulinalg and num (stand-ins validated by the project's own test suite), the generator behind rand::thread_rng (simulated stream), fresh heap memory, user-supplied callbacks, thread scheduling, std's entropy, clock and futex waits";

fn main() {
    rulinalg::sim::install(dst::sched::la_point);
    let p = |id, run, quick, thorough, chunk, rule| Prop { id, run, quick, thorough, chunk, cold: 0, rule, real: REAL, stub: STUB };
    let props = [
        p("C07", shuffler::shuffler, 60000, 1500000, 500,
          "a case is 1-4 transforms by one Shuffler, each (element type, shape, contents, stream mode, failing draw, fresh-memory pattern), or one uniformity experiment; non-trivial if some matrix had 2 rows and a column"),
        p("C08", kfold::partition, 60000, 1500000, 400,
          "a case is one validation (samples, columns, folds, stream mode, failing draw, fresh-memory pattern) by a recording model, or one uniformity experiment; non-trivial with 3 samples or more"),
        p("C09", kfold::failing, 150000, 2000000, 500,
          "a case is one validation in which a chosen call of the model or the score function fails in a chosen way, or a real model's linear algebra does; non-trivial if the failure happened"),
        p("C10", lifecycle::failures, 60000, 1500000, 300,
          "a case is a history of 2-6 trainings of one model (kind, construction, knobs, data, stream, fault); non-trivial if a training failed"),
        p("C11", lifecycle::retraining, 60000, 1500000, 300,
          "a case is a history of 2-6 trainings of one model, each successful one compared with a fresh model; non-trivial if a model with a past was compared"),
        p("C12", lifecycle::trained, 60000, 1500000, 300,
          "a case is a history of 2-6 trainings of one model with predictions in between; non-trivial if some training succeeded and some failed"),
        p("C13", kmeans::starts, 100000, 2500000, 500,
          "a case is 1-3 initializations (initializer, k, data, stream mode, failing draw), or one experiment on the law of an initializer or the groups of a random partition; non-trivial with 3 rows and k of 2 or more"),
        p("C14", kmeans::clustering, 120000, 1500000, 500,
          "a case is one data set and start trained with iteration limits 0, 1, 2.. and 400 (data, k, start or initializer, stream mode, failing draw); non-trivial with 3 rows and k of 2 or more"),
        p("C15", gmm::mixtures, 25000, 1500000, 500,
          "a case is one data set trained with iteration limits 0, 1, 2.. and 60 on the same stream (data, components, covariance option, weights, stream mode, failing draw); non-trivial if likelihoods of two iterations with several components were compared"),
        p("C16", optim::stochastic, 100000, 2500000, 500,
          "a case is 1-3 optimisations with one stochastic optimiser (algorithm and its constants, samples, cost function, stream mode, faults of cost function and generator), or one order experiment; non-trivial with 2 passes over 2 samples or more"),
        p("C17", optim::batch, 200000, 2500000, 500,
          "a case is 1-3 optimisations with one batch optimiser (algorithm and its constants, cost function, start, faults of the cost function); non-trivial with more than 2 calls of the cost function"),
        p("C18", nnet::networks, 100000, 2500000, 500,
          "a case is one network (layers and widths, criterion, data, stream mode, failing draw) built, predicted with and trained 2-5 times with failing layers or optimiser, or one comparison of the ways to build it, or one experiment on the law of its weights; non-trivial with 2 layers or more and a successful training"),
        p("C19", confusion::confusion, 100000, 2500000, 500,
          "a case is one set of predictions, targets and labels (of one of 8 label types) counted under 1-3 hash seeds, or 2-3 such counted at once by simulated threads; non-trivial with 3 samples or more and acceptable arguments"),
        p("C20", threads::threads, 70000, 1500000, 200,
          "a case is 2-4 simulated threads asking 0-2 shared trained models and training, validating, shuffling or scaling for themselves (jobs, data, streams, faults, interleaving); non-trivial if some thread was preempted in the crate's code"),
        p("C21", transform::scalers, 400000, 2500000, 500,
          "a case is one transformer (kind and configuration, f64 or f32, fitted data) and a history of 3-9 transforms, inverses and rejected batches; non-trivial if a batch was rejected in between"),
        p("C33", svm::pegasos, 100000, 2000000, 500,
          "a case is 1-3 trainings of one support vector machine (kernel table, lambda, steps, rows, targets, stream mode, failing draw) whose learned weights are read out through predict, or one experiment on the law of the draws; non-trivial with 2 rows and 2 steps or more"),
        p("C34", reuse::repeatable, 40000, 1200000, 200,
          "a case is 1-2 calls (trainings with questions, validations, shuffles, draws, scalings, optimisations, counts) repeated in another process state (hash seed, memory, clock, processors, stack, thread) after 0-3 other calls, some failing; non-trivial if there were other calls"),
        p("C35", reuse::reentry, 60000, 1500000, 200,
          "a case is one call or question whose n-th call of a user-supplied part itself uses the library (trains, asks the same or another model, validates, draws, fails); non-trivial if it came to that"),
        p("C36", reuse::company, 100000, 2500000, 300,
          "a case is one trained model or fitted scaler and up to several hundred rows asked about one at a time and then in 1-4 groups, with odd rows among them and failed questions in between; non-trivial with 2 rows or more"),
        p("C37", parts::parts, 300000, 6000000, 1000,
          "a case is a history of 1-6 trainings and questions of one model with a recording user-supplied part (class distribution, search structure, kernel and mean, optimiser, link criterion, initializer, norm) that fails now and then; non-trivial with 2 successful calls"),
        p("C38", keep::keeps, 60000, 1500000, 200,
          "a case is 1-2 calls made 7 times over, or one model put 7 times through the same trainings and questions, or 120 different calls of one sort, with failing parts, while the bytes held afterwards are counted; every one counts"),
        p("C32", progress::progress, 400000, 6000000, 1000,
          "a case is one call or history of calls of a model, tree, initializer, transformer or validation on one of 18 styles of data (duplicates, neighbouring floats, NaN, infinities, extremes), with faulty streams and long series of failures; every one is counted"),
    ];
    run(&props)
}
