mod dist;
mod elems;
mod isolation;
mod reservoir;
mod shuffle;

use dst::runner::{main as run, Prop};

const REAL: &str = "src/learning/toolkit/rand_utils.rs, src/stats/dist/*.rs of /repo, and rand 0.4.6's Rng, ranges and ziggurat samplers";
const STUB: &str = "the generator behind rand::thread_rng (simulated stream), fresh heap memory, thread scheduling, std's entropy, clock and futex waits";

fn main() {
    let props = [
        Prop {
            id: "C01",
            run: shuffle::conserve,
            quick: 500000,
            thorough: 8000000,
            chunk: 2000,
            cold: 0,
            rule: "a case is 1-4 shuffles, each (function, element type, length, contents, stream mode, failing draw, fresh-memory pattern); non-trivial if some shuffle had at least 2 elements",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C02",
            run: shuffle::unbiased,
            quick: 2000,
            thorough: 30000,
            chunk: 20,
            cold: 0,
            rule: "a case is one experiment (function, element type, length, statistic, seed) of hundreds to tens of thousands of shuffles under uniform streams; non-trivial if the length is at least 2",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C03",
            run: reservoir::valid,
            quick: 500000,
            thorough: 8000000,
            chunk: 2000,
            cold: 0,
            rule: "a case is 1-4 samples, each (element type, pool length, k, contents, stream mode, failing draw, fresh-memory pattern); non-trivial if some pool had at least 2 entries and k >= 1",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C04",
            run: reservoir::unbiased,
            quick: 3000,
            thorough: 40000,
            chunk: 20,
            cold: 0,
            rule: "a case is one experiment (pool length, k, statistic, seed) of hundreds to tens of thousands of samples under uniform streams; non-trivial if 0 < k < n",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C05",
            run: dist::follows,
            quick: 24000,
            thorough: 400000,
            chunk: 60,
            cold: 0,
            rule: "a case is one experiment on a distribution object (kind, constructor, parameters, oracle, seed and stream mode); every one is non-trivial",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C06",
            run: isolation::isolated,
            quick: 120000,
            thorough: 2000000,
            chunk: 500,
            cold: 3,
            rule: "a case is 2-4 simulated threads with their operations, streams, failing draws and one schedule; non-trivial if at least one preemption happened inside an operation",
            real: REAL,
            stub: STUB,
        },
    ];
    run(&props)
}
