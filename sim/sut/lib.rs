//! No code of the project is copied here: its files are compiled in place.
extern crate rand;

pub mod learning {
    pub mod toolkit {
        #[path = "/repo/src/learning/toolkit/activ_fn.rs"]
        pub mod activ_fn;
        #[path = "/repo/src/learning/toolkit/rand_utils.rs"]
        pub mod rand_utils;
    }
}

#[cfg(feature = "stats")]
pub mod stats {
    #[path = "/repo/src/stats/dist/mod.rs"]
    pub mod dist;
}
