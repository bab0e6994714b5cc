//! The simulated worlds and how to enter them.
use crate::cluster;
use crate::components;
use crate::ctx::Cx;
use crate::entropy;
#[cfg(feature = "full")]
use crate::genio;
use crate::memory;
use crate::ops;
use crate::plan::Step;
use crate::registers;
#[cfg(feature = "full")]
use crate::streams;
use crate::threads;

pub fn prepare(world: &str, prop: &str) {
    if world != "threads" {
        crate::hooks::watch_futex();
    }
    // contexts created on first use cost more than any one call may: all worlds
    // but those about that start with them in place
    if cfg!(feature = "lazy") && world != "threads" && world != "contexts" {
        let k = libsecp256k1::SecretKey::parse(&[1; 32]).expect("key");
        let m = libsecp256k1::Message::parse(&[2; 32]);
        let (s, _) = libsecp256k1::sign(&m, &k);
        libsecp256k1::verify(&m, &s, &libsecp256k1::PublicKey::from_secret_key(&k));
    }
    match world {
        "cluster" | "components" | "registers" => {
            crate::model::curve::warm();
            if std::env::var_os("SIM_NOBOXED").is_none() {
                let mut cx = Cx::new("-", false);
                cx.budget = 400_000_000;
                let _ = cx.lib_raw("make_boxed", &[], ops::make_boxed);
            }
        }
        "threads" => threads::prepare(prop),
        "contexts" => memory::prepare_contexts(),
        #[cfg(feature = "full")]
        "genio" => genio::prepare(),
        _ => {}
    }
}
pub fn plan(world: &str, prop: &str, seed: u64) -> Vec<Step> {
    match world {
        "cluster" => cluster::plan(prop, seed),
        "components" => components::plan(prop, seed),
        "entropy" => entropy::plan(prop, seed),
        "contexts" => memory::plan_contexts(prop, seed),
        "erasure" => memory::plan_erasure(prop, seed),
        "threads" => threads::plan(prop, seed),
        "registers" => registers::plan(prop, seed),
        #[cfg(feature = "full")]
        "genio" => genio::plan(prop, seed),
        #[cfg(feature = "full")]
        "streams" => streams::plan(prop, seed),
        w => panic!("no world {} in this build", w),
    }
}
pub fn run(world: &str, cx: &mut Cx, seed: u64, steps: &[Step]) {
    match world {
        "cluster" => cluster::run(cx, seed, steps),
        "components" => components::run(cx, seed, steps),
        "entropy" => entropy::run(cx, seed, steps),
        "contexts" => memory::run_contexts(cx, seed, steps),
        "erasure" => memory::run_erasure(cx, seed, steps),
        "threads" => threads::run(cx, seed, steps),
        "registers" => registers::run(cx, seed, steps),
        #[cfg(feature = "full")]
        "genio" => genio::run(cx, seed, steps),
        #[cfg(feature = "full")]
        "streams" => streams::run(cx, seed, steps),
        w => panic!("no world {} in this build", w),
    }
}
