//! Interprets histories of operations on the output targets, the segmented
//! store, the bounded sequences, the containers and wrappers, the ranged
//! numbers and the hexadecimal conversions, and records what happened.
mod bnd;
mod buf;
mod cell;
mod fault;
mod fixed;
mod hex;
#[cfg(feature = "internal")]
mod left;
mod list;
mod num;
mod ranged;
#[cfg(feature = "internal")]
mod seg;
mod tgt;

use vh::{beat, J};

/// Runs the steps of a session: each step is echoed with its result as `r`.
pub fn steps(s: &J, mut f: impl FnMut(&J) -> J) -> J {
    let mut out = Vec::new();
    for t in s.at("steps").arr() {
        beat();
        let r = f(t);
        let J::O(mut fields) = t.clone() else { panic!("DRIVER: step") };
        fields.push(("r".into(), r));
        out.push(J::O(fields));
    }
    let J::O(mut fields) = s.clone() else { panic!("DRIVER: session") };
    fields.retain(|(k, _)| k != "steps");
    fields.push(("steps".into(), J::A(out)));
    J::O(fields)
}

pub fn lists(v: Vec<Vec<u8>>) -> J {
    J::A(v.into_iter().map(|b| J::from(b)).collect())
}

pub fn lens(v: &[usize]) -> J {
    J::ints(v.iter().map(|n| vh::cap(*n)))
}

/// the size of an array type chosen at run time
#[macro_export]
macro_rules! sized {
    ($n:expr, $N:ident in [$($k:literal),*] => $e:expr) => {
        match $n { $($k => { const $N: usize = $k; $e })* n => panic!("DRIVER: size {n}") }
    };
}

fn main() {
    vh::run(|s| {
        let k = s.get("scale").map_or(1, |_| s.int("scale")) as usize;
        vh::SCALE.store(k, std::sync::atomic::Ordering::Relaxed);
        session(s)
    });
}

fn session(s: &J) -> J {
    match s.str("k") {
        #[cfg(feature = "internal")]
        "seg" => seg::session(s),
        "tgt" => tgt::session(s),
        "bnd" => bnd::session(s),
        "list" => list::session(s),
        "cell" => cell::session(s),
        "fault" => steps(s, fault::step),
        "fixed" => steps(s, fixed::step),
        #[cfg(feature = "internal")]
        "left" => left::session(s),
        "buf" => buf::session(s),
        "num" => steps(s, num::step),
        "hex" => steps(s, hex::step),
        "rint" => ranged::int_session(s),
        "rfloat" => ranged::float_session(s),
        x => panic!("DRIVER: session kind {x}"),
    }
}
