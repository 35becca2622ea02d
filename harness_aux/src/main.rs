mod alloc;
mod ffi;
mod pack;
mod serial;

use cavver::run::{main_with, Prop};

#[global_allocator]
static ALLOC: alloc::Audit = alloc::Audit;

const HIST: &str = "histories of up to 30 interface calls: create (empty, random, realistic outlines), edit, query, offset, boolean, index and list calls on handles created earlier, list elements and clones, with valid, null, equal-to-count, beyond and u32::MAX arguments, options null, default or set field by field, release in any order";

fn main() {
    let props = [
        Prop {
            id: "F01",
            f: ffi::f01,
            quick: 1_500_000,
            thorough: 40_000_000,
            rule: HIST,
            nontrivial: "at least eight calls, one of them failing and one of them an operation producing a list or index",
            assumptions: &["handles and out pointers are valid or (handles) null, as the interface documents", "single-threaded histories"],
        },
        Prop {
            id: "F02",
            f: ffi::f02,
            quick: 1_500_000,
            thorough: 40_000_000,
            rule: HIST,
            nontrivial: "at least one list with two or more polylines is released or taken apart",
            assumptions: &["every handle is released exactly once, by its documented function or by its list's", "memory is counted through the process allocator, per thread"],
        },
        Prop {
            id: "D01",
            f: serial::d01,
            quick: 3_000_000,
            thorough: 80_000_000,
            rule: "values of each serializable type (any finite bit pattern, round numbers, results of real operations), in f64 and f32, through JSON text, JSON value trees and a compact length-prefixed binary form; documents with bytes or tokens removed, replaced, inserted, cut short, fields renamed, tuples of the wrong length",
            nontrivial: "the value holds two or more vertexes or the document is damaged",
            assumptions: &["finite numbers (JSON has no others)"],
        },
    ];
    main_with(&props)
}
