mod draw;

use cavver::run::{main_with, Prop};

fn main() {
    let props = [
        Prop {
            id: "U01",
            f: draw::u01,
            quick: 200_000,
            thorough: 6_000_000,
            rule: "one polyline (realistic closed outlines, any open or closed vertex list, self-crossing or not, one vertex or none), or a shape of nested outlines, or the raw offset segments of a polyline; drawn in plot windows that show all of it, a part of it zoomed in up to 10 000 times, its surroundings or nothing of it, at any frame position and size",
            nontrivial: "at least two segments are drawn in the window",
            assumptions: &["equal scales on both axes, as the application sets them", "the drawing's coordinates stay below 300 000 pixels (single precision)"],
        },
    ];
    main_with(&props)
}
