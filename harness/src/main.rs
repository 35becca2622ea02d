use cavver::run::{main_with, Prop};
use cavver::*;

const BOOL_GEN: &str = "pairs of simple closed outlines (stars, polyominoes, decorated and special shapes, corpus shapes; general position, grid aligned, sectors of common circles, slid copies, shared parts, nested, apart, identical), random start/direction/subdivision/position/scale, plus sampled options";
const OFF_GEN: &str = "source outline (stars, polyominoes, special and corpus shapes, corridors; open and self-crossing random ones where the property speaks of them) with an offset distance of 1-80% of its size or a round fraction, either sign";
const SHAPE_GEN: &str = "1-7 outlines placed inside, around or beside each other without touching (or boxes and discs on a grid in a frame), directed by depth, in any order; offset distances of 1-40% of the size, about half a gap between two outlines, or a round fraction, either sign";

fn main() {
    let props = [
        Prop {
            id: "B01",
            f: prop_boolean::b01,
            quick: 600_000,
            thorough: 12_000_000,
            rule: BOOL_GEN,
            nontrivial: "the operands cross or touch",
            assumptions: BOOL_ASSUME,
        },
        Prop {
            id: "B02",
            f: prop_boolean::b02,
            quick: 450_000,
            thorough: 9_000_000,
            rule: BOOL_GEN,
            nontrivial: "both the intersection and the difference have area clearly above the tolerance",
            assumptions: BOOL_ASSUME,
        },
        Prop {
            id: "B03",
            f: prop_boolean::b03,
            quick: 1_000_000,
            thorough: 20_000_000,
            rule: BOOL_GEN,
            nontrivial: "the operands are nested, crossing, identical or invalid",
            assumptions: BOOL_ASSUME,
        },
        Prop {
            id: "B04",
            f: prop_boolean::b04,
            quick: 700_000,
            thorough: 14_000_000,
            rule: BOOL_GEN,
            nontrivial: "the operands cross or touch and the result is not empty",
            assumptions: BOOL_ASSUME,
        },
        Prop {
            id: "B05",
            f: prop_boolean::b05,
            quick: 800_000,
            thorough: 16_000_000,
            rule: BOOL_GEN,
            nontrivial: "some outline is stitched from two or more slices",
            assumptions: BOOL_ASSUME,
        },
        Prop {
            id: "B06",
            f: prop_boolean::b06,
            quick: 600_000,
            thorough: 12_000_000,
            rule: "as B01, without tangencies, crossings at small angles and shared stretches of nearly flat arcs, the second outline's positions then moved by up to a tenth of the position tolerance, each on its own or all alike",
            nontrivial: "an aligned arrangement (shared edges, touching vertexes) whose outlines meet",
            assumptions: BOOL_ASSUME,
        },
        Prop {
            id: "B07",
            f: prop_boolean::b07,
            quick: 600_000,
            thorough: 12_000_000,
            rule: "as B06; positions and position tolerance then multiplied by the same power of two (coordinates 0.02 to 1e4)",
            nontrivial: "an aligned arrangement (shared edges, touching vertexes) whose outlines meet, scaled by another factor than one",
            assumptions: BOOL_ASSUME,
        },
        Prop {
            id: "O01",
            f: prop_offset::o01,
            quick: 1_500_000,
            thorough: 40_000_000,
            rule: OFF_GEN,
            nontrivial: "the offset is not a single outline with as many segments as the source",
            assumptions: OFF_ASSUME,
        },
        Prop {
            id: "O02",
            f: prop_offset::o02,
            quick: 2_000_000,
            thorough: 50_000_000,
            rule: OFF_GEN,
            nontrivial: "the offset is not empty",
            assumptions: OFF_ASSUME,
        },
        Prop {
            id: "O03",
            f: prop_offset::o03,
            quick: 2_000_000,
            thorough: 50_000_000,
            rule: OFF_GEN,
            nontrivial: "at least one clear point of the true offset curve was looked for on the results",
            assumptions: OFF_ASSUME,
        },
        Prop {
            id: "O04",
            f: prop_offset::o04,
            quick: 1_500_000,
            thorough: 40_000_000,
            rule: OFF_GEN,
            nontrivial: "at least one of the two offsets compared is not empty",
            assumptions: OFF_ASSUME,
        },
        Prop {
            id: "O05",
            f: prop_offset::o05,
            quick: 1_200_000,
            thorough: 20_000_000,
            rule: "as O01, without arcs whose radius equals the distance, the source's positions then moved by up to a tenth of the position tolerance, each on its own",
            nontrivial: "the offset has another number of segments than the source, or is none or several outlines",
            assumptions: OFF_ASSUME,
        },
        Prop {
            id: "O06",
            f: prop_offset::o06,
            quick: 1_200_000,
            thorough: 20_000_000,
            rule: "as O05; positions, distance and all tolerances then multiplied by the same power of two (coordinates 0.02 to 1e4)",
            nontrivial: "the offset has another number of segments than the source, or is none or several outlines; scaled by another factor than one",
            assumptions: OFF_ASSUME,
        },
        Prop {
            id: "S01",
            f: prop_shape::s01,
            quick: 400_000,
            thorough: 10_000_000,
            rule: SHAPE_GEN,
            nontrivial: "outlines interact: the offset shape differs from the outlines offset one by one",
            assumptions: OFF_ASSUME,
        },
        Prop {
            id: "S02",
            f: prop_shape::s02,
            quick: 400_000,
            thorough: 10_000_000,
            rule: "lists of closed polylines (simple, self-crossing, without area, without segments), chains of up to four offsets of nested shapes, single outlines offset as a shape and alone",
            nontrivial: "two or more outlines kept, a second offset that leaves something, or a non-empty offset",
            assumptions: OFF_ASSUME,
        },
        Prop {
            id: "S03",
            f: prop_shape::s03,
            quick: 250_000,
            thorough: 8_000_000,
            rule: "as S01, without arcs whose radius equals the distance; the positions are moved by up to a tenth of the position tolerance, then positions, distance and all tolerances are multiplied by the same power of two (coordinates 0.02 to 1e4)",
            nontrivial: "outlines interact: the offset shape differs from the outlines offset one by one; scaled by another factor than one",
            assumptions: OFF_ASSUME,
        },
        Prop {
            id: "H01",
            f: prop_chain::h01,
            quick: 90_000,
            thorough: 2_400_000,
            rule: "histories of two to five steps on a pool of outlines that starts with a pair of outlines (as for the boolean operations) or one source outline: boolean operations of any two, offsets of any one (at once or in two steps); clearly simple results join the pool",
            nontrivial: "some operand of a step is the result of an earlier operation",
            assumptions: OFF_ASSUME,
        },
        Prop {
            id: "G01",
            f: prop_geom::g01,
            quick: 20_000_000,
            thorough: 400_000_000,
            rule: "angles, sweeps, bulges, points and lines for the scalar helpers, at random and at multiples of 45 degrees, with test angles just inside and outside of the sweep tolerance",
            nontrivial: "the angle needs wrapping, or any case of the other helper groups",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "G02",
            f: prop_geom::g02,
            quick: 20_000_000,
            thorough: 400_000_000,
            rule: "single line and arc segments of chosen bulge with split, closest and tangent query points",
            nontrivial: "the segment is an arc",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "G03",
            f: prop_geom::g03,
            quick: 5_000_000,
            thorough: 100_000_000,
            rule: "random open and closed polylines (self-crossing, simple outlines, many small pieces of one line or circle, far from the origin, empty and single-vertex ones)",
            nontrivial: "some segment is an arc",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "G04",
            f: prop_geom::g04,
            quick: 5_000_000,
            thorough: 100_000_000,
            rule: "random open and closed polylines (self-crossing, simple outlines, many small pieces of one line or circle, far from the origin, empty and single-vertex ones) with query points clear of the path",
            nontrivial: "two or more segments",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "G05",
            f: prop_geom::g05,
            quick: 6_000_000,
            thorough: 120_000_000,
            rule: "random open and closed polylines (self-crossing, simple outlines, many small pieces of one line or circle, far from the origin, empty and single-vertex ones) with query points near, on and far from the path",
            nontrivial: "two or more segments",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "G06",
            f: prop_geom::g06,
            quick: 6_000_000,
            thorough: 120_000_000,
            rule: "random open and closed polylines (self-crossing, simple outlines, many small pieces of one line or circle, far from the origin, empty and single-vertex ones) with path lengths inside, at vertexes, before and beyond the path",
            nontrivial: "a length strictly inside of the path",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "G07",
            f: prop_geom::g07,
            quick: 3_000_000,
            thorough: 60_000_000,
            rule: "random open and closed polylines (self-crossing, simple outlines, many small pieces of one line or circle, far from the origin, empty and single-vertex ones) (up to 60 segments) with query windows",
            nontrivial: "two or more segments",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "E01",
            f: prop_edit::e01,
            quick: 15_000_000,
            thorough: 250_000_000,
            rule: "histories of 1-16 edits (add, insert, set, remove, extend, add-or-replace, close/open, clear, copy, compare) from any constructor, on grid positions jittered within and just outside of the tolerance",
            nontrivial: "four or more edits",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "E02",
            f: prop_edit::e02,
            quick: 8_000_000,
            thorough: 150_000_000,
            rule: "random open and closed polylines (self-crossing, simple outlines, many small pieces of one line or circle, far from the origin, empty and single-vertex ones) with runs of repeated positions put in (also across the closing joint, drifting, collapsing), several tolerances",
            nontrivial: "some position is repeated",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "E03",
            f: prop_edit::e03,
            quick: 5_000_000,
            thorough: 100_000_000,
            rule: "random open and closed polylines, outlines, pieces of one circle or line, subdivided, re-rooted and with repeats put in",
            nontrivial: "some vertex is removed",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "E04",
            f: prop_edit::e04,
            quick: 4_000_000,
            thorough: 100_000_000,
            rule: "random open and closed polylines (self-crossing, simple outlines, many small pieces of one line or circle, far from the origin, empty and single-vertex ones) with one of reversal, translation, scale or re-rooting at a vertex or point",
            nontrivial: "two or more vertexes, re-rooting not refused",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "E05",
            f: prop_edit::e05,
            quick: 2_000_000,
            thorough: 50_000_000,
            rule: "random open and closed polylines (self-crossing, simple outlines, many small pieces of one line or circle, far from the origin, empty and single-vertex ones) with an error distance from far below to above the radii",
            nontrivial: "some segment is an arc",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "V01",
            f: prop_view::v01,
            quick: 3_000_000,
            thorough: 75_000_000,
            rule: "random open and closed polylines (self-crossing, simple outlines, many small pieces of one line or circle, far from the origin) with a slice between two places (inside of segments, on or next to vertexes, wrapping), a whole polyline, a new start or a part of one segment; read forwards and inverted, then altered",
            nontrivial: "the part has two or more segments",
            assumptions: GEOM_ASSUME,
        },
        Prop {
            id: "I01",
            f: prop_intr::i01,
            quick: 30_000_000,
            thorough: 600_000_000,
            rule: "two line segments (meeting at chosen fractions, collinear, parallel, single points), a line segment and a circle, or two circles, constructed so that the true answer is known; axis-aligned, diagonal and free directions",
            nontrivial: "the two curves meet (or the answer turns on a chosen gap)",
            assumptions: INTR_ASSUME,
        },
        Prop {
            id: "I02",
            f: prop_intr::i02,
            quick: 3_000_000,
            thorough: 60_000_000,
            rule: "two line or arc segments: through a common point, near each other, pieces of one line or circle, tangent, with a chord, concentric or shifted; each pair as given, swapped and reversed",
            nontrivial: "the segments meet, and where they meet does not depend on tolerances",
            assumptions: INTR_ASSUME,
        },
        Prop {
            id: "I03",
            f: prop_intr::i03,
            quick: 1_200_000,
            thorough: 25_000_000,
            rule: "two polylines, open or closed: the outline pairs of the boolean checks whole or cut open, lattice walks with arcs, and wild ones; with and without a supplied spatial index",
            nontrivial: "the paths meet, and where they meet does not depend on tolerances",
            assumptions: INTR_ASSUME,
        },
        Prop {
            id: "I04",
            f: prop_intr::i04,
            quick: 1_000_000,
            thorough: 25_000_000,
            rule: "one polyline, open or closed (simple outlines, lattice walks that touch and retrace themselves, wild ones), searched for all, local and global self-intersects with and without a supplied index, and stopped after a chosen report",
            nontrivial: "the path meets itself away from its joints, and where does not depend on tolerances",
            assumptions: INTR_ASSUME,
        },
        Prop {
            id: "R01",
            f: prop_robust::r01,
            quick: 1_500_000,
            thorough: 40_000_000,
            rule: "one or two polylines of any kind (random, lattice walks that touch and retrace themselves, pieces of one circle or line, simple outlines, stretched, with bulges next to the limits), one operation",
            nontrivial: "the first polyline has more than two vertexes",
            assumptions: &["debug assertions of the library are on, so its own consistency checks count as failures", "positions of neighbouring vertexes differ by more than 1e-3"],
        },
    ];
    main_with(&props)
}

const INTR_ASSUME: &[&str] = &[
    "completeness and classification are demanded where contacts are exact (to 1e-9) or clear (2e-3); reported points are always checked to lie on both curves",
    "segments at least 0.05 long, arc radii at least 0.05 (the library's tolerances are absolute)",
];

const BOOL_ASSUME: &[&str] = &[
    "operands are simple closed outlines; every contact between them is either exact (to 1e-9) or clear (1e-3 of the size)",
    "segments are at least 0.02 long and arc radii at least 0.05 (the library's tolerances are absolute)",
];
const OFF_ASSUME: &[&str] = &[
    "a failure counts only when an independent test finds every event of the offset construction exact or clear by max(5e-3, 3e-4 size) (audited share of such cases is in the classes)",
    "segments are at least 0.02 long and arc radii between 0.05 and 1e5",
];
const GEOM_ASSUME: &[&str] = &[
    "coordinates up to about 1e4, segments at least about 0.02 of the scale used, arc radii at most about 1e9",
];
