pub mod clip;
pub mod crash;
pub mod gen;
pub mod geo;
pub mod pairs;
pub mod prop_boolean;
pub mod prop_chain;
pub mod prop_edit;
pub mod prop_geom;
pub mod prop_offset;
pub mod prop_robust;
pub mod prop_shape;
pub mod prop_view;
pub mod run;
pub mod tape;
pub mod util;
pub mod prop_intr;
