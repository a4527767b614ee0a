//! One module per group of properties.
use crate::report::Report;
pub mod api;
mod big;
mod cgka;
mod conc;
mod content;
mod forge;
mod hostile;
pub mod member;
mod order;
mod values;
mod prekeys;
mod reach;
mod sync;
mod txn;

type Check = fn(&mut Report);
const CHECKS: &[(&str, Check)] = &[
    ("M01", member::m01),
    ("M02", member::m02),
    ("M03", member::m03),
    ("K01", cgka::k01),
    ("K02", cgka::k02),
    ("K03", api::k03),
    ("K04", content::k04),
    ("K05", content::k05),
    ("K06", content::k06),
    ("K07", api::k07),
    ("K08", api::k08),
    ("K09", hostile::k09),
    ("S07", txn::s07),
    ("S08", conc::s08),
    ("M04", api::m04),
    ("M06", api::m06),
    ("M05", reach::m05),
    ("M07", member::m07),
    ("M08", member::m08),
    ("S01", forge::s01),
    ("S02", sync::s02),
    ("S03", sync::s03),
    ("S04", sync::s04),
    ("S05", sync::s05),
    ("S06", sync::s06),
    ("S09", sync::s09),
    ("P01", prekeys::p01),
    ("P02", prekeys::p02),
    ("P03", prekeys::p03),
    ("S10", sync::s10),
    ("U01", order::u01),
    ("U02", values::u02),
    ("U03", values::u03),
];

pub fn find(id: &str) -> Option<Check> {
    CHECKS.iter().find(|(i, _)| *i == id).map(|(_, f)| *f)
}
pub fn ids() -> impl Iterator<Item = &'static str> {
    CHECKS.iter().map(|(i, _)| *i)
}
