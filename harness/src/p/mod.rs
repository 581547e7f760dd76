pub mod a1;
pub mod a2;
pub mod a3;
pub mod a4;
pub mod a5;
pub mod d1;
pub mod d2;
pub mod d3;
pub mod d4;
pub mod d5;
pub mod o1;
pub mod o2;
pub mod o3;
pub mod o4;
pub mod o5;
pub mod o6;
pub mod r1;
pub mod r2;
pub mod smoke;
pub mod t1;
pub mod u1;
pub mod u2;
pub mod u3;
use vcore::Ctx;
pub const ALL: &[(&str, fn(&mut Ctx))] = &[
    ("SMOKE", smoke::run),
    ("A01", a1::a01_run),
    ("A02", a1::a02_run),
    ("A03", a2::a03_run),
    ("A04", a2::a04_run),
    ("A05", a2::a05_run),
    ("A06", a2::a06_run),
    ("A07", a3::a07_run),
    ("A08", a3::a08_run),
    ("A09", a4::a09_run),
    ("A10", a4::a10_run),
    ("A11", a4::a11_run),
    ("A13", a5::a13_run),
    ("D01", d1::d01_run),
    ("D02", d1::d02_run),
    ("D03", d1::d03_run),
    ("D04", d2::d04_run),
    ("D05", d3::d05_run),
    ("D06", d3::d06_run),
    ("D07", d3::d07_run),
    ("D08", d4::d08_run),
    ("D09", d4::d09_run),
    ("D10", d5::d10_run),
    ("O01", o1::o01_run),
    ("O02", o2::o02_run),
    ("O03", o1::o03_run),
    ("O05", o1::o05_run),
    ("O04", o4::o04_run),
    ("O06", o5::o06_run),
    ("O07", o5::o07_run),
    ("O08", o6::o08_run),
    ("O09", o6::o09_run),
    ("A12", o6::a12_run),
    ("O11", o4::o11_run),
    ("O10", o3::o10_run),
    ("R01", r1::r01_run),
    ("R02", r1::r02_run),
    ("R03", r2::r03_run),
    ("R04", r2::r04_run),
    ("R05", r2::r05_run),
    ("U01", u1::u01_run),
    ("U02", u1::u02_run),
    ("U03", u1::u03_run),
    ("U04", u2::u04_run),
    ("U05", u3::u05_run),
];
