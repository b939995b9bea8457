pub mod domain;
pub mod engine;
pub mod indexes;
pub mod model;
pub mod points;
pub mod specdata;

/// A value of the library's direction type (which cannot be named from outside).
#[macro_export]
macro_rules! dir {
    ($d:expr) => {
        h3_rs::h3_index::H3_GET_INDEX_DIGIT($d as u64, 15)
    };
}

/// Fail the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

pub fn cell_name(h: u64) -> String {
    let r = model::res(h);
    let ds: String = (1..=r).map(|q| char::from(b'0' + model::digit(h, q) as u8)).collect();
    format!("{h:x} (res {r}, base cell {}, digits {ds})", model::bc(h))
}
pub fn no_extra(_: &engine::Obs) -> Vec<(String, String)> {
    Vec::new()
}
