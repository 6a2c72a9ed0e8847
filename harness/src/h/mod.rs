pub mod lang;
pub mod gen;
pub mod sem;
pub mod tr;
pub mod ana;
pub mod explo;
pub mod misc;
pub mod io;
pub mod hcf;
pub mod out;
pub mod run;

use gen::Rng;

pub enum Out { Ok, Skip, Bad(String) }
pub type Check = fn(&mut Rng, usize) -> Out;

/// (check, largest size)
pub fn checks(prop: &str) -> Vec<(&'static str, Check, usize)> {
    all().into_iter().filter(|x| x.0 == prop).map(|x| (x.1, x.2, x.3)).collect()
}

/// (property, check, function, largest size of the generated terms)
pub fn all() -> Vec<(&'static str, &'static str, Check, usize)> {
    let mut v: Vec<(&'static str, &'static str, Check, usize)> = vec![];
    v.extend(sem::all());
    v.extend(tr::all());
    v.extend(ana::all());
    v.extend(explo::all());
    v.extend(misc::all());
    v.extend(io::all());
    v.extend(out::all());
    v.extend(hcf::all());
    v
}

#[macro_export]
macro_rules! bad {
    ($($x:tt)*) => { return crate::h::Out::Bad(format!($($x)*)) };
}
