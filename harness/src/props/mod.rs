use crate::fw::Prop;

mod tamper;
mod rig;
mod x509;

macro_rules! props {
    ($($m:ident)*) => {
        $(mod $m;)*
        fn all() -> Vec<fn() -> Prop> {
            vec![$($m::prop),*]
        }
    };
}

props! { c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 c23 c24 c25 c27 c28 c29 c30 }

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().map(|f| f()).find(|p| p.id == id)
}

pub fn ids() -> Vec<&'static str> {
    all().into_iter().map(|f| f().id).collect()
}
