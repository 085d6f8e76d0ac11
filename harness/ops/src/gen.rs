//! The clients the real generator produced for the fixed documents, each with
//! `reqwest::Client` replaced by one whose `execute` records the request.
macro_rules! generated {
    ($($m:ident)*) => {$(
        #[allow(dead_code, unused, clippy::all)]
        pub mod $m {
            pub mod reqwest {
                pub use ::reqwest::*;
                pub use crate::net::{Client, ClientBuilder};
            }
            include!(concat!("../../../build/ops-gen/", stringify!($m), ".rs"));
        }
    )*};
}
generated! { pm bm tm pr br pp bp ph bh pa ps bs }
