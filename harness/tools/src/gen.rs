//! Clients, command lines and mocks the real generator produced, the clients
//! with `reqwest::Client` replaced by one whose `execute` records the request.
macro_rules! generated {
    ($($m:ident)*) => {$(
        #[allow(dead_code, unused, clippy::all)]
        pub mod $m {
            pub mod reqwest {
                pub use ::reqwest::*;
                pub use crate::net::{Client, ClientBuilder};
            }
            include!(concat!("../../../build/tools-gen/", stringify!($m), ".rs"));
        }
    )*};
}
generated! { tb mb }
#[allow(dead_code, unused, clippy::all)]
pub mod tc {
    include!("../../../build/tools-gen/tc.rs");
}
#[allow(dead_code, unused, clippy::all)]
pub mod mm {
    include!("../../../build/tools-gen/mm.rs");
}
