//! Harness entries over the two front ends: the macro and the cargo command.
#[cfg(feature = "cargo_")]
mod cargo;
mod doc;
#[cfg(feature = "macro_")]
mod mac;
#[cfg(feature = "text_")]
mod text;

macro_rules! entries {
    ($($f:literal $name:ident => $p:path),* $(,)?) => {
        $(#[cfg(feature = $f)] #[no_mangle] pub extern "C" fn $name() { $p() })*
        #[allow(dead_code)]
        pub fn lookup(n: &str) -> Option<fn()> {
            match n {
                $(#[cfg(feature = $f)] stringify!($name) => Some($p as fn()),)*
                _ => None,
            }
        }
    };
}
entries! {
    "macro_" f_mac_style => mac::style,
    "macro_" f_mac_hooks => mac::hooks,
    "macro_" f_mac_types => mac::types,
    "macro_" f_mac_crates => mac::crates,
    "macro_" f_mac_impls => mac::impls,
    "macro_" f_mac_doc => mac::document,
    "macro_" f_mac_pairs => mac::pairs,
    "macro_" f_mac_settings => mac::settings,
    "text_" f_text_op => text::operation,
    "text_" f_text_stream => text::stream,
    "text_" f_text_body => text::body,
    "text_" f_text_method => text::method,
    "text_" f_text_client => text::client,
    "text_" f_text_line => text::line,
    "text_" f_tags => text::tags,
    "text_" f_setters => text::setters,
    "text_" f_tags_many => text::tags_many,
    "text_" f_tag_name => text::tag_name,
    "cargo_" f_cargo_options => cargo::options,
    "cargo_" f_cargo_needs => cargo::needs,
    "cargo_" f_cargo_names => cargo::names,
    "cargo_" f_cargo_doc => cargo::document,
    "cargo_" f_cargo_space => cargo::space,
}
