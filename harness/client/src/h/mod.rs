//! Harness entries: each drives the real client code with symbolic inputs and
//! states the property as checks over what a caller can observe.
pub mod path;
pub mod query;
pub mod rec;
pub mod err;
pub mod resp;
pub mod tree;
pub mod util;
pub mod wide;

macro_rules! entries {
    ($($name:ident => $f:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        #[allow(dead_code)]
        pub fn lookup(n: &str) -> Option<fn()> {
            match n {
                $(stringify!($name) => Some($f as fn()),)*
                _ => None,
            }
        }
    };
}
entries! {
    h_path_seg => path::seg,
    h_path_long => path::long,
    h_path_two => path::two,
    h_q_str => query::text,
    h_q_name => query::name,
    h_q_int => query::int,
    h_q_misc => query::misc,
    h_q_rec => query::rec_scalar,
    h_q_wide => query::wide_int,
    h_q_arr => query::arr,
    h_q_arr_rec => query::arr_rec,
    h_q_arr_str => query::arr_str,
    h_q_map => query::map,
    h_q_enum => query::enums,
    h_q_opt => query::opt,
    h_q_chain => query::chain,
    h_q_chain_names => query::chain_names,
    h_stream_hand => resp::stream_at_hand,
    h_q_tree => tree::query_tree,
    h_form_tree => tree::form_tree,
    h_decode => resp::from_response,
    h_body_error => resp::body_error,
    h_stream => resp::stream,
    h_stream_long => resp::stream_long,
    h_q_arr_long => query::arr_long,
    h_byte_stream => resp::byte_stream,
    h_empty => resp::empty,
    h_upgrade => resp::upgrade,
    h_accessors => resp::accessors,
    h_content_length => resp::content_length,
    h_err_status => err::status,
    h_err_untyped => err::untyped,
    h_err_display => err::display,
    h_err_from => err::from,
    h_form_str => query::form_str,
    h_word => wide::word,
    h_named => wide::named,
    h_many => wide::many,
    h_many_params => wide::many_params,
    h_decode_long => wide::decode_long,
    h_body_error_long => wide::body_error_long,
    h_stream_waits => wide::stream_waits,
    h_many_headers => wide::many_headers,
}
