//! Harness entries over generated clients.
mod body;
mod builder;
mod common;
mod header;
mod hook;
mod line;
mod made;
mod page;
mod params;
mod respond;
mod socket;

macro_rules! entries {
    ($($name:ident => $f:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        #[allow(dead_code)]
        pub fn lookup(n: &str) -> Option<fn()> {
            match n {
                $(stringify!($name) => Some($f as fn()),)*
                _ => None,
            }
        }
    };
}
entries! {
    g_line => line::line,
    g_typed => line::typed,
    g_fails => line::fails,
    g_query => params::query,
    g_scalars => params::scalars,
    g_list => params::list,
    g_locals => params::locals,
    g_headers => header::headers,
    g_header_int => header::ints,
    g_body => body::body,
    g_respond => respond::respond,
    g_pages => page::pages,
    g_page_locals => page::page_locals,
    g_hooks => hook::hooks,
    g_hooks_sync => hook::sync_hooks,
    g_builder => builder::missing,
    g_builder_conv => builder::conversion,
    g_builder_body => builder::body,
    g_socket => socket::socket,
    g_made => made::made,
}
