//! Runs the real generator on one document.
//! usage: sxgenerate DOC.json MODE [CRATE]   (prints the generated code)
use progenitor_impl::*;
use quote::quote;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let spec: openapiv3::OpenAPI = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let mut s = GenerationSettings::default();
    let mode = a[2].as_str();
    if mode.starts_with("builder") {
        s.with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Merged);
    }
    if matches!(mode, "tagged" | "cli" | "httpmock") {
        s.with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Separate);
    }
    if mode.ends_with("-hooks") {
        s.with_inner_type(quote! { crate::hooks::Inner });
        s.with_pre_hook(quote! { crate::hooks::pre });
        s.with_post_hook(quote! { crate::hooks::post });
        if !mode.ends_with("-sync-hooks") {
            s.with_pre_hook_async(quote! { crate::hooks::pre_async });
            s.with_post_hook_async(quote! { crate::hooks::post_async });
        }
    }
    let mut g = Generator::new(&s);
    let t = match mode {
        "cli" => g.cli(&spec, &a[3]),
        "httpmock" => g.httpmock(&spec, &a[3]),
        _ => g.generate_tokens(&spec),
    };
    match t {
        Ok(t) => println!("{}", t),
        Err(e) => {
            eprintln!("generator: {}", e);
            std::process::exit(3)
        }
    }
}
