//! The part of clap's derive macros that a plain command line needs.
use heck::ToKebabCase;
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Expr, Fields, Ident, LitStr, Token};

struct Opt {
    name: Ident,
    value: Option<Expr>,
}
impl syn::parse::Parse for Opt {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let name: Ident = i.parse()?;
        let value = if i.peek(Token![=]) {
            let _: Token![=] = i.parse()?;
            Some(i.parse()?)
        } else {
            None
        };
        Ok(Opt { name, value })
    }
}
fn opts(attrs: &[syn::Attribute]) -> Vec<Opt> {
    let mut out = vec![];
    for a in attrs {
        if ["clap", "arg", "command", "value"].iter().any(|n| a.path().is_ident(n)) {
            let l = a
                .parse_args_with(syn::punctuated::Punctuated::<Opt, Token![,]>::parse_terminated)
                .expect("attribute");
            out.extend(l);
        }
    }
    out
}
fn wrapped<'a>(t: &'a syn::Type, w: &str) -> Option<&'a syn::Type> {
    let syn::Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != w {
        return None;
    }
    let syn::PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    match a.args.first()? {
        syn::GenericArgument::Type(t) => Some(t),
        _ => None,
    }
}

#[proc_macro_derive(Parser, attributes(clap, arg, command))]
pub fn parser(item: TokenStream) -> TokenStream {
    let d = parse_macro_input!(item as DeriveInput);
    let id = &d.ident;
    let mut top = vec![];
    for o in opts(&d.attrs) {
        let (n, v) = (&o.name, &o.value);
        match n.to_string().as_str() {
            "name" | "bin_name" | "about" | "long_about" | "version" => {
                if let Some(v) = v {
                    top.push(quote! { let c = c.#n(#v); });
                }
            }
            _ => {}
        }
    }
    let out = match &d.data {
        Data::Enum(e) => {
            let mut subs = vec![];
            let mut arms = vec![];
            for v in &e.variants {
                let vi = &v.ident;
                let mut name = vi.to_string().to_kebab_case();
                for o in opts(&v.attrs) {
                    if let (true, Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }))) = (o.name == "name", &o.value) {
                        name = s.value();
                    }
                }
                let Fields::Unnamed(f) = &v.fields else { panic!("unsupported variant") };
                let t = &f.unnamed[0].ty;
                subs.push(quote! { .subcommand(<#t as ::clap::Parser>::spec(::clap::Command::new(#name))) });
                arms.push(quote! { #name => #id::#vi(<#t as ::clap::Parser>::from(&mut m)), });
            }
            quote! {
                fn spec(c: ::clap::Command) -> ::clap::Command {
                    #(#top)*
                    c.subcommand_required(true) #(#subs)*
                }
                fn from(m: &mut ::clap::ArgMatches) -> Self {
                    let (n, mut m) = m.remove_subcommand().expect("required");
                    match n.as_str() { #(#arms)* _ => unreachable!() }
                }
            }
        }
        Data::Struct(s) => {
            let mut args = vec![];
            let mut vals = vec![];
            for f in &s.fields {
                let fi = f.ident.as_ref().expect("named");
                let fname = fi.to_string();
                let kebab = fname.to_kebab_case();
                let inner = wrapped(&f.ty, "Option");
                let t = inner.unwrap_or(&f.ty);
                let mut a = quote! { ::clap::Arg::new(#fname) };
                let (mut default, mut enumerated) = (false, false);
                let mut own_parser = false;
                for o in opts(&f.attrs) {
                    let v = &o.value;
                    match o.name.to_string().as_str() {
                        "long" => match v {
                            Some(v) => a = quote! { #a.long(#v) },
                            None => a = quote! { #a.long(#kebab) },
                        },
                        "short" => match v {
                            Some(v) => a = quote! { #a.short(#v) },
                            None => {
                                let c = fname.chars().next().unwrap();
                                a = quote! { #a.short(#c) }
                            }
                        },
                        "default_value" => {
                            default = true;
                            a = quote! { #a.default_value(#v) }
                        }
                        "default_value_t" => {
                            default = true;
                            a = quote! { #a.default_value({
                                let v: #t = #v;
                                ::clap::ValueEnum::to_possible_value(&v).expect("named").get_name().to_string()
                            }) }
                        }
                        "value_enum" => enumerated = true,
                        "value_parser" => {
                            own_parser = true;
                            a = quote! { #a.value_parser(#v) }
                        }
                        n => {
                            let n = quote::format_ident!("{}", n);
                            if let Some(v) = v {
                                a = quote! { #a.#n(#v) }
                            }
                        }
                    }
                }
                if enumerated {
                    a = quote! { #a.value_parser(::clap::builder::EnumValueParser::<#t>::new()) };
                } else if !own_parser {
                    a = quote! { #a.value_parser(::clap::value_parser!(#t)) };
                }
                if inner.is_none() && !default {
                    a = quote! { #a.required(true) };
                }
                args.push(quote! { .arg(#a) });
                vals.push(if inner.is_some() {
                    quote! { #fi: m.remove_one::<#t>(#fname), }
                } else {
                    quote! { #fi: m.remove_one::<#t>(#fname).expect("required"), }
                });
            }
            quote! {
                fn spec(c: ::clap::Command) -> ::clap::Command {
                    #(#top)*
                    c #(#args)*
                }
                fn from(m: &mut ::clap::ArgMatches) -> Self {
                    #id { #(#vals)* }
                }
            }
        }
        _ => panic!("unsupported"),
    };
    quote! { impl ::clap::Parser for #id { #out } }.into()
}
#[proc_macro_derive(Args, attributes(clap, arg, command))]
pub fn args(item: TokenStream) -> TokenStream {
    parser(item)
}
#[proc_macro_derive(Subcommand, attributes(clap, arg, command))]
pub fn subcommand(item: TokenStream) -> TokenStream {
    parser(item)
}
#[proc_macro_derive(ValueEnum, attributes(clap, value))]
pub fn value_enum(item: TokenStream) -> TokenStream {
    let d = parse_macro_input!(item as DeriveInput);
    let id = &d.ident;
    let Data::Enum(e) = &d.data else { panic!("unsupported") };
    let mut vs = vec![];
    let mut ns = vec![];
    for v in &e.variants {
        let mut name = v.ident.to_string().to_kebab_case();
        for o in opts(&v.attrs) {
            if let (true, Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }))) = (o.name == "name", &o.value) {
                name = s.value();
            }
        }
        vs.push(v.ident.clone());
        ns.push(LitStr::new(&name, proc_macro2::Span::call_site()));
    }
    quote! {
        impl ::clap::ValueEnum for #id {
            fn value_variants<'a>() -> &'a [Self] { &[#(#id::#vs),*] }
            fn to_possible_value(&self) -> ::std::option::Option<::clap::builder::PossibleValue> {
                ::std::option::Option::Some(match self {
                    #(#id::#vs => ::clap::builder::PossibleValue::new(#ns),)*
                })
            }
        }
    }
    .into()
}
