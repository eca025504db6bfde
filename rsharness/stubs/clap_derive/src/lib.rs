//! A stand-in for clap 3's derive macros: long and short options of types
//! bool, usize (occurrences), Option<T> and T, with defaults and value enums, and
//! subcommands that are enums of variants with one field.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Expr, Fields, Lit, Type};

fn kebab(s: &str) -> String {
    let mut out = String::new();
    for (i, ch) in s.chars().enumerate() {
        if ch == '_' {
            out.push('-');
        } else if ch.is_uppercase() {
            if i > 0 && !out.ends_with('-') {
                out.push('-');
            }
            out.extend(ch.to_lowercase());
        } else {
            out.push(ch);
        }
    }
    out
}

#[proc_macro_derive(ValueEnum, attributes(clap, value))]
pub fn value_enum(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let vs: Vec<_> = match &d.data {
        Data::Enum(e) => e.variants.iter().map(|v| v.ident.clone()).collect(),
        _ => panic!("ValueEnum of a non-enum"),
    };
    let ns: Vec<_> = vs.iter().map(|v| kebab(&v.to_string())).collect();
    quote! {
        impl ::clap::FromArg for #name {
            fn from_arg(s: &::std::ffi::OsStr) -> ::std::result::Result<Self, String> {
                match s.to_str() { #( Some(#ns) => Ok(#name::#vs), )* _ => Err(format!("invalid value {:?}", s)) }
            }
        }
    }
    .into()
}

fn is(ty: &Type, name: &str) -> bool {
    matches!(ty, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == name))
}

fn subcommand(d: &DeriveInput, e: &syn::DataEnum) -> TokenStream {
    let name = &d.ident;
    let arms: Vec<_> = e
        .variants
        .iter()
        .map(|v| {
            let (id, word) = (&v.ident, kebab(&v.ident.to_string()));
            match v.fields.iter().next() {
                None => quote! { #word => #name::#id {} },
                Some(f) => {
                    let (fid, how) = (f.ident.as_ref().unwrap(), format_ident!("{}", if is(&f.ty, "Vec") { "many" } else { "one" }));
                    quote! { #word => #name::#id { #fid: ::clap::#how(args) } }
                }
            }
        })
        .collect();
    quote! {
        impl ::clap::Sub for #name {
            fn from_words(name: &str, args: Vec<::std::ffi::OsString>) -> Self {
                match name { #( #arms, )* _ => ::clap::fail(&format!("unrecognized subcommand {name}")) }
            }
        }
    }
    .into()
}

#[proc_macro_derive(Subcommand, attributes(clap, arg, command))]
pub fn derive_subcommand(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    match &d.data {
        Data::Enum(e) => subcommand(&d, e),
        _ => panic!("Subcommand of a non-enum"),
    }
}

#[proc_macro_derive(Parser, attributes(clap, arg, command))]
pub fn parser(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    if let Data::Enum(e) = &d.data {
        return subcommand(&d, e);
    }
    let name = &d.ident;
    let fields = match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => n.named.iter().collect::<Vec<_>>(),
            _ => panic!("Parser of a tuple"),
        },
        _ => panic!("Parser of a non-struct"),
    };
    let (mut decl, mut arms, mut fin, mut inits) = (vec![], vec![], vec![], vec![]);
    for f in fields {
        let id = f.ident.as_ref().unwrap();
        let var = format_ident!("v_{}", id);
        let (mut long, mut short, mut default) = (None::<String>, None::<String>, None::<String>);
        let (mut occurrences, mut default_t, mut sub) = (false, None::<Expr>, false);
        for a in &f.attrs {
            if !(a.path().is_ident("clap") || a.path().is_ident("arg")) {
                continue;
            }
            a.parse_nested_meta(|m| {
                let key = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                let mut text = None;
                if m.input.peek(syn::Token![=]) {
                    let e: Expr = m.value()?.parse()?;
                    text = match &e {
                        Expr::Lit(l) => match &l.lit {
                            Lit::Str(s) => Some(s.value()),
                            Lit::Char(c) => Some(c.value().to_string()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if key == "action" {
                        occurrences |= quote!(#e).to_string().ends_with("Count");
                    }
                    if key == "default_value_t" {
                        default_t = Some(e);
                    }
                } else if m.input.peek(syn::token::Paren) {
                    let inner;
                    syn::parenthesized!(inner in m.input);
                    let t: proc_macro2::TokenStream = inner.parse()?;
                    occurrences |= t.to_string().contains("from_occurrences");
                }
                match key.as_str() {
                    "long" => long = Some(text.unwrap_or_else(|| kebab(&id.to_string()))),
                    "short" => short = Some(text.unwrap_or_else(|| id.to_string()[..1].to_string())),
                    "default_value" => default = text,
                    "subcommand" => sub = true,
                    _ => {}
                }
                Ok(())
            })
            .unwrap();
        }
        let l = long.unwrap_or_default();
        let s = short.unwrap_or_default();
        let ty = &f.ty;
        if sub {
            decl.push(quote! { let mut #var: Option<#ty> = None; });
            arms.push(quote! {
                if let Some(w) = o.word().map(|w| w.to_string()) {
                    let args = o.rest();
                    #var = Some(<#ty as ::clap::Sub>::from_words(&w, args));
                    continue;
                }
            });
            fin.push(quote! { let #var: #ty = match #var { Some(x) => x, None => ::clap::fail("a subcommand is required") }; });
            inits.push(quote! { #id: #var });
        } else if is(ty, "bool") {
            decl.push(quote! { let mut #var = false; });
            arms.push(quote! { if o.is(#l, #s) { #var = true; continue; } });
            inits.push(quote! { #id: #var });
        } else if occurrences {
            decl.push(quote! { let mut #var = 0; });
            arms.push(quote! { if o.is(#l, #s) { #var += 1; continue; } });
            inits.push(quote! { #id: #var });
        } else if is(ty, "Option") {
            decl.push(quote! { let mut #var = None; });
            arms.push(quote! { if o.is(#l, #s) { #var = Some(o.value()); continue; } });
            inits.push(quote! { #id: #var });
        } else {
            decl.push(quote! { let mut #var: Option<#ty> = None; });
            arms.push(quote! { if o.is(#l, #s) { #var = Some(o.value()); continue; } });
            let d = match (default, default_t) {
                (Some(d), _) => quote! { ::clap::default(#d) },
                (_, Some(e)) => quote! { #e },
                _ => quote! { ::clap::fail(&format!("--{} is required", #l)) },
            };
            fin.push(quote! { let #var: #ty = match #var { Some(x) => x, None => #d }; });
            inits.push(quote! { #id: #var });
        }
    }
    quote! {
        impl #name {
            #[allow(dead_code)]
            fn parse() -> Self { <Self as ::clap::Parser>::parse() }
        }
        impl ::clap::Parser for #name {
            fn parse() -> Self {
                #( #decl )*
                let mut o = ::clap::Args::new();
                while o.next() {
                    #( #arms )*
                    o.unknown();
                }
                #( #fin )*
                #name { #( #inits ),* }
            }
        }
    }
    .into()
}
