//! derive(Clap) for the three shapes the binding macros use: a struct with one #[clap(subcommand)]
//! field, an enum of subcommands, and structs of string options with short, long and default_value.
extern crate proc_macro;
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields, Lit, Meta, NestedMeta};

fn options(attrs: &[Attribute]) -> (bool, Vec<(String, String)>) {
    let (mut sub, mut kv) = (false, vec![]);
    for a in attrs {
        if !a.path.is_ident("clap") {
            continue;
        }
        if let Ok(Meta::List(l)) = a.parse_meta() {
            for n in l.nested {
                match n {
                    NestedMeta::Meta(Meta::Path(p)) if p.is_ident("subcommand") => sub = true,
                    NestedMeta::Meta(Meta::Path(p)) => kv.push((p.get_ident().unwrap().to_string(), String::new())),
                    NestedMeta::Meta(Meta::NameValue(v)) => {
                        let s = match v.lit {
                            Lit::Str(s) => s.value(),
                            Lit::Char(c) => c.value().to_string(),
                            _ => panic!("string expected"),
                        };
                        kv.push((v.path.get_ident().unwrap().to_string(), s))
                    }
                    _ => panic!("unexpected clap attribute"),
                }
            }
        }
    }
    (sub, kv)
}
fn kebab(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        if c.is_uppercase() && !r.is_empty() {
            r.push('-');
        }
        r.extend(c.to_lowercase());
    }
    r
}

#[proc_macro_derive(Clap, attributes(clap))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let id = &input.ident;
    match &input.data {
        Data::Enum(e) => {
            let mut arms = vec![];
            for v in &e.variants {
                let name = kebab(&v.ident.to_string());
                let vi = &v.ident;
                let ty = match &v.fields {
                    Fields::Unnamed(f) => &f.unnamed[0].ty,
                    _ => panic!("subcommand with options expected"),
                };
                arms.push(quote!(#name => #id::#vi(<#ty>::parse_from_args(rest)),));
            }
            quote!(impl #id {
                pub fn parse_from_args(args: &[String]) -> Self {
                    let rest = &args[1..];
                    match args[0].as_str() { #(#arms)* c => { eprintln!("no such command {}", c); std::process::exit(2) } }
                }
            })
            .into()
        }
        Data::Struct(s) => {
            let (mut init, mut arms, mut names, mut sub) = (vec![], vec![], vec![], None);
            for f in s.fields.iter() {
                let fi = f.ident.as_ref().unwrap();
                let ty = &f.ty;
                let (is_sub, kv) = options(&f.attrs);
                if is_sub {
                    sub = Some(quote!(#fi: <#ty>::parse_from_args(args)));
                    continue;
                }
                let get = |k: &str| kv.iter().find(|x| x.0 == k).map(|x| x.1.clone());
                let long = format!("--{}", get("long").filter(|s| !s.is_empty()).unwrap_or(fi.to_string().replace('_', "-")));
                let first = fi.to_string()[..1].to_string();
                let short = get("short").map(|s| if s.is_empty() { first } else { s });
                let short = format!("-{}", short.unwrap_or("\u{0}".to_string()));
                match get("default_value") {
                    Some(d) => init.push(quote!(let mut #fi = Some(String::from(#d));)),
                    None => init.push(quote!(let mut #fi: Option<String> = None;)),
                }
                arms.push(quote!(if args[i] == #short || args[i] == #long { #fi = Some(args[i + 1].clone()); i += 2; continue; }));
                names.push(quote!(#fi: match #fi { Some(x) => x, None => { eprintln!("missing option {}", #long); std::process::exit(2) } }));
            }
            let body = match sub {
                Some(x) => quote!(Self { #x }),
                None => quote!(
                    #(#init)*
                    let mut i = 0;
                    while i < args.len() {
                        #(#arms)*
                        eprintln!("no such option {}", args[i]);
                        std::process::exit(2)
                    }
                    Self { #(#names),* }
                ),
            };
            quote!(impl #id {
                #[allow(dead_code)]
                pub fn parse() -> Self {
                    let args: Vec<String> = std::env::args().skip(2).collect();
                    Self::parse_from_args(&args)
                }
                #[allow(unused_mut, unused_variables)]
                pub fn parse_from_args(args: &[String]) -> Self { #body }
            })
            .into()
        }
        _ => panic!("struct or enum expected"),
    }
}
