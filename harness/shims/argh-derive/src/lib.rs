use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Expr, Fields, LitChar, LitStr};

#[derive(Default)]
struct Opts {
    sub: bool,
    switch: bool,
    name: Option<String>,
    long: Option<String>,
    short: Option<char>,
    default: Option<Expr>,
}

fn opts(attrs: &[Attribute]) -> Opts {
    let mut o = Opts::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("argh")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("subcommand") {
                o.sub = true;
            } else if m.path.is_ident("switch") {
                o.switch = true;
            } else if m.path.is_ident("name") {
                o.name = Some(m.value()?.parse::<LitStr>()?.value());
            } else if m.path.is_ident("long") {
                o.long = Some(m.value()?.parse::<LitStr>()?.value());
            } else if m.path.is_ident("short") {
                o.short = Some(m.value()?.parse::<LitChar>()?.value());
            } else if m.path.is_ident("default") {
                o.default = Some(m.value()?.parse::<LitStr>()?.parse()?);
            } else if !m.path.is_ident("option") {
                m.value().and_then(|v| v.parse::<Expr>())?;
            }
            Ok(())
        })
        .expect("an attribute of argh");
    }
    o
}

#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let ty = &input.ident;
    let top = opts(&input.attrs);
    let name_fn = top.name.as_ref().map(|n| quote! { impl #ty { pub const ARGH_NAME: &'static str = #n; } });
    let body = match &input.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let id = &v.ident;
                let Fields::Unnamed(f) = &v.fields else { panic!("a variant with a value") };
                let inner = &f.unnamed[0].ty;
                quote! { n if n == <#inner>::ARGH_NAME => Ok(#ty::#id(::argh::FromArgs::from_list(&args[1..])?)), }
            });
            quote! {
                match args.first().map_or("", |s| s.as_str()) {
                    #(#arms)*
                    other => Err(format!("Unrecognized argument: {other}")),
                }
            }
        }
        Data::Struct(s) => {
            let fields: Vec<_> = s.fields.iter().map(|f| (f.ident.clone().expect("a name"), opts(&f.attrs))).collect();
            if let [(id, o)] = &fields[..] {
                if o.sub {
                    return quote! {
                        impl ::argh::FromArgs for #ty {
                            fn from_list(args: &[String]) -> Result<Self, String> { Ok(#ty { #id: ::argh::FromArgs::from_list(args)? }) }
                        }
                    }
                    .into();
                }
            }
            let longs: Vec<_> = fields.iter().map(|(id, o)| o.long.clone().unwrap_or_else(|| id.to_string().replace('_', "-"))).collect();
            let specs = fields.iter().zip(&longs).map(|((_, o), long)| {
                let short = o.short.map_or(quote!(None), |c| quote!(Some(#c)));
                let takes = !o.switch;
                quote! { (#long, #short, #takes) }
            });
            let inits = fields.iter().zip(&longs).map(|((id, o), long)| {
                let default = o.default.as_ref().map_or(quote!(None), |d| quote!(Some(&|| #d)));
                quote! { #id: ::argh::Value::from_values(#long, it.next().unwrap_or_default(), #default)?, }
            });
            quote! {
                let mut it = ::argh::split(&[#(#specs),*], args)?.into_iter();
                Ok(#ty { #(#inits)* })
            }
        }
        Data::Union(_) => panic!("a union"),
    };
    quote! {
        #name_fn
        impl ::argh::FromArgs for #ty {
            fn from_list(args: &[String]) -> Result<Self, String> { #body }
        }
    }
    .into()
}
