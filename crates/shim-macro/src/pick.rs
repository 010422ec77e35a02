//! `pick!`: the items of one of the repository's source files that can be built against the
//! stand-ins.
//!
//! Functions, constants, types and implementations are all taken, so that new helpers come along.
//! Imports come along when they are from a crate or module that has a stand-in. Left out are submodules, benchmarking, and the `Config` implementations of the runtime.
//! Type aliases and `parameter_types!` entries are taken when listed, and the listed associated types
//! of a `Config` implementation become aliases `<pallet>_config::<Name>`.
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::{
    parse::{Parse, ParseStream},
    visit_mut::VisitMut,
    Attribute, Ident, ImplItem, Item, LitStr, Token, Type, UseTree,
};

pub struct Pick {
    file: String,
    types: Vec<String>,
    params: Vec<String>,
    skip: Vec<String>,
    configs: Vec<(String, Vec<Ident>)>,
    inside: Option<Ident>,
    bare: bool,
}

impl Parse for Pick {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let file: LitStr = input.parse()?;
        let mut p =
            Pick { file: file.value(), types: vec![], params: vec![], skip: vec![], configs: vec![], inside: None, bare: false };
        while input.peek(Token![;]) {
            input.parse::<Token![;]>()?;
            if input.is_empty() {
                break;
            }
            let kind: Ident = input.parse()?;
            match kind.to_string().as_str() {
                "config" => {
                    let pallet: Ident = input.parse()?;
                    let inner;
                    syn::braced!(inner in input);
                    let names = inner.parse_terminated(Ident::parse, Token![,])?;
                    p.configs.push((pallet.to_string(), names.into_iter().collect()));
                }
                "inside" => p.inside = Some(input.parse()?),
                // without any imports
                "bare" => p.bare = true,
                k => {
                    let inner;
                    syn::braced!(inner in input);
                    let names = inner.parse_terminated(Ident::parse, Token![,])?;
                    let names: Vec<String> = names.into_iter().map(|n| n.to_string()).collect();
                    match k {
                        "types" => p.types = names,
                        "params" => p.params = names,
                        "skip" => p.skip = names,
                        _ => return Err(syn::Error::new(kind.span(), "unknown list")),
                    }
                }
            }
        }
        Ok(p)
    }
}

fn left_out(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string();
        a.path().is_ident("cfg")
            && (t.contains("runtime-benchmarks") || t.contains("test") || t.contains("\"paseo\""))
            && !t.contains("not")
    })
}

fn attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

/// What `Self` means in a `Config` implementation, once its types are aliases.
struct SelfIsRuntime(Vec<Ident>);
impl VisitMut for SelfIsRuntime {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let s = &p.path.segments;
            if p.qself.is_none() && s.len() == 2 && s[0].ident == "Self" {
                let n = &s[1].ident;
                *t = if self.0.contains(n) {
                    let n = format_ident!("Picked{}", n);
                    syn::parse_quote!(#n)
                } else {
                    syn::parse_quote!(<Runtime as frame_system::Config>::#n)
                };
                return;
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "Self" {
            *i = format_ident!("Runtime");
        }
    }
}

/// Keeps the listed entries of a `parameter_types!` body.
fn keep(body: TokenStream, wanted: &[String]) -> TokenStream {
    let mut out = TokenStream::new();
    let mut entry: Vec<TokenTree> = vec![];
    for t in body {
        let end = matches!(&t, TokenTree::Punct(p) if p.as_char() == ';');
        entry.push(t);
        if end {
            let mut name = None;
            for w in entry.windows(2) {
                if let (TokenTree::Ident(i), TokenTree::Punct(p)) = (&w[0], &w[1]) {
                    if p.as_char() == ':' {
                        name = Some(i.to_string());
                        break;
                    }
                }
            }
            if name.is_some_and(|n| wanted.contains(&n)) {
                out.extend(entry.drain(..));
            }
            entry.clear();
        }
    }
    out
}

/// What may be imported from.
const ROOTS: &[&str] = &[
    "alloc", "core", "fc_traits_authn", "fc_traits_memberships", "frame_support", "frame_system", "pallet_balances", "pallet_communities",
    "pallet_custom_origins", "pallet_payments", "pallet_ranked_collective", "pallet_referenda", "parity_scale_codec", "scale_info", "sp_core",
    "smallvec", "sp_runtime", "sp_std", "std", "virto_common", "xcm",
];
fn kept(t: UseTree) -> Option<UseTree> {
    match t {
        UseTree::Path(p) => ROOTS.contains(&p.ident.to_string().as_str()).then_some(UseTree::Path(p)),
        UseTree::Group(mut g) => {
            g.items = g.items.into_iter().filter_map(kept).collect();
            (!g.items.is_empty()).then_some(UseTree::Group(g))
        }
        _ => None,
    }
}

fn name(i: &Item) -> Option<String> {
    Some(match i {
        Item::Const(x) => x.ident.to_string(),
        Item::Enum(x) => x.ident.to_string(),
        Item::Fn(x) => x.sig.ident.to_string(),
        Item::Static(x) => x.ident.to_string(),
        Item::Struct(x) => x.ident.to_string(),
        Item::Trait(x) => x.ident.to_string(),
        Item::Impl(x) => match &*x.self_ty {
            Type::Path(p) => p.path.segments.last()?.ident.to_string(),
            _ => return None,
        },
        _ => return None,
    })
}

struct DropBenchmarks;
impl VisitMut for DropBenchmarks {
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        i.items.retain(|x| match x {
            ImplItem::Fn(f) => !left_out(&f.attrs),
            ImplItem::Type(f) => !left_out(&f.attrs),
            ImplItem::Const(f) => !left_out(&f.attrs),
            _ => true,
        });
    }
}

pub fn pick(p: Pick) -> TokenStream {
    let file = &p.file;
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            let m = format!("{file}: {e}");
            return quote!(compile_error!(#m););
        }
    };
    let parsed = match syn::parse_file(&text) {
        Ok(f) => f,
        Err(e) => {
            let m = format!("{file}: {e}");
            return quote!(compile_error!(#m););
        }
    };
    let mut items = parsed.items;
    if let Some(module) = &p.inside {
        items = items
            .into_iter()
            .find_map(|i| match i {
                Item::Mod(m) if &m.ident == module => m.content.map(|c| c.1),
                _ => None,
            })
            .unwrap_or_default();
    }
    let mut out = TokenStream::new();
    for mut i in items {
        if left_out(attrs(&i)) || name(&i).is_some_and(|n| p.skip.contains(&n)) {
            continue;
        }
        DropBenchmarks.visit_item_mut(&mut i);
        match i {
            Item::Use(_) if p.bare => {}
            Item::Use(mut u) => {
                if let Some(tree) = kept(u.tree) {
                    u.tree = tree;
                    out.extend(quote!(#[allow(unused_imports)] #u));
                }
            }
            Item::Mod(_) | Item::ExternCrate(_) => {}
            Item::Type(t) if !p.types.contains(&t.ident.to_string()) => {}
            Item::Macro(ref m) if m.mac.path.is_ident("parameter_types") => {
                let body = keep(m.mac.tokens.clone(), &p.params);
                if !body.is_empty() {
                    out.extend(quote!(parameter_types! { #body }));
                }
            }
            Item::Macro(ref m) if m.ident.is_none() && !m.mac.path.is_ident("morph_types") => {}
            Item::Impl(mut c)
                if c.trait_.as_ref().is_some_and(|t| t.1.segments.last().is_some_and(|s| s.ident == "Config")) =>
            {
                let path = &c.trait_.as_ref().unwrap().1;
                let pallet = path.segments[0].ident.to_string();
                let Some((_, wanted)) = p.configs.iter().find(|(n, _)| n == &pallet) else { continue };
                let all = c.items.iter().filter_map(|x| match x {
                    ImplItem::Type(t) => Some(t.ident.clone()),
                    _ => None,
                });
                SelfIsRuntime(all.collect()).visit_item_impl_mut(&mut c);
                let pallet = format_ident!("{}_config", pallet);
                let mut body = TokenStream::new();
                let mut names = TokenStream::new();
                for x in c.items {
                    if let ImplItem::Type(t) = x {
                        if wanted.contains(&t.ident) {
                            let (n, ty) = (&t.ident, &t.ty);
                            let alias = format_ident!("Picked{}", n);
                            body.extend(quote!(pub type #alias = #ty;));
                            names.extend(quote!(pub use of::#alias as #n;));
                        }
                    }
                }
                out.extend(quote! {
                    #[allow(unused_imports)]
                    pub mod #pallet {
                        mod of {
                            use super::super::*;
                            #body
                        }
                        #names
                    }
                });
            }
            i => i.to_tokens(&mut out),
        }
    }
    // the dependency on the file
    out.extend(quote!(const _: &str = include_str!(#file);));
    out
}
