//! `#[frame_support::pallet]` for symbolic execution: expands a pallet module to plain Rust over
//! the traits and storage types of the `shim` crate. Weights, metadata and genesis are left out;
//! calls, storage, events, errors, origins and reasons behave as in FRAME.
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::{
    parse_quote, visit_mut::VisitMut, Attribute, Fields, FnArg, GenericArgument, ImplItem, Item, ItemEnum, ItemFn,
    ItemImpl, ItemMod, ItemStruct, ItemType, Pat, PathArguments, ReturnType, TraitItem, Type,
};

fn pallet_attr<'a>(attrs: &'a [Attribute], name: &str) -> Option<&'a Attribute> {
    attrs.iter().find(|a| {
        let p = a.path();
        p.segments.len() == 2 && p.segments[0].ident == "pallet" && p.segments[1].ident == name
    })
}

fn strip(attrs: &mut Vec<Attribute>) {
    attrs.retain(|a| !(a.path().segments.len() == 2 && a.path().segments[0].ident == "pallet"));
}

/// Removes every remaining `#[pallet::..]` attribute.
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, attrs: &mut Vec<Attribute>) {
        strip(attrs);
    }
}

fn strip_trait_items(items: &mut [TraitItem]) {
    for i in items {
        match i {
            TraitItem::Type(t) => strip(&mut t.attrs),
            TraitItem::Fn(t) => strip(&mut t.attrs),
            TraitItem::Const(t) => strip(&mut t.attrs),
            _ => {}
        }
    }
}

/// Clone, PartialEq, Eq and Debug without bounds on the type parameters.
fn no_bound(e: &ItemEnum, extra: &TokenStream) -> TokenStream {
    let name = &e.ident;
    let (ig, tg, wc) = e.generics.split_for_impl();
    let mut clone = vec![];
    let mut eq = vec![];
    let mut dbg = vec![];
    for v in &e.variants {
        if v.ident == "__Ignore" {
            continue;
        }
        let vi = &v.ident;
        let cfg: Vec<_> = v.attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
        let vs = vi.to_string();
        match &v.fields {
            Fields::Named(f) => {
                let n: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                let a: Vec<_> = n.iter().map(|n| format_ident!("__a_{}", n)).collect();
                let b: Vec<_> = n.iter().map(|n| format_ident!("__b_{}", n)).collect();
                clone.push(quote!(#(#cfg)* #name::#vi { #(#n: #a),* } => #name::#vi { #(#n: ::core::clone::Clone::clone(#a)),* },));
                eq.push(quote!(#(#cfg)* (#name::#vi { #(#n: #a),* }, #name::#vi { #(#n: #b),* }) => true #(&& *#a == *#b)*,));
            }
            Fields::Unnamed(f) => {
                let a: Vec<_> = (0..f.unnamed.len()).map(|i| format_ident!("__a_{}", i)).collect();
                let b: Vec<_> = (0..f.unnamed.len()).map(|i| format_ident!("__b_{}", i)).collect();
                clone.push(quote!(#(#cfg)* #name::#vi(#(#a),*) => #name::#vi(#(::core::clone::Clone::clone(#a)),*),));
                eq.push(quote!(#(#cfg)* (#name::#vi(#(#a),*), #name::#vi(#(#b),*)) => true #(&& *#a == *#b)*,));
            }
            Fields::Unit => {
                clone.push(quote!(#(#cfg)* #name::#vi => #name::#vi,));
                eq.push(quote!(#(#cfg)* (#name::#vi, #name::#vi) => true,));
            }
        }
        dbg.push(quote!(#(#cfg)* #name::#vi { .. } => f.write_str(#vs),));
    }
    quote! {
        #extra
        impl #ig ::core::clone::Clone for #name #tg #wc {
            fn clone(&self) -> Self {
                match self { #(#clone)* _ => unreachable!() }
            }
        }
        #[allow(unreachable_patterns)]
        impl #ig ::core::cmp::PartialEq for #name #tg #wc {
            fn eq(&self, other: &Self) -> bool {
                match (self, other) { #(#eq)* _ => false }
            }
        }
        impl #ig ::core::cmp::Eq for #name #tg #wc {}
        impl #ig ::core::fmt::Debug for #name #tg #wc {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                match self { #(#dbg)* _ => f.write_str("ignored") }
            }
        }
    }
}

#[proc_macro_attribute]
pub fn pallet(_attr: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let m = syn::parse_macro_input!(item as ItemMod);
    expand(m).unwrap_or_else(|e| e.to_compile_error()).into()
}

fn expand(mut m: ItemMod) -> syn::Result<TokenStream> {
    let pallet_name = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
    let pallet_index = pallet_name.bytes().fold(7u8, |a, b| a.wrapping_mul(31).wrapping_add(b));
    let (_, items) = m.content.take().ok_or_else(|| syn::Error::new(Span::call_site(), "pallet module needs a body"))?;
    let mut out: Vec<TokenStream> = vec![];
    let mut slots = 0usize;
    let mut inits: Vec<TokenStream> = vec![];
    let mut has_calls = false;
    for item in items {
        match item {
            Item::Trait(mut t) if pallet_attr(&t.attrs, "config").is_some() => {
                strip(&mut t.attrs);
                strip_trait_items(&mut t.items);
                out.push(t.into_token_stream());
            }
            Item::Struct(mut s) if pallet_attr(&s.attrs, "pallet").is_some() => {
                strip(&mut s.attrs);
                let ItemStruct { attrs, vis, ident, generics, .. } = &s;
                out.push(quote!(#(#attrs)* #vis struct #ident #generics (::core::marker::PhantomData<T>);));
            }
            Item::Type(t) if pallet_attr(&t.attrs, "storage").is_some() => {
                let cfgs: Vec<_> = t.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect();
                let (ts, name) = storage(t, slots)?;
                slots += 1;
                out.push(ts);
                inits.push(quote!(
                    #(#cfgs)* let mut item = <#name<T>>::__fresh();
                    #(#cfgs)* <#name<T>>::__install(&mut item);
                ));
            }
            Item::Enum(e) if pallet_attr(&e.attrs, "event").is_some() => out.push(event(e)?),
            Item::Enum(e) if pallet_attr(&e.attrs, "error").is_some() => out.push(error(e, pallet_index)?),
            Item::Enum(mut e) if pallet_attr(&e.attrs, "composite_enum").is_some() => {
                strip(&mut e.attrs);
                out.push(quote! {
                    #[derive(Copy, Clone, Eq, PartialEq, Debug,
                        ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode,
                        ::frame_support::__private::codec::MaxEncodedLen, ::frame_support::__private::scale_info::TypeInfo)]
                    #[codec(crate = ::frame_support::__private::codec)]
                    #[scale_info(crate = ::frame_support::__private::scale_info)]
                    #e
                });
            }
            Item::Impl(i) if pallet_attr(&i.attrs, "call").is_some() => {
                has_calls = true;
                out.push(calls(i)?)
            }
            Item::Fn(f) if pallet_attr(&f.attrs, "type_value").is_some() => out.push(type_value(f)),
            Item::Impl(i) if pallet_attr(&i.attrs, "genesis_build").is_some() => drop(i),
            Item::Struct(i) if pallet_attr(&i.attrs, "genesis_config").is_some() => drop(i),
            mut other => {
                Strip.visit_item_mut(&mut other);
                out.push(other.into_token_stream());
            }
        }
    }
    if !has_calls {
        out.push(call_enum(&[]));
    }
    let n = slots.max(1);
    let attrs = &m.attrs;
    let vis = &m.vis;
    let ident = &m.ident;
    Ok(quote! {
        #(#attrs)*
        #[allow(unused, static_mut_refs)]
        #vis mod #ident {
            #(#out)*

            #[doc(hidden)]
            pub static mut __SLOTS: [*mut (); #n] = [::core::ptr::null_mut(); #n];
            /// Runs `f` over empty storage, which lives in local variables: typed objects, unlike
            /// what an allocator returns, so that symbolic execution keeps track of constants.
            #[doc(hidden)]
            pub fn __with_storage<T: Config>(f: impl FnOnce()) {
                #(#inits)*
                f();
            }
        }
    })
}

fn storage(mut t: ItemType, slot: usize) -> syn::Result<(TokenStream, Ident)> {
    let getter = pallet_attr(&t.attrs, "getter").map(|a| {
        a.parse_args_with(|i: syn::parse::ParseStream| {
            let vis: syn::Visibility = i.parse()?;
            i.parse::<syn::Token![fn]>()?;
            Ok((vis, i.parse::<Ident>()?))
        })
    });
    strip(&mut t.attrs);
    // harnesses place and inspect state, as a storage query would
    t.vis = parse_quote!(pub);
    let cfgs: Vec<_> = t.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect();
    let name = t.ident.clone();
    let prefix = format_ident!("__Prefix{}", name);
    let on_empty = format_ident!("__OnEmpty{}", name);
    let mut extra = quote!();
    let Type::Path(p) = &mut *t.ty else { return Err(syn::Error::new_spanned(&t.ty, "unexpected storage type")) };
    let kind = p.path.segments.last().unwrap().ident.clone();
    let PathArguments::AngleBracketed(args) = &mut p.path.segments.last_mut().unwrap().arguments else {
        return Err(syn::Error::new_spanned(&t.ty, "storage type without arguments"));
    };
    if let Some(GenericArgument::Type(a @ Type::Infer(_))) = args.args.first_mut() {
        *a = parse_quote!(#prefix<T>);
    }
    for a in args.args.iter_mut() {
        let GenericArgument::Type(Type::Path(q)) = a else { continue };
        let last = q.path.segments.last_mut().unwrap();
        if last.ident != "ResultQuery" {
            continue;
        }
        let PathArguments::AngleBracketed(inner) = &last.arguments else { continue };
        let Some(GenericArgument::Type(Type::Path(e))) = inner.args.first() else { continue };
        let variant = e.path.segments.last().unwrap().ident.clone();
        let mut error = e.path.clone();
        error.segments.pop();
        error.segments.pop_punct();
        last.arguments = PathArguments::AngleBracketed(parse_quote!(<#error, #on_empty<T>>));
        let mut turbo = error.clone();
        if let PathArguments::AngleBracketed(x) = &mut turbo.segments.last_mut().unwrap().arguments {
            x.colon2_token = Some(Default::default());
        }
        extra = quote! {
            #[doc(hidden)]
            pub struct #on_empty<T>(::core::marker::PhantomData<T>);
            impl<T: Config> ::frame_support::traits::Get<#error> for #on_empty<T> {
                fn get() -> #error { #turbo::#variant }
            }
        };
    }
    let get = match getter {
        Some(g) => {
            let (vis, f) = g?;
            match kind.to_string().as_str() {
                "StorageValue" => quote! { impl<T: Config> Pallet<T> { #vis fn #f() -> <#name<T> as ::frame_support::storage::Queried>::Query { <#name<T>>::get() } } },
                "StorageMap" | "CountedStorageMap" => quote! { impl<T: Config> Pallet<T> {
                    #vis fn #f<A>(k: A) -> <#name<T> as ::frame_support::storage::Queried>::Query
                    where A: ::frame_support::__private::codec::EncodeLike<<#name<T> as ::frame_support::storage::Queried>::Key1> { <#name<T>>::get(k) } } },
                _ => quote! { impl<T: Config> Pallet<T> {
                    #vis fn #f<A, B>(a: A, b: B) -> <#name<T> as ::frame_support::storage::Queried>::Query
                    where A: ::frame_support::__private::codec::EncodeLike<<#name<T> as ::frame_support::storage::Queried>::Key1>,
                        B: ::frame_support::__private::codec::EncodeLike<<#name<T> as ::frame_support::storage::Queried>::Key2> { <#name<T>>::get(a, b) } } },
            }
        }
        None => quote!(),
    };
    Ok((
        quote! {
            #t
            #(#cfgs)*
            #[doc(hidden)]
            pub struct #prefix<T>(::core::marker::PhantomData<T>);
            #(#cfgs)*
            impl<T> ::frame_support::storage::Slot for #prefix<T> {
                fn slot() -> &'static mut *mut () {
                    unsafe { &mut __SLOTS[#slot] }
                }
            }
            #extra
            #get
        },
        name,
    ))
}

fn event(mut e: ItemEnum) -> syn::Result<TokenStream> {
    let deposit = pallet_attr(&e.attrs, "generate_deposit").map(|a| {
        a.parse_args_with(|i: syn::parse::ParseStream| {
            let vis: syn::Visibility = i.parse()?;
            i.parse::<syn::Token![fn]>()?;
            Ok((vis, i.parse::<Ident>()?))
        })
    });
    strip(&mut e.attrs);
    for v in e.variants.iter_mut() {
        strip(&mut v.attrs);
    }
    let generic = !e.generics.params.is_empty();
    if generic {
        e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<T>)));
    }
    let name = &e.ident;
    let ty = if generic { quote!(#name<T>) } else { quote!(#name) };
    let dep = match deposit {
        Some(d) => {
            let (vis, f) = d?;
            quote! {
                impl<T: Config> Pallet<T> {
                    #vis fn #f(event: #ty) {
                        let event = <<T as Config>::RuntimeEvent as From<#ty>>::from(event);
                        let event: <T as ::frame_system::Config>::RuntimeEvent = event.into();
                        ::frame_system::Pallet::<T>::deposit_event(event);
                    }
                }
            }
        }
        None => quote!(),
    };
    let nb = no_bound(&e, &quote!());
    Ok(quote!(#e #nb #dep))
}

fn error(mut e: ItemEnum, pallet_index: u8) -> syn::Result<TokenStream> {
    strip(&mut e.attrs);
    let names: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
    for v in e.variants.iter_mut() {
        strip(&mut v.attrs);
    }
    e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<T>)));
    let name = &e.ident;
    let nb = no_bound(&e, &quote!());
    let idx: Vec<u8> = (0..names.len() as u8).collect();
    Ok(quote! {
        #e
        #nb
        impl<T> #name<T> {
            #[doc(hidden)]
            pub fn __index(&self) -> u8 {
                match self { #(#name::#names { .. } => #idx,)* #name::__Ignore(_) => u8::MAX }
            }
        }
        impl<T> From<#name<T>> for ::frame_support::__private::DispatchError {
            fn from(e: #name<T>) -> Self {
                ::frame_support::__private::DispatchError::Module(::frame_support::__private::ModuleError {
                    index: #pallet_index,
                    error: [e.__index(), 0, 0, 0],
                    message: None,
                })
            }
        }
        impl<T> From<#name<T>> for &'static str {
            fn from(_: #name<T>) -> &'static str { "error" }
        }
    })
}

fn type_value(f: ItemFn) -> TokenStream {
    let vis = &f.vis;
    let name = &f.sig.ident;
    let ReturnType::Type(_, ret) = &f.sig.output else { return quote!(compile_error!("type_value")) };
    let body = &f.block;
    let params = &f.sig.generics.params;
    if params.is_empty() {
        quote! {
            #vis struct #name;
            impl ::frame_support::traits::Get<#ret> for #name { fn get() -> #ret #body }
        }
    } else {
        quote! {
            #vis struct #name<T>(::core::marker::PhantomData<T>);
            impl<#params> ::frame_support::traits::Get<#ret> for #name<T> { fn get() -> #ret #body }
        }
    }
}

struct CallInfo {
    name: Ident,
    args: Vec<(Ident, Type)>,
    attrs: Vec<Attribute>,
}

fn call_enum(calls: &[CallInfo]) -> TokenStream {
    let variants = calls.iter().map(|c| {
        let (n, args) = (&c.name, &c.args);
        let names = args.iter().map(|a| &a.0);
        let types = args.iter().map(|a| &a.1);
        let attrs = &c.attrs;
        quote!(#(#attrs)* #n { #(#names: #types),* },)
    });
    let e: ItemEnum = parse_quote! {
        #[allow(non_camel_case_types)]
        pub enum Call<T: Config> {
            #(#variants)*
            #[doc(hidden)]
            __Ignore(::core::marker::PhantomData<T>),
        }
    };
    let nb = no_bound(&e, &quote!());
    let arms = calls.iter().map(|c| {
        let n = &c.name;
        let args: Vec<_> = c.args.iter().map(|a| &a.0).collect();
        let attrs = &c.attrs;
        quote! {
            #(#attrs)*
            Call::#n { #(#args),* } => Pallet::<T>::#n(origin, #(#args),*).map(Into::into).map_err(Into::into),
        }
    });
    quote! {
        #e
        #nb
        impl<T: Config> ::frame_support::traits::UnfilteredDispatchable for Call<T> {
            type RuntimeOrigin = <T as ::frame_system::Config>::RuntimeOrigin;
            fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
                match self {
                    #(#arms)*
                    Call::__Ignore(_) => unreachable!(),
                }
            }
        }
        impl<T: Config> ::frame_support::dispatch::GetDispatchInfo for Call<T> {
            fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { Default::default() }
        }
    }
}

fn calls(mut i: ItemImpl) -> syn::Result<TokenStream> {
    strip(&mut i.attrs);
    let mut infos = vec![];
    for it in i.items.iter_mut() {
        let ImplItem::Fn(f) = it else { continue };
        strip(&mut f.attrs);
        let mut args = vec![];
        for (k, a) in f.sig.inputs.iter_mut().enumerate() {
            let FnArg::Typed(a) = a else { continue };
            strip(&mut a.attrs);
            if k == 0 {
                continue;
            }
            let id = match &*a.pat {
                Pat::Ident(p) => p.ident.clone(),
                _ => format_ident!("__arg{}", k),
            };
            args.push((id, (*a.ty).clone()));
        }
        infos.push(CallInfo {
            name: f.sig.ident.clone(),
            args,
            attrs: f.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect(),
        });
    }
    let e = call_enum(&infos);
    Ok(quote!(#i #e))
}

mod pick;

/// The items of a source file of the repository that can be built against the stand-ins.
#[proc_macro]
pub fn pick(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    pick::pick(syn::parse_macro_input!(input as pick::Pick)).into()
}
