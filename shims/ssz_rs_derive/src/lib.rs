use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Type};

fn is_transparent(input: &DeriveInput) -> bool {
    input.attrs.iter().any(|a| {
        a.path().is_ident("ssz") && quote!(#a).to_string().contains("transparent")
    })
}

struct Field {
    access: TS,
    name: String,
    ty: Type,
}
fn fields(input: &DeriveInput) -> Option<Vec<Field>> {
    let Data::Struct(s) = &input.data else { return None };
    Some(match &s.fields {
        Fields::Named(f) => f
            .named
            .iter()
            .map(|f| {
                let i = f.ident.as_ref().unwrap();
                Field { access: quote!(#i), name: i.to_string(), ty: f.ty.clone() }
            })
            .collect(),
        Fields::Unnamed(f) => f
            .unnamed
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let idx = syn::Index::from(i);
                Field { access: quote!(#idx), name: i.to_string(), ty: f.ty.clone() }
            })
            .collect(),
        Fields::Unit => vec![],
    })
}
/// a tuple struct of one field is a newtype and encodes as its inner value
fn newtype(input: &DeriveInput) -> bool {
    match &input.data {
        Data::Struct(s) => matches!(&s.fields, Fields::Unnamed(f) if f.unnamed.len() == 1),
        _ => false,
    }
}
fn variants(input: &DeriveInput) -> Vec<(syn::Ident, Type)> {
    let Data::Enum(e) = &input.data else { return vec![] };
    e.variants
        .iter()
        .map(|v| match &v.fields {
            Fields::Unnamed(f) if f.unnamed.len() == 1 => (v.ident.clone(), f.unnamed[0].ty.clone()),
            _ => panic!("ssz enums need exactly one unnamed field per variant"),
        })
        .collect()
}

fn serializable(input: &DeriveInput) -> TS {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    if let Some(fs) = fields(input) {
        if newtype(input) {
            let ty = &fs[0].ty;
            return quote! {
                impl #ig ssz_rs::SszSized for #name #tg #wc {
                    fn is_variable_size() -> bool { <#ty as ssz_rs::SszSized>::is_variable_size() }
                    fn size_hint() -> usize { <#ty as ssz_rs::SszSized>::size_hint() }
                }
                impl #ig ssz_rs::Serialize for #name #tg #wc {
                    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, ssz_rs::SerializeError> { ssz_rs::Serialize::serialize(&self.0, b) }
                }
                impl #ig ssz_rs::Deserialize for #name #tg #wc {
                    fn deserialize(e: &[u8]) -> Result<Self, ssz_rs::DeserializeError> { Ok(Self(<#ty as ssz_rs::Deserialize>::deserialize(e)?)) }
                }
            };
        }
        let tys: Vec<_> = fs.iter().map(|f| &f.ty).collect();
        let acc: Vec<_> = fs.iter().map(|f| &f.access).collect();
        let idx: Vec<_> = (0..fs.len()).map(syn::Index::from).collect();
        return quote! {
            impl #ig ssz_rs::SszSized for #name #tg #wc {
                fn is_variable_size() -> bool { false #(|| <#tys as ssz_rs::SszSized>::is_variable_size())* }
                fn size_hint() -> usize { if Self::is_variable_size() { 0 } else { 0 #(+ <#tys as ssz_rs::SszSized>::size_hint())* } }
            }
            impl #ig ssz_rs::Serialize for #name #tg #wc {
                fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, ssz_rs::SerializeError> {
                    let mut enc = ssz_rs::container::Encoder::default();
                    #(enc.add(&self.#acc)?;)*
                    enc.finish(b)
                }
            }
            impl #ig ssz_rs::Deserialize for #name #tg #wc {
                fn deserialize(e: &[u8]) -> Result<Self, ssz_rs::DeserializeError> {
                    let parts = ssz_rs::container::split(e, &[#((<#tys as ssz_rs::SszSized>::is_variable_size(), <#tys as ssz_rs::SszSized>::size_hint())),*])?;
                    Ok(Self { #(#acc: <#tys as ssz_rs::Deserialize>::deserialize(parts[#idx])?),* })
                }
            }
        };
    }
    assert!(is_transparent(input), "only transparent enums are supported");
    let vs = variants(input);
    let names: Vec<_> = vs.iter().map(|v| &v.0).collect();
    let tys: Vec<_> = vs.iter().map(|v| &v.1).collect();
    quote! {
        impl #ig ssz_rs::SszSized for #name #tg #wc {
            fn is_variable_size() -> bool { false #(|| <#tys as ssz_rs::SszSized>::is_variable_size())* }
            fn size_hint() -> usize { 0 }
        }
        impl #ig ssz_rs::Serialize for #name #tg #wc {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, ssz_rs::SerializeError> {
                match self { #(Self::#names(v) => ssz_rs::Serialize::serialize(v, b)),* }
            }
        }
        impl #ig ssz_rs::Deserialize for #name #tg #wc {
            fn deserialize(e: &[u8]) -> Result<Self, ssz_rs::DeserializeError> {
                #(if let Ok(v) = <#tys as ssz_rs::Deserialize>::deserialize(e) { return Ok(Self::#names(v)); })*
                Err(ssz_rs::DeserializeError::InvalidInput)
            }
        }
    }
}

fn htr(input: &DeriveInput) -> TS {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    if let Some(fs) = fields(input) {
        if newtype(input) {
            let ty = &fs[0].ty;
            return quote! {
                impl #ig ssz_rs::HashTreeRoot for #name #tg #wc {
                    fn hash_tree_root(&self) -> Result<ssz_rs::Node, ssz_rs::MerkleizationError> { ssz_rs::HashTreeRoot::hash_tree_root(&self.0) }
                    fn is_composite_type() -> bool { <#ty as ssz_rs::HashTreeRoot>::is_composite_type() }
                }
            };
        }
        let acc: Vec<_> = fs.iter().map(|f| &f.access).collect();
        let n = fs.len();
        return quote! {
            impl #ig ssz_rs::HashTreeRoot for #name #tg #wc {
                fn hash_tree_root(&self) -> Result<ssz_rs::Node, ssz_rs::MerkleizationError> {
                    let chunks = vec![#(ssz_rs::HashTreeRoot::hash_tree_root(&self.#acc)?),*];
                    ssz_rs::merkleize_chunks(chunks, #n)
                }
            }
        };
    }
    let vs = variants(input);
    let names: Vec<_> = vs.iter().map(|v| &v.0).collect();
    quote! {
        impl #ig ssz_rs::HashTreeRoot for #name #tg #wc {
            fn hash_tree_root(&self) -> Result<ssz_rs::Node, ssz_rs::MerkleizationError> {
                match self { #(Self::#names(v) => ssz_rs::HashTreeRoot::hash_tree_root(v)),* }
            }
        }
    }
}

fn gindex(input: &DeriveInput) -> TS {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let Some(fs) = fields(input) else { return quote!() };
    let body = if newtype(input) {
        let ty = &fs[0].ty;
        quote! { <#ty as ssz_rs::GeneralizedIndexable>::compute_generalized_index(base, path) }
    } else {
        let tys: Vec<_> = fs.iter().map(|f| &f.ty).collect();
        let names: Vec<_> = fs.iter().map(|f| &f.name).collect();
        let idx: Vec<_> = (0..fs.len()).collect();
        quote! {
            ssz_rs::container::field_path(path, &[#(#names),*], base, &|pos, rest, g| match pos {
                #(#idx => <#tys as ssz_rs::GeneralizedIndexable>::compute_generalized_index(g, rest),)*
                _ => unreachable!(),
            })
        }
    };
    quote! {
        impl #ig ssz_rs::GeneralizedIndexable for #name #tg #wc {
            fn compute_generalized_index(base: usize, path: &[ssz_rs::PathElement]) -> Result<usize, ssz_rs::MerkleizationError> { #body }
        }
    }
}

#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn derive_serializable(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    serializable(&input).into()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn derive_htr(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    htr(&input).into()
}
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn derive_simple(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (a, b, c) = (serializable(&input), htr(&input), gindex(&input));
    quote! { #a #b #c impl #ig ssz_rs::SimpleSerialize for #name #tg #wc {} }.into()
}
