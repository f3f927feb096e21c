use proc_macro::TokenStream;
use quote::quote;
use syn::*;
/// Stand-in: only `#[repr(transparent)]` newtypes (and `#[repr(C)]` structs with a single field).
#[proc_macro_derive(H5Type, attributes(hdf5))]
pub fn h5type(input: TokenStream) -> TokenStream {
    let ast: DeriveInput = parse(input).unwrap();
    let name = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let f = match &ast.data {
        Data::Struct(s) if s.fields.len() == 1 => s.fields.iter().next().unwrap().ty.clone(),
        _ => panic!("stand-in H5Type derive supports newtypes only"),
    };
    quote!(
        unsafe impl #ig ::hdf5::H5Type for #name #tg #wc {
            fn type_descriptor() -> ::hdf5::types::TypeDescriptor {
                <#f as ::hdf5::H5Type>::type_descriptor()
            }
        }
    )
    .into()
}
