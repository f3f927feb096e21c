use proc_macro::TokenStream;
use quote::quote;
use syn::*;

fn marker(input: TokenStream, tr: proc_macro2::TokenStream) -> TokenStream {
    let mut ast: DeriveInput = parse(input).unwrap();
    let name = ast.ident.clone();
    ast.generics
        .make_where_clause()
        .predicates
        .push(parse_quote!(Self: Send + Sync + 'static));
    let (ig, tg, wc) = ast.generics.split_for_impl();
    quote!(impl #ig #tr for #name #tg #wc {}).into()
}

#[proc_macro_derive(Component, attributes(component))]
pub fn component(input: TokenStream) -> TokenStream {
    marker(input, quote!(bevy_ecs::component::Component))
}

#[proc_macro_derive(Resource)]
pub fn resource(input: TokenStream) -> TokenStream {
    marker(input, quote!(bevy_ecs::system::Resource))
}

#[proc_macro_derive(Bundle, attributes(bundle))]
pub fn bundle(input: TokenStream) -> TokenStream {
    let ast: DeriveInput = parse(input).unwrap();
    let name = ast.ident.clone();
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let fields: Vec<_> = match ast.data {
        Data::Struct(DataStruct {
            fields: Fields::Named(ref f),
            ..
        }) => f.named.iter().map(|f| f.ident.clone().unwrap()).collect(),
        _ => panic!("Bundle derive: named structs only"),
    };
    quote!(
        impl #ig bevy_ecs::bundle::Bundle for #name #tg #wc {
            fn insert_into(self, world: &mut bevy_ecs::world::World, e: bevy_ecs::entity::Entity) {
                #( bevy_ecs::bundle::Bundle::insert_into(self.#fields, world, e); )*
            }
            fn remove_from(world: &mut bevy_ecs::world::World, e: bevy_ecs::entity::Entity) {
                let _ = (world, e);
                unimplemented!()
            }
        }
    )
    .into()
}

fn label(input: TokenStream, tr: proc_macro2::TokenStream, id: proc_macro2::TokenStream) -> TokenStream {
    let ast: DeriveInput = parse(input).unwrap();
    let name = ast.ident.clone();
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let (idx, st) = match ast.data {
        Data::Enum(ref e) => {
            let vs: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let is = 0..vs.len() as u64;
            (
                quote!(match self { #( Self::#vs { .. } => #is, )* }),
                quote!(match self { #( Self::#vs { .. } => concat!(stringify!(#name), "::", stringify!(#vs)), )* }),
            )
        }
        _ => (quote!(0u64), quote!(stringify!(#name))),
    };
    quote!(
        impl #ig #tr for #name #tg #wc {
            fn as_label(&self) -> #id {
                <#id>::make(::std::any::TypeId::of::<Self>(), #idx, self.as_str())
            }
            fn as_str(&self) -> &'static str { #st }
        }
    )
    .into()
}

#[proc_macro_derive(StageLabel)]
pub fn stage_label(input: TokenStream) -> TokenStream {
    label(
        input,
        quote!(bevy_ecs::schedule::StageLabel),
        quote!(bevy_ecs::schedule::StageLabelId),
    )
}

#[proc_macro_derive(SystemLabel)]
pub fn system_label(input: TokenStream) -> TokenStream {
    label(
        input,
        quote!(bevy_ecs::schedule::SystemLabel),
        quote!(bevy_ecs::schedule::SystemLabelId),
    )
}
