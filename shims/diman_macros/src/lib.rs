use std::collections::BTreeMap;

use proc_macro::TokenStream;
use proc_macro2::{Ident, TokenStream as Ts};
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::punctuated::Punctuated;
use syn::*;

#[proc_macro_attribute]
pub fn dimension(_args: TokenStream, input: TokenStream) -> TokenStream {
    let s: ItemStruct = parse_macro_input!(input as ItemStruct);
    let name = &s.ident;
    let f: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    quote!(
        #[derive(Clone, Copy, PartialEq, Eq, Debug, ::std::marker::ConstParamTy)]
        #s
        impl #name {
            #[doc(hidden)]
            pub const __NONE: Self = Self { #( #f: 0, )* };
            pub const fn dimension_mul(self, o: Self) -> Self {
                Self { #( #f: self.#f + o.#f, )* }
            }
            pub const fn dimension_div(self, o: Self) -> Self {
                Self { #( #f: self.#f - o.#f, )* }
            }
            pub const fn dimension_inv(self) -> Self {
                Self { #( #f: -self.#f, )* }
            }
            pub const fn dimension_powi(self, n: i32) -> Self {
                Self { #( #f: self.#f * n, )* }
            }
            pub const fn dimension_sqrt(self) -> Self {
                #( if self.#f % 2 != 0 { panic!("Cannot take square root of quantity with a dimension that is not divisible by 2"); } )*
                Self { #( #f: self.#f / 2, )* }
            }
            pub const fn dimension_cbrt(self) -> Self {
                #( if self.#f % 3 != 0 { panic!("Cannot take cubic root of quantity with a dimension that is not divisible by 3"); } )*
                Self { #( #f: self.#f / 3, )* }
            }
        }
    )
    .into()
}

type Dim = BTreeMap<String, i32>;
#[derive(Clone)]
struct Val {
    f: f64,
    d: Dim,
}
fn comb(a: &Dim, b: &Dim, s: i32) -> Dim {
    let mut r = a.clone();
    for (k, v) in b {
        *r.entry(k.clone()).or_insert(0) += s * v;
    }
    r.retain(|_, v| *v != 0);
    r
}

enum Entry {
    Def(Ident, Rhs),
    Unit(Ident, Option<String>, Expr),
    Constant(Ident, Expr),
}
enum Rhs {
    Dims(Dim),
    Expr(Expr),
}
struct Input {
    quantity: Ident,
    dimension: Ident,
    entries: Vec<Entry>,
}
mod kw {
    syn::custom_keyword!(def);
    syn::custom_keyword!(unit);
    syn::custom_keyword!(constant);
}
struct Field(Ident, i32);
impl Parse for Field {
    fn parse(i: ParseStream) -> Result<Self> {
        let id: Ident = i.parse()?;
        i.parse::<Token![:]>()?;
        let neg = i.parse::<Option<Token![-]>>()?.is_some();
        let n: LitInt = i.parse()?;
        let n: i32 = n.base10_parse()?;
        Ok(Field(id, if neg { -n } else { n }))
    }
}
impl Parse for Entry {
    fn parse(i: ParseStream) -> Result<Self> {
        if i.peek(kw::def) {
            i.parse::<kw::def>()?;
            let name: Ident = i.parse()?;
            i.parse::<Token![=]>()?;
            let rhs = if i.peek(token::Brace) {
                let c;
                braced!(c in i);
                let fs: Punctuated<Field, Token![,]> = c.parse_terminated(Field::parse)?;
                let mut d = Dim::new();
                for f in fs {
                    if f.1 != 0 {
                        d.insert(f.0.to_string(), f.1);
                    }
                }
                Rhs::Dims(d)
            } else {
                Rhs::Expr(i.parse()?)
            };
            Ok(Entry::Def(name, rhs))
        } else if i.peek(kw::unit) {
            i.parse::<kw::unit>()?;
            let (name, sym) = if i.peek(token::Paren) {
                let c;
                parenthesized!(c in i);
                let n: Ident = c.parse()?;
                c.parse::<Token![,]>()?;
                let s: LitStr = c.parse()?;
                (n, Some(s.value()))
            } else {
                (i.parse()?, None)
            };
            i.parse::<Token![=]>()?;
            Ok(Entry::Unit(name, sym, i.parse()?))
        } else {
            i.parse::<kw::constant>()?;
            let name: Ident = i.parse()?;
            i.parse::<Token![=]>()?;
            Ok(Entry::Constant(name, i.parse()?))
        }
    }
}
impl Parse for Input {
    fn parse(i: ParseStream) -> Result<Self> {
        let quantity = i.parse()?;
        i.parse::<Token![,]>()?;
        let dimension = i.parse()?;
        i.parse::<Token![,]>()?;
        let c;
        bracketed!(c in i);
        let entries: Punctuated<Entry, Token![,]> = c.parse_terminated(Entry::parse)?;
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(Input {
            quantity,
            dimension,
            entries: entries.into_iter().collect(),
        })
    }
}
fn eval(e: &Expr, m: &BTreeMap<String, Val>) -> Option<Val> {
    match e {
        Expr::Paren(p) => eval(&p.expr, m),
        Expr::Group(p) => eval(&p.expr, m),
        Expr::Lit(l) => {
            let f = match &l.lit {
                Lit::Int(i) => i.base10_parse::<f64>().unwrap(),
                Lit::Float(f) => f.base10_parse::<f64>().unwrap(),
                _ => panic!("unexpected literal"),
            };
            Some(Val { f, d: Dim::new() })
        }
        Expr::Path(p) => m.get(&p.path.get_ident().unwrap().to_string()).cloned(),
        Expr::Binary(b) => {
            let l = eval(&b.left, m)?;
            let r = eval(&b.right, m)?;
            Some(match b.op {
                BinOp::Mul(_) => Val {
                    f: l.f * r.f,
                    d: comb(&l.d, &r.d, 1),
                },
                BinOp::Div(_) => Val {
                    f: l.f / r.f,
                    d: comb(&l.d, &r.d, -1),
                },
                _ => panic!("unexpected operator"),
            })
        }
        _ => panic!("unexpected expression"),
    }
}

#[proc_macro]
pub fn unit_system(input: TokenStream) -> TokenStream {
    let inp: Input = parse_macro_input!(input as Input);
    let mut m: BTreeMap<String, Val> = BTreeMap::new();
    let mut todo: Vec<&Entry> = inp.entries.iter().collect();
    while !todo.is_empty() {
        let n = todo.len();
        todo.retain(|e| {
            let (name, v) = match e {
                Entry::Def(n, Rhs::Dims(d)) => (n, Some(Val { f: 1.0, d: d.clone() })),
                Entry::Def(n, Rhs::Expr(x)) => (n, eval(x, &m)),
                Entry::Unit(n, _, x) => (n, eval(x, &m)),
                Entry::Constant(n, x) => (n, eval(x, &m)),
            };
            if let Some(v) = v {
                m.insert(name.to_string(), v);
                false
            } else {
                true
            }
        });
        assert!(todo.len() < n, "cyclic or undefined names in unit system");
    }
    let q = &inp.quantity;
    let dm = &inp.dimension;
    let dim = |d: &Dim| -> Ts {
        let k: Vec<Ident> = d.keys().map(|k| format_ident!("{}", k)).collect();
        let v = d.values();
        quote!({ #dm { #( #k: #v, )* ..#dm::__NONE } })
    };
    let f64_ = quote!(::core::primitive::f64);
    let storages: [(Ident, Ts); 3] = [
        (format_ident!("f64"), f64_.clone()),
        (format_ident!("dvec2"), quote!(::glam::DVec2)),
        (format_ident!("dvec3"), quote!(::glam::DVec3)),
    ];
    let mut out = Ts::new();
    for (modname, st) in storages.iter() {
        let mut types = Ts::new();
        for e in inp.entries.iter() {
            if let Entry::Def(n, _) = e {
                let d = dim(&m[&n.to_string()].d);
                types.extend(quote!(pub type #n = super::#q<#st, #d>;));
            }
        }
        out.extend(quote!(
            pub mod #modname {
                #[allow(unused_imports)]
                use super::#dm;
                #types
            }
        ));
    }
    let mut symbols = Ts::new();
    for e in inp.entries.iter() {
        match e {
            Entry::Unit(n, sym, _) => {
                let v = &m[&n.to_string()];
                let d = dim(&v.d);
                let f = v.f;
                let inn = format_ident!("in_{}", n);
                out.extend(quote!(
                    impl #q<#f64_, #d> {
                        pub const fn #n(v: #f64_) -> Self { Self(v * #f) }
                        pub fn #inn(self) -> #f64_ { self.0 / #f }
                    }
                    impl #q<::glam::DVec2, #d> {
                        pub fn #n(x: #f64_, y: #f64_) -> Self { Self(::glam::DVec2::new(x, y) * #f) }
                        pub fn #inn(self) -> ::glam::DVec2 { self.0 / #f }
                    }
                    impl #q<::glam::DVec3, #d> {
                        pub fn #n(x: #f64_, y: #f64_, z: #f64_) -> Self { Self(::glam::DVec3::new(x, y, z) * #f) }
                        pub fn #inn(self) -> ::glam::DVec3 { self.0 / #f }
                    }
                ));
                if let Some(s) = sym {
                    symbols.extend(quote!((#s, #d, #f),));
                }
            }
            Entry::Constant(n, _) => {
                let v = &m[&n.to_string()];
                let d = dim(&v.d);
                let f = v.f;
                out.extend(quote!(pub const #n: #q<#f64_, #d> = #q::<#f64_, #d>(#f);));
            }
            _ => {}
        }
    }
    let glue: Ts = GLUE
        .replace("QQ", &q.to_string())
        .replace("DD", &dm.to_string())
        .replace("F64", "::core::primitive::f64")
        .parse()
        .unwrap();
    out.extend(quote!(
        #[doc(hidden)]
        const __UNIT_SYMBOLS: &[(&str, #dm, #f64_)] = &[#symbols];
    ));
    out.extend(glue);
    out.into()
}

const GLUE: &str = include_str!("glue.rs.txt");
