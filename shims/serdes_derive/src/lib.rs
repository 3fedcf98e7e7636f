//! Stand-in for Expander's `serdes_derive`: field-by-field ExpSerde for structs, tag byte for enums.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(ExpSerde, attributes(exp_serde))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (ser, de) = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                let ids: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect();
                let tys: Vec<_> = f.named.iter().map(|x| x.ty.clone()).collect();
                (
                    quote! { #( ::serdes::ExpSerde::serialize_into(&self.#ids, &mut writer)?; )* Ok(()) },
                    quote! { Ok(Self { #( #ids: <#tys as ::serdes::ExpSerde>::deserialize_from(&mut reader)?, )* }) },
                )
            }
            Fields::Unnamed(f) => {
                let idx: Vec<_> = (0..f.unnamed.len()).map(syn::Index::from).collect();
                let tys: Vec<_> = f.unnamed.iter().map(|x| x.ty.clone()).collect();
                (
                    quote! { #( ::serdes::ExpSerde::serialize_into(&self.#idx, &mut writer)?; )* Ok(()) },
                    quote! { Ok(Self( #( <#tys as ::serdes::ExpSerde>::deserialize_from(&mut reader)?, )* )) },
                )
            }
            Fields::Unit => (quote! { let _ = &mut writer; Ok(()) }, quote! { let _ = &mut reader; Ok(Self) }),
        },
        Data::Enum(e) => {
            let mut sa = vec![];
            let mut da = vec![];
            for (i, v) in e.variants.iter().enumerate() {
                let tag = i as u8;
                let vi = &v.ident;
                match &v.fields {
                    Fields::Unit => {
                        sa.push(quote! { Self::#vi => { ::serdes::ExpSerde::serialize_into(&#tag, &mut writer)?; } });
                        da.push(quote! { #tag => Ok(Self::#vi), });
                    }
                    Fields::Unnamed(f) => {
                        let ids: Vec<_> = (0..f.unnamed.len()).map(|k| format_ident!("f{}", k)).collect();
                        let tys: Vec<_> = f.unnamed.iter().map(|x| x.ty.clone()).collect();
                        sa.push(quote! { Self::#vi( #(#ids),* ) => { ::serdes::ExpSerde::serialize_into(&#tag, &mut writer)?; #( ::serdes::ExpSerde::serialize_into(#ids, &mut writer)?; )* } });
                        da.push(quote! { #tag => Ok(Self::#vi( #( <#tys as ::serdes::ExpSerde>::deserialize_from(&mut reader)?, )* )), });
                    }
                    Fields::Named(f) => {
                        let ids: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect();
                        let tys: Vec<_> = f.named.iter().map(|x| x.ty.clone()).collect();
                        sa.push(quote! { Self::#vi { #(#ids),* } => { ::serdes::ExpSerde::serialize_into(&#tag, &mut writer)?; #( ::serdes::ExpSerde::serialize_into(#ids, &mut writer)?; )* } });
                        da.push(quote! { #tag => Ok(Self::#vi { #( #ids: <#tys as ::serdes::ExpSerde>::deserialize_from(&mut reader)?, )* }), });
                    }
                }
            }
            (
                quote! { match self { #(#sa)* } Ok(()) },
                quote! { match <u8 as ::serdes::ExpSerde>::deserialize_from(&mut reader)? { #(#da)* _ => Err(::serdes::SerdeError::DeserializeError) } },
            )
        }
        Data::Union(_) => panic!("unions unsupported"),
    };
    quote! {
        #[automatically_derived]
        impl #ig ::serdes::ExpSerde for #name #tg #wc {
            fn serialize_into<W_: std::io::Write>(&self, mut writer: W_) -> ::serdes::SerdeResult<()> { #ser }
            fn deserialize_from<R_: std::io::Read>(mut reader: R_) -> ::serdes::SerdeResult<Self> { #de }
        }
    }
    .into()
}
