//! Stand-in for metrics-derive: only the generated signatures matter.
use proc_macro::TokenStream;
#[proc_macro_derive(Metrics, attributes(metrics, metric))]
pub fn derive(input: TokenStream) -> TokenStream {
    let i = syn::parse_macro_input!(input as syn::DeriveInput);
    let n = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    quote::quote! {
        impl #ig #n #tg #wc {
            pub fn new_with_labels(_labels: impl ::metrics::IntoLabels) -> Self { unimplemented!() }
            pub fn describe() {}
        }
        impl #ig ::std::default::Default for #n #tg #wc { fn default() -> Self { unimplemented!() } }
        impl #ig ::std::fmt::Debug for #n #tg #wc {
            fn fmt(&self, _f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { unimplemented!() }
        }
    }.into()
}
