//! conditional compilation: keep what the default feature set keeps (and drop test items)
use quote::ToTokens;
use syn::parse::{Parse, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const FEATURES: &[&str] = &["remote-samples", "local-samples", "option-parsing"];

fn eval(m: &Meta) -> bool {
    match m {
        Meta::Path(_) => false, // test, json_typegen_verif, ...
        Meta::NameValue(nv) => {
            nv.path.is_ident("feature")
                && matches!(&nv.value, Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if FEATURES.contains(&s.value().as_str()))
        }
        Meta::List(l) => {
            let inner = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).map(|p| p.into_iter().collect::<Vec<_>>()).unwrap_or_default();
            match l.path.get_ident().map(|i| i.to_string()).unwrap_or_default().as_str() {
                "not" => !inner.iter().any(eval),
                "all" => inner.iter().all(eval),
                "any" => inner.iter().any(eval),
                _ => false,
            }
        }
    }
}
fn on(attrs: &[Attribute]) -> bool {
    attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| a.parse_args::<Meta>().map(|m| eval(&m)).unwrap_or(true))
}
fn outer<T: ToTokens>(t: &T) -> Vec<Attribute> {
    let p = |i: parse::ParseStream| -> Result<Vec<Attribute>> {
        let a = Attribute::parse_outer(i)?;
        let _ = proc_macro2::TokenStream::parse(i)?;
        Ok(a)
    };
    p.parse2(t.to_token_stream()).unwrap_or_default()
}
pub struct Cfg;
impl VisitMut for Cfg {
    fn visit_file_mut(&mut self, f: &mut File) {
        f.items.retain(|i| on(&outer(i)));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, f: &mut ItemMod) {
        if let Some((_, c)) = &mut f.content {
            c.retain(|i| on(&outer(i)));
        }
        visit_mut::visit_item_mod_mut(self, f);
    }
    fn visit_item_impl_mut(&mut self, f: &mut ItemImpl) {
        f.items.retain(|i| on(&outer(i)));
        visit_mut::visit_item_impl_mut(self, f);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| on(&outer(s)));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| on(&a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        e.variants = e.variants.iter().filter(|v| on(&v.attrs)).cloned().collect();
        visit_mut::visit_item_enum_mut(self, e);
    }
    fn visit_fields_named_mut(&mut self, e: &mut FieldsNamed) {
        e.named = e.named.iter().filter(|v| on(&v.attrs)).cloned().collect();
        visit_mut::visit_fields_named_mut(self, e);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|a| !a.path().is_ident("cfg"));
    }
}
