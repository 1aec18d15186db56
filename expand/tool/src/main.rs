//! Expands each `{id, args, item}` line of stdin with the macro's own code and writes a summary of what came out.
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn toks(t: impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

fn attrs(a: &[syn::Attribute]) -> Value {
    Value::Array(
        a.iter()
            .filter(|a| !a.path().is_ident("doc"))
            .map(|a| {
                let m = &a.meta;
                Value::String(toks(m))
            })
            .collect(),
    )
}

fn docs(a: &[syn::Attribute]) -> Value {
    Value::Array(a.iter().filter(|a| a.path().is_ident("doc")).map(|a| Value::String(toks(&a.meta))).collect())
}

fn sig(vis: &syn::Visibility, at: &[syn::Attribute], s: &syn::Signature, body: String) -> Value {
    let recv = s.inputs.first().and_then(|a| match a {
        syn::FnArg::Receiver(r) => Some(toks(r)),
        _ => None,
    });
    let args: Vec<String> = s
        .inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Typed(t) => Some(toks(&t.ty)),
            _ => None,
        })
        .collect();
    json!({ "name": s.ident.to_string(), "vis": toks(vis), "attrs": attrs(at), "docs": docs(at), "async": s.asyncness.is_some(), "recv": recv,
            "args": args, "ret": toks(&s.output), "generics": toks(&s.generics), "body": body })
}

fn fields(f: &syn::Fields) -> Value {
    Value::Array(
        f.iter()
            .map(|f| {
                json!({ "name": f.ident.as_ref().map(|i| i.to_string()), "vis": toks(&f.vis), "ty": toks(&f.ty), "attrs": attrs(&f.attrs), "docs": docs(&f.attrs) })
            })
            .collect(),
    )
}

fn item(i: &syn::Item) -> Value {
    match i {
        syn::Item::Struct(s) => json!({ "k": "struct", "name": s.ident.to_string(), "vis": toks(&s.vis), "attrs": attrs(&s.attrs), "docs": docs(&s.attrs),
                                        "generics": toks(&s.generics), "fields": fields(&s.fields) }),
        syn::Item::Impl(im) => json!({ "k": "impl", "trait": im.trait_.as_ref().map(|t| toks(&t.1)), "self": toks(&im.self_ty),
            "attrs": attrs(&im.attrs), "docs": docs(&im.attrs), "generics": toks(&im.generics),
            "where": im.generics.where_clause.as_ref().map(|w| toks(w)),
            "fns": im.items.iter().filter_map(|x| match x {
                syn::ImplItem::Fn(f) => Some(sig(&f.vis, &f.attrs, &f.sig, toks(&f.block))),
                _ => None,
            }).collect::<Vec<_>>() }),
        syn::Item::Macro(m) => json!({ "k": "macro", "path": toks(&m.mac.path), "text": m.mac.tokens.to_string() }),
        x => json!({ "k": "other", "text": toks(x) }),
    }
}

/// Is there a `compile_error!` anywhere?
struct Errs(Vec<String>);
impl Errs {
    fn scan(&mut self, t: TokenStream) {
        let v: Vec<proc_macro2::TokenTree> = t.into_iter().collect();
        for (i, x) in v.iter().enumerate() {
            match x {
                proc_macro2::TokenTree::Ident(id) if id == "compile_error" => {
                    if let Some(proc_macro2::TokenTree::Group(g)) = v.get(i + 2) {
                        self.0.push(g.stream().to_string());
                    }
                }
                proc_macro2::TokenTree::Group(g) => self.scan(g.stream()),
                _ => {}
            }
        }
    }
}

fn one(v: &Value, full: bool) -> Value {
    let args: TokenStream = match v["args"].as_str().unwrap().parse() {
        Ok(t) => t,
        Err(_) => return json!({ "r": "untokenizable" }),
    };
    let it: TokenStream = match v["item"].as_str().unwrap().parse() {
        Ok(t) => t,
        Err(_) => return json!({ "r": "untokenizable" }),
    };
    let out = match catch_unwind(AssertUnwindSafe(|| fieldx_derive::fxstruct(args, it))) {
        Ok(t) => t,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            return json!({ "r": "panic", "msg": m });
        }
    };
    let mut e = Errs(vec![]);
    e.scan(out.clone());
    let parsed = syn::parse2::<syn::File>(out.clone());
    let mut r = json!({ "r": if e.0.is_empty() { "expanded" } else { "rejected" }, "errors": e.0 });
    match parsed {
        Ok(f) => {
            if full {
                r["items"] = Value::Array(f.items.iter().map(item).collect());
            }
        }
        Err(x) => {
            r["syntax"] = Value::String(x.to_string());
            r["out"] = Value::String(out.to_string());
        }
    }
    r
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let full = std::env::args().any(|a| a == "--full");
    let th = std::thread::Builder::new().stack_size(64 << 20);
    th.spawn(move || {
        let stdin = std::io::stdin();
        let mut out = std::io::BufWriter::new(std::io::stdout());
        for line in stdin.lock().lines() {
            let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
            let mut r = one(&v, full);
            r["id"] = v["id"].clone();
            serde_json::to_writer(&mut out, &r).unwrap();
            out.write_all(b"\n").unwrap();
        }
        out.flush().unwrap();
    })
    .unwrap()
    .join()
    .unwrap();
}
