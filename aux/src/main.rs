//! Argument lists parsed by fieldx_aux: what comes out must be what was written.
mod gen;
use darling::{ast::NestedMeta, FromMeta};
use fieldx_aux::*;
use gen::{some, write, Map, Written, FORWARD, G};
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use quote::ToTokens;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use syn::{Expr, Ident, LitStr, Path, Token, Type};

type Tup2 = FXSynTupleArg<(Path, Expr)>;
#[derive(FromMeta)]
#[allow(dead_code)]
struct Outer {
    base:      Option<FXHelper>,
    baseo:     Option<FXHelper<true>>,
    get:       Option<FXAccessor>,
    geto:      Option<FXAccessor<true>>,
    set:       Option<FXSetter>,
    seto:      Option<FXSetter<true>>,
    bs:        Option<FXBuilder<true>>,
    bf:        Option<FXBuilder>,
    serde:     Option<FXSerde>,
    flag:      Option<FXBool>,
    i8v:       Option<FXValue<i8>>,
    i16v:      Option<FXValue<i16>>,
    i32v:      Option<FXValue<i32>>,
    i64v:      Option<FXValue<i64>>,
    u8v:       Option<FXValue<u8>>,
    u16v:      Option<FXValue<u16>>,
    u32v:      Option<FXValue<u32>>,
    u64v:      Option<FXValue<u64>>,
    f32v:      Option<FXValue<f32>>,
    f64v:      Option<FXValue<f64>>,
    strv:      Option<FXString>,
    charv:     Option<FXValue<char>>,
    bytesv:    Option<FXValue<Vec<u8>>>,
    boolv:     Option<FXValue<bool>>,
    fallible:  Option<FXNestingAttr<FXFallible>>,
    fallible2: Option<FXNestingAttr<FXFallible<FXSynTuple<(Path, Expr)>>>>,
    expr:      Option<FXSynValue<Expr>>,
    ty:        Option<FXSynValue<Type>>,
    id:        Option<FXSynValue<Ident, true>>,
    mode:      Option<FXSynValue<FXSyncMode>>,
    attrs:     Option<FXAttributes>,
    vis:       Option<FXNestingAttr<FXPubMode>>,
    def:       Option<FXDefault>,
    defo:      Option<FXDefault<true>>,
    tup2:      Option<FXNestingAttr<Tup2, false>>,
    tup3:      Option<FXSynTuple<(Ident, Type, LitStr)>>,
    tup4:      Option<FXSynTuple<(Type, Expr, Ident, Path)>>,
    tup5:      Option<FXSynTuple<(Path, Path, Path, Path, Path)>>,
    tup6:      Option<FXSynTuple<(Expr, Expr, Expr, Expr, Expr, Expr)>>,
    tup7:      Option<FXSynTuple<(Type, Path, Type, Path, Type, Path, Type)>>,
    tup8:      Option<FXSynTuple<(Ident, Ident, Ident, Ident, Ident, Ident, Ident, Ident)>>,
    tup9:      Option<FXSynTuple<(Expr, Type, Expr, Type, Expr, Type, Expr, Type, Ident)>>,
    tup10:     Option<FXSynTuple<(LitStr, LitStr, LitStr, LitStr, LitStr, Path, Path, Path, Path, Expr)>>,
    pun:       Option<FXSynValue<FXPunctuated<Type, Token![,], 1, 3>>>,
    pun0:      Option<FXSynValue<FXPunctuated<Expr, Token![,]>>>,
    puns:      Option<FXSynValue<FXPunctuated<Path, Token![;], 2>>>,
    punx:      Option<FXSynValue<FXPunctuated<Ident, Token![,], -1, 2>>>,
    pun1:      Option<FXSynValue<FXPunctuated<Path, Token![,], 1, 1>>>,
    pun2:      Option<FXSynValue<FXPunctuated<Ident, Token![=>], 2, 2>>>,
    pun3:      Option<FXSynValue<FXPunctuated<Expr, Token![,], 3, 3>>>,
    pund:      Option<FXPunctuated<Type, Token![;], 0, 3>>,
    punn:      Option<FXSynValue<FXPunctuated<Ident, Token![,], 0, 0>>>,
    punm:      Option<FXPunctuated<LitStr, Token![|], 3>>,
    lits:      Option<FXNestingAttr<Lits>>,
    excl:      Option<FXNestingAttr<Excl>>,
}

/// An argument of one's own
#[derive(FromMeta, Debug, Clone)]
struct Lits {
    off:  darling::util::Flag,
    key:  Option<FXString>,
    #[darling(skip)]
    name: Option<FXString>,
    #[darling(skip)]
    ch:   Option<FXNestingAttr<FXValueArg<char>>>,
    #[darling(skip)]
    b:    Option<FXNestingAttr<FXValueArg<bool>>>,
}
impl FromNestAttr for Lits {
    set_literals! {lits, 2..3 => name as syn::Lit::Str, ch as syn::Lit::Char, b as syn::Lit::Bool}
    fn for_keyword(path: &Path) -> darling::Result<Self> {
        Err(darling::Error::custom("literals are required").with_span(path))
    }
}
impl FXTriggerHelper for Lits {
    fn is_true(&self) -> bool {
        !self.off.is_present()
    }
}
#[derive(FromMeta, Debug, Clone)]
#[darling(and_then = Self::validate)]
struct Excl {
    a: Option<FXBool>,
    b: Option<FXBool>,
    c: Option<FXBool>,
    d: Option<FXHelper>,
    e: Option<FXBool>,
    f: Option<FXSetter<true>>,
}
impl Excl {
    validate_exclusives! {
        "one": a; b, c; d as "dee";
        "two": c; e; f;
    }
    fn validate(self) -> darling::Result<Self> {
        self.validate_exclusives()?;
        Ok(self)
    }
}
impl FromNestAttr for Excl {
    set_literals! {excl, .. 0}
}

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn attrs(a: Option<&FXAttributes>) -> String {
    a.map_or("None".into(), |a| some(&attrs_of(a)))
}
fn attrs_of(a: &FXAttributes) -> String {
    let l: Vec<String> = a.list().iter().map(ts).collect();
    let all = ts(a);
    let joined = l.join(" ");
    if all.split_whitespace().collect::<String>() != joined.split_whitespace().collect::<String>() {
        return format!("emitted as {} while it has {}", all, joined);
    }
    format!("{:?}", l)
}
fn vis(m: Option<FXPubMode>) -> String {
    match m {
        None => "None".into(),
        Some(FXPubMode::Private) => "Some(private)".into(),
        Some(m) => some(&ts(&m)),
    }
}
fn show<T: Debug>(o: Option<T>) -> String {
    format!("{:?}", o)
}
/// The on/off state as told by different ways of asking
fn on<H: FXTriggerHelper>(h: &Option<H>) -> String {
    let i = FXTriggerHelper::is_true(h.as_ref().unwrap());
    if FXBoolHelper::is_true(h) != i || h.is_true_opt() != Some(i) || h.not_true() == i {
        return "contradictory".into();
    }
    i.to_string()
}
fn helper<H: FXHelperTrait + Debug>(h: &H) -> Map {
    Map::from([
        ("on", h.is_true().to_string()),
        ("name", h.name().map_or("None".into(), some)),
        ("vis", vis(h.public_mode())),
        ("attributes", attrs(h.attributes())),
        ("attributes_fn", attrs(h.attributes_fn())),
    ])
}

fn show_on(l: &[Option<bool>]) -> String {
    format!("{:?}", l)
}
/// The elements as told by different ways of asking
fn items<T, S, const MIN: i32, const MAX: i32>(l: &FXPunctuated<T, S, MIN, MAX>) -> String
where
    T: Debug + syn::spanned::Spanned + ToTokens + syn::parse::Parse,
    S: Debug + syn::spanned::Spanned + ToTokens + syn::parse::Parse,
{
    let list = |v: &Vec<T>| format!("{:?}", v.iter().map(ts).collect::<Vec<_>>());
    let all = list(l.items());
    let b: &Vec<T> = std::borrow::Borrow::borrow(l);
    if list(l.as_ref()) != all || list(b) != all || list(l) != all {
        return "contradictory".into();
    }
    all
}
fn syn_value<T: ToTokens>(v: &FXSynValueArg<T>) -> String {
    let b: &T = std::borrow::Borrow::borrow(v);
    let all = ts(v.value());
    if ts(v.as_ref()) != all || ts(b) != all || ts::<T>(v) != all {
        return "contradictory".into();
    }
    all
}

macro_rules! observed {
    ($o:ident, $texts:ident; $( $name:ident => |$h:ident| $body:expr; )*) => {
        $( if $o.$name.is_some() {
            let $h = $o.$name.as_ref().unwrap();
            $texts.push((stringify!($name), $body));
        } )*
    };
}
/// What the emitted syntax object is
fn orig<T: FXOrig<syn::Meta>>(o: &T) -> (&'static str, String) {
    ("orig", o.orig().map_or("None".into(), ts))
}

fn observe(o: &Outer) -> Vec<(&'static str, Map)> {
    let mut out: Vec<(&'static str, Map)> = vec![];
    macro_rules! plus {
        ($m:expr, $h:expr, $($x:expr),*) => {{
            let mut m: Map = $m;
            m.extend([orig($h), ("emitted", ts($h)) $(, $x)*]);
            m
        }};
    }
    macro_rules! value {
        ($n:ident) => {
            if let Some(h) = &o.$n {
                let v = h.value().map_or("None".to_string(), |v| some(&v.to_string()));
                out.push((stringify!($n), plus!(Map::new(), h, ("on", on(&o.$n)), ("value", v))));
            }
        };
        (dbg $n:ident) => {
            if let Some(h) = &o.$n {
                out.push((stringify!($n), plus!(Map::new(), h, ("on", on(&o.$n)), ("value", h.value().map_or("None".to_string(), |v| some(&format!("{:?}", v)))))));
            }
        };
    }
    observed! {o, out;
        base => |h| plus!(helper(&**h), h, ("on", on(&o.base)));
        baseo => |h| plus!(helper(&**h), h, ("on", bool::from(&**h).to_string()));
        get => |h| plus!(helper(&**h), h, ("on", on(&o.get)), ("mode", show(h.mode())));
        geto => |h| plus!(helper(&**h), h, ("mode", show(h.mode())));
        set => |h| plus!(helper(&**h), h, ("on", on(&o.set)), ("into", show(h.is_into())));
        seto => |h| plus!(helper(&**h), h, ("into", show(h.is_into())));
        serde => |h| plus!(Map::new(), h, ("on", on(&o.serde)), ("vis", vis(h.public_mode())), ("attributes", attrs(h.attributes().as_ref())),
            ("serialize", show(h.needs_serialize())), ("deserialize", show(h.needs_deserialize())), ("is_serde", show(h.is_serde())),
            ("forward", format!("{:?}", FORWARD.iter().map(|f| {
                let p: Path = syn::parse_str(f).unwrap();
                h.accepts_attr(&syn::parse_quote!(#[#p(some)]))
            }).collect::<Vec<_>>())),
            ("has_default", h.has_default().to_string()), ("default", h.default_value().map_or("None".into(), |d| some(&ts(d)))),
            ("raw_default", h.default_value_raw().map_or("None".into(), |d| some(&d.value().as_ref().map_or("None".into(), |v| some(&ts(v)))))),
            ("default_str", h.default_value_raw().is_some_and(|d| d.is_str()).to_string()),
            ("shadow", h.shadow_name().map_or("None".into(), |s| some(s))));
        flag => |h| plus!(Map::new(), h, ("on", on(&o.flag)), ("value", h.value().map_or("None".into(), |_| "Some".into())));
        fallible => |h| plus!(Map::new(), h, ("on", on(&o.fallible)), ("error", h.error_type().map_or("None".into(), |e| some(&ts(e.value())))));
        fallible2 => |h| plus!(Map::new(), h, ("on", on(&o.fallible2)),
            ("error", h.error_type().map_or("None".into(), |e| some(&format!("{} ; {}", ts(&e.value().0), ts(&e.value().1))))));
        expr => |h| plus!(Map::new(), h, ("value", syn_value(h)));
        ty => |h| plus!(Map::new(), h, ("value", syn_value(h)));
        id => |h| plus!(Map::new(), h, ("value", h.value().map_or("None".into(), |v| some(&ts(v)))));
        mode => |h| plus!(Map::new(), h, ("value", format!("{}", match (h.value().is_sync(), h.value().is_async(), h.value().is_plain()) {
            (true, false, false) => "sync", (false, true, false) => "async", (false, false, true) => "plain", _ => "contradictory" })));
        attrs => |h| Map::from([("value", attrs_of(h))]);
        vis => |h| plus!(Map::new(), h, ("vis", ts(&**h)));
        def => |h| default(h, on(&o.def));
        defo => |h| default(h, on(&o.defo));
        pun => |h| plus!(Map::new(), h, ("value", items(h)));
        pun0 => |h| plus!(Map::new(), h, ("value", items(h)));
        puns => |h| plus!(Map::new(), h, ("value", items(h)));
        punx => |h| plus!(Map::new(), h, ("value", items(h)));
        pun1 => |h| plus!(Map::new(), h, ("value", items(h)));
        pun2 => |h| plus!(Map::new(), h, ("value", items(h)));
        pun3 => |h| plus!(Map::new(), h, ("value", items(h)));
        punn => |h| plus!(Map::new(), h, ("value", items(h)));
        pund => |h| Map::from([("value", items(h))]);
        punm => |h| Map::from([("value", items(h))]);
        lits => |h| plus!(Map::new(), h, ("on", on(&o.lits)), ("name", h.name.as_ref().and_then(|n| n.value()).map_or("None".into(), |s| some(s))),
            ("char", h.ch.as_ref().and_then(|c| c.value()).map_or("None".into(), |c| some(&format!("{:?}", c)))),
            ("bool", h.b.as_ref().and_then(|b| b.value()).map_or("None".into(), |b| some(&b.to_string()))),
            ("key", h.key.as_ref().and_then(|b| b.value()).map_or("None".into(), |b| some(b))));
        excl => |h| plus!(Map::new(), h, ("on", show_on(&[h.a.is_true_opt(), h.b.is_true_opt(), h.c.is_true_opt(), h.d.is_true_opt(), h.e.is_true_opt(), h.f.is_true_opt()])));
    }
    macro_rules! builder {
        ($n:ident) => {
            if let Some(h) = &o.$n {
                let m = plus!(
                    helper(&**h),
                    h,
                    ("on", on(&o.$n)),
                    ("into", show(h.is_into())),
                    ("required", show(h.is_required())),
                    ("opt_in", h.is_builder_opt_in().to_string()),
                    (
                        "post_build",
                        match (h.has_post_build(), h.post_build()) {
                            (false, None) => "None".into(),
                            (true, Some(p)) => some(&p.value().map_or("None".into(), |v| some(&ts(v)))),
                            _ => "contradictory".into(),
                        }
                    ),
                    ("error", h.error_type().map_or("None".into(), |e| some(&ts(e)))),
                    ("variant", h.error_variant().map_or("None".into(), |e| some(&ts(e)))),
                    ("attributes_impl", attrs(h.attributes_impl()))
                );
                out.push((stringify!($n), m));
            }
        };
    }
    builder!(bs);
    builder!(bf);
    value!(i8v);
    value!(i16v);
    value!(i32v);
    value!(i64v);
    value!(u8v);
    value!(u16v);
    value!(u32v);
    value!(u64v);
    value!(dbg f32v);
    value!(dbg f64v);
    value!(strv);
    value!(dbg charv);
    value!(dbg bytesv);
    value!(boolv);
    macro_rules! tuple {
        ($n:ident $( $i:tt )*) => {
            if let Some(h) = &o.$n {
                let t = h.value();
                let v: Vec<String> = vec![$( ts(&t.$i) ),*];
                out.push((stringify!($n), plus!(Map::new(), h, ("value", v.join(" ; ")))));
            }
        };
    }
    tuple!(tup2 0 1);
    tuple!(tup3 0 1 2);
    tuple!(tup4 0 1 2 3);
    tuple!(tup5 0 1 2 3 4);
    tuple!(tup6 0 1 2 3 4 5);
    tuple!(tup7 0 1 2 3 4 5 6);
    tuple!(tup8 0 1 2 3 4 5 6 7);
    tuple!(tup9 0 1 2 3 4 5 6 7 8);
    tuple!(tup10 0 1 2 3 4 5 6 7 8 9);
    out
}
fn default<const O: bool>(h: &FXDefault<O>, on: String) -> Map {
    Map::from([
        ("on", on),
        ("has_value", h.has_value().to_string()),
        ("is_str", h.is_str().to_string()),
        ("string", String::try_from(h).map_or("None".into(), |s| some(&s))),
        ("value", show(h.value().as_ref().map(ts))),
    ])
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

fn parse(text: &str) -> Result<Result<Outer, String>, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let ts: proc_macro2::TokenStream = match text.parse() {
            Ok(t) => t,
            Err(_) => return Err("not tokens".into()),
        };
        let items = NestedMeta::parse_meta_list(ts).map_err(|e| e.to_string())?;
        Outer::from_list(&items).map_err(|e| e.to_string())
    }))
    .map_err(panic_text)
}

fn judge(w: &Written) -> Result<(), String> {
    let o = match (parse(&w.text), w.bad) {
        (Err(p), _) => return Err(format!("parsing `{}` panicked: {}", w.text, p)),
        (Ok(Err(_)), Some(_)) => return Ok(()),
        (Ok(Err(e)), None) => return Err(format!("`{}` is rejected: {}", w.text, e)),
        (Ok(Ok(_)), Some(b)) => return Err(format!("`{}` is accepted in spite of malformed `{}`", w.text, b)),
        (Ok(Ok(o)), None) => o,
    };
    let got = catch_unwind(AssertUnwindSafe(|| observe(&o))).map_err(|p| format!("asking about `{}` panicked: {}", w.text, panic_text(p)))?;
    for (n, _) in &got {
        if !w.args.iter().any(|a| a.name == *n) {
            return Err(format!("`{}` has no argument `{}`", w.text, n));
        }
    }
    for a in &w.args {
        let Some((_, m)) = got.iter().find(|(n, _)| *n == a.name)
        else { return Err(format!("`{}` lost `{}`", w.text, a.name)) };
        for (k, v) in m {
            let exp = match (*k, a.obs.get(k)) {
                ("orig" | "emitted", _) if a.name == "vis" && *k == "emitted" => continue,
                ("orig" | "emitted", _) => gen::toks(&a.text),
                (_, Some(e)) => e.clone(),
                _ => return Err(format!("the check has no expectation of {} of {}", k, a.name)),
            };
            let same = if matches!(*k, "name" | "shadow" | "string") { *v == exp } else { squeeze(v) == squeeze(&exp) };
            if !same {
                return Err(format!("`{}` of `{}` in `{}` is {}, must be {}", k, a.text, w.text, v, exp));
            }
        }
        if let Some(k) = a.obs.keys().find(|k| !m.contains_key(*k)) {
            return Err(format!("the check doesn't observe {} of {}", k, a.name));
        }
    }
    Ok(())
}
/// Spaces tell nothing between tokens
fn squeeze(s: &str) -> String {
    s.split_whitespace().collect()
}

/// Whatever tokens there are, parsing ends in a result.
const SOUP: &[&str] = &[
    "off", "on", "copy", "clone", "as_ref", "public", "private", "attributes_fn", "attributes", "into", "required", "opt_in", "post_build", "error", "default", "serialize", "deserialize",
    "forward_attrs", "crate", "super", "self", "in_mod", "a", "b", "::", ",", ",", ",", "=", ";", "!", "<", ">", "&", "..", "1", "\"s\"", "'c'", "2.5", "b\"q\"", "true", "-", "#", "|", "fn", "r#type", "sync",
    "async", "plain", "c\"x\"", "99999999999999999999999", "name", "_", "1e999",
];
const HEADS: &[&str] = &[
    "base", "get", "geto", "set", "bs", "bf", "serde", "flag", "i8v", "u64v", "f32v", "strv", "charv", "bytesv", "boolv", "fallible", "fallible2", "expr", "ty", "id", "mode", "attrs", "vis", "def", "defo", "tup2",
    "tup3", "tup10", "pun", "pun0", "puns", "punx", "pun1", "pun2", "pun3", "pund", "punn", "punm", "lits", "excl",
];
fn soup(g: &mut G) -> String {
    fn toks(g: &mut G, depth: usize, out: &mut String) {
        for _ in 0..g.n(6) {
            if depth < 3 && g.flip(1, 4) {
                let (a, b) = [("(", ")"), ("[", "]"), ("{", "}")][g.n(3)];
                out.push_str(a);
                toks(g, depth + 1, out);
                out.push_str(b);
            }
            else {
                out.push_str(g.pick(SOUP));
            }
            out.push(' ');
        }
    }
    let mut s = g.pick(HEADS).to_string();
    s.push('(');
    toks(g, 0, &mut s);
    s.push(')');
    s
}

/// Values made by a program, not parsed.
fn made(g: &mut G) -> (String, Result<(), String>) {
    let what = std::cell::RefCell::new(String::new());
    fn value<T: PartialEq + Clone + Debug>(v: T, what: &RefCell<String>) -> Result<(), String>
    where
        FXValueArg<T>: FromNestAttr,
    {
        *what.borrow_mut() = format!("{} made of {:?}", std::any::type_name::<FXValueArg<T>>(), v);
        let ways: Vec<(&str, FXNestingAttr<FXValueArg<T>>, Option<T>)> = vec![
            ("from", FXNestingAttr::new(FXValueArg::from(v.clone()), None), Some(v.clone())),
            ("fx_from", FXNestingAttr::fx_from(v.clone()), Some(v.clone())),
            ("fx_from Some", FXNestingAttr::fx_from(Some(v.clone())), Some(v.clone())),
            ("fx_from None", FXNestingAttr::fx_from(None::<T>), None),
            ("fx_into", v.clone().fx_into(), Some(v.clone())),
            ("fx_into", Option::<FXNestingAttr<FXValueArg<T>>>::fx_from(v.clone()).ok_or("nothing")?, Some(v.clone())),
        ];
        for (n, h, e) in ways {
            let o = Some(h.clone());
            if h.value() != e.as_ref() || !FXTriggerHelper::is_true(&h) || o.is_true_opt() != Some(true) || o.not_true() {
                return Err(format!("{}: {:?}, on: {}", n, h.value(), FXTriggerHelper::is_true(&h)));
            }
            if h.orig().is_some() || h.orig_span().is_some() || !ts(&h).is_empty() || o.orig().is_some() {
                return Err(format!("{}: has origin `{}`", n, ts(&h)));
            }
        }
        Ok(())
    }
    let r = match g.n(12) {
        0 => value([0u8, 1, 127, 255][g.n(4)], &what),
        1 => value([0u64, 1, u64::MAX, 1 << 63][g.n(4)], &what),
        2 => value([0i8, -1, i8::MIN, i8::MAX][g.n(4)], &what),
        3 => value([0i64, -1, i64::MIN, i64::MAX][g.n(4)], &what),
        4 => value(gen::string(g).1, &what),
        5 => value(['a', '\n', 'ы'][g.n(3)], &what),
        6 => value(g.flip(1, 2), &what),
        7 => value(gen::string(g).1.into_bytes(), &what),
        8 => value([0f64, -1.5, f64::MAX, f64::MIN_POSITIVE][g.n(4)], &what),
        9 => {
            let (b, n) = (g.flip(1, 2), gen::string(g).1);
            *what.borrow_mut() = format!("FXBaseHelper made of {} and of {:?}", b, n);
            let (h, h1) = (FXBaseHelper::<false>::from(b), FXBaseHelper::<true>::from(b));
            if FXTriggerHelper::is_true(&h) != b || FXTriggerHelper::is_true(&h1) != b || bool::from(&h) != b || bool::from(h1) != b || h.name().is_some() {
                Err(format!("helpers: {:?}", h))
            }
            else {
                Ok(())
            }
        }
        10 => {
            // An argument given some other origin, and then changed
            let meta: syn::Meta = syn::parse_str(&format!("{}({})", g.pick(&["foo", "a::b"]), g.pick(gen::TYPES))).unwrap();
            let (v, w) = (g.n(100) as u32, g.n(100) as u32);
            *what.borrow_mut() = format!("FXNestingAttr::new({}, `{}`), then set to {}", v, ts(&meta), w);
            let mut h = FXNestingAttr::new(FXValueArg::<u32>::from(v), Some(meta.clone()));
            let first = h.value().copied();
            if g.flip(1, 2) {
                *h = FXValueArg::from(w);
            }
            else {
                *h.as_mut() = FXValueArg::from(w);
            }
            let o = Some(h.clone());
            if first != Some(v) || h.value() != Some(&w) || h.orig() != Some(&meta) || ts(&h) != ts(&meta) || o.orig() != Some(&meta) {
                Err(format!("{:?}, then {:?}, of `{}`", first, h.value(), ts(&h)))
            }
            else {
                Ok(())
            }
        }
        _ => {
            // Visibility made of `public` and `private`
            let (pt, pv) = gen::public(g);
            let (pt, pv) = if g.flip(1, 4) { (None, None) } else { (Some(format!("public{}", pt)), Some(pv)) };
            let (rt, ron) = gen::boolarg(g, "private");
            let (rt, ron) = if g.flip(1, 2) { (None, false) } else { (Some(rt), ron) };
            *what.borrow_mut() = format!("{:?} and {:?}", pt, rt);
            let public = pt.map(|t| FXNestingAttr::<FXPubMode>::from_meta(&syn::parse_str(&t).unwrap()).unwrap());
            let private = rt.map(|t| FXBool::from_meta(&syn::parse_str(&t).unwrap()).unwrap());
            let got = vis(public_mode(&public, &private));
            let exp = if ron { "Some(private)".to_string() } else { pv.map_or("None".into(), |v| some(&v)) };
            if squeeze(&got) != squeeze(&exp) { Err(format!("visibility {}, must be {}", got, exp)) } else { Ok(()) }
        }
    };
    let w = what.into_inner();
    let r = r.map_err(|m| format!("{}: {}", w, m));
    (w, r)
}

struct Stats {
    evaluations: u64,
    nontrivial:  HashSet<String>,
    classes:     BTreeMap<String, u64>,
    samples:     Vec<serde_json::Value>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).expect(k);
    let (seed, cases): (u64, u32) = (opt("--seed").parse().unwrap(), opt("--cases").parse().unwrap());
    std::panic::set_hook(Box::new(|_| ()));
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    let stats = RefCell::new(Stats { evaluations: 0, nontrivial: HashSet::new(), classes: BTreeMap::new(), samples: vec![] });
    let mut failures = vec![];
    let failing = std::cell::Cell::new(false);

    let mut runner = TestRunner::new_with_rng(
        Config { cases, failure_persistence: None, max_shrink_iters: 20000, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &s),
    );
    let strat = (0u8..9, prop::collection::vec(any::<u16>(), 0..120));
    let res = runner.run(&strat, |(kind, ch)| {
        let mut g = G { ch: &ch, pos: 0 };
        let (r, text, nt, class) = if kind == 8 {
            let (t, r) = match catch_unwind(AssertUnwindSafe(|| made(&mut g))) {
                Ok(x) => x,
                Err(p) => ("made by a program".into(), Err(format!("panicked: {}", panic_text(p)))),
            };
            (r, t, false, "made by a program".to_string())
        }
        else if kind == 7 {
            let t = soup(&mut g);
            let r = match parse(&t) {
                Err(p) => (Err(format!("parsing `{}` panicked: {}", t, p)), "soup"),
                Ok(Ok(o)) => (
                    catch_unwind(AssertUnwindSafe(|| {
                        observe(&o);
                    }))
                    .map_err(|p| format!("asking about `{}` panicked: {}", t, panic_text(p))),
                    "random tokens, accepted",
                ),
                Ok(Err(_)) => (Ok(()), "random tokens, rejected"),
            };
            (r.0, t, false, r.1.to_string())
        }
        else {
            let w = write(&mut g);
            let nt = w.bad.is_some() || w.args.len() > 1 && w.args.iter().any(|a| a.subs > 1);
            let class = match w.bad {
                Some(b) => format!("malformed {}", b),
                None => format!("{} argument(s)", w.args.len()),
            };
            (judge(&w), w.text.clone(), nt, class)
        };
        if !failing.get() {
            let mut st = stats.borrow_mut();
            st.evaluations += 1;
            *st.classes.entry(class.clone()).or_insert(0) += 1;
            if nt && st.nontrivial.insert(text.clone()) && st.nontrivial.len() % 97 == 1 && st.samples.len() < 6 {
                st.samples.push(serde_json::json!({"arguments": text, "class": class}));
            }
        }
        r.map_err(|m| {
            failing.set(true);
            TestCaseError::fail(m)
        })
    });
    match res {
        Ok(()) => (),
        Err(TestError::Fail(m, (kind, ch))) => {
            let mut g = G { ch: &ch, pos: 0 };
            let text = match kind {
                8 => catch_unwind(AssertUnwindSafe(|| made(&mut g).0)).unwrap_or_default(),
                7 => soup(&mut g),
                _ => write(&mut g).text,
            };
            failures.push(serde_json::json!({"message": m.to_string(), "input": text}));
        }
        Err(TestError::Abort(r)) => {
            eprintln!("aborted: {}", r);
            std::process::exit(3);
        }
    }
    let st = stats.into_inner();
    let out = serde_json::json!({"evaluations": st.evaluations, "distinct_nontrivial": st.nontrivial.len(), "classes": st.classes, "samples": st.samples, "failures": failures});
    std::fs::File::create(opt("--out")).and_then(|mut f| writeln!(f, "{}", out)).expect("cannot write the report");
}
