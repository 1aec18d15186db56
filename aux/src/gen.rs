//! Writes argument lists along with what they must be understood as.
use std::collections::BTreeMap;

/// A sequence of choices; once over, the simplest alternative is taken.
pub struct G<'a> {
    pub ch:  &'a [u16],
    pub pos: usize,
}
impl G<'_> {
    pub fn n(&mut self, n: usize) -> usize {
        let c = self.ch.get(self.pos).copied().unwrap_or(0) as usize;
        self.pos += 1;
        // The generated numbers are spread evenly; zero is the simplest
        c * n / 65536
    }
    pub fn flip(&mut self, num: usize, den: usize) -> bool {
        self.n(den) >= den - num
    }
    pub fn pick<'s>(&mut self, a: &[&'s str]) -> &'s str {
        a[self.n(a.len())]
    }
    /// Some of the numbers 0..n, in some order
    pub fn subset(&mut self, n: usize, num: usize, den: usize) -> Vec<usize> {
        let v: Vec<usize> = (0..n).filter(|_| self.flip(num, den)).collect();
        self.shuffle(v)
    }
    pub fn shuffle<T>(&mut self, mut v: Vec<T>) -> Vec<T> {
        for i in 1..v.len() {
            let j = i - self.n(i + 1);
            v.swap(i, j);
        }
        v
    }
}

pub type Map = BTreeMap<&'static str, String>;

#[derive(Clone, Debug)]
pub struct Sub {
    pub text: String,
    /// Those with the same key can't be met twice; empty for literals
    pub key:  &'static str,
    pub sets: Vec<(&'static str, String)>,
}
pub fn sub(key: &'static str, text: impl Into<String>, sets: &[(&'static str, &str)]) -> Sub {
    Sub { text: text.into(), key, sets: sets.iter().map(|(k, v)| (*k, v.to_string())).collect() }
}

#[derive(Clone, Debug)]
pub struct Arg {
    pub name: &'static str,
    pub text: String,
    pub obs:  Map,
    pub subs: usize,
}

pub fn toks(s: &str) -> String {
    s.parse::<proc_macro2::TokenStream>().unwrap_or_else(|e| panic!("{:?}: {}", s, e)).to_string()
}
pub fn some(s: &str) -> String {
    format!("Some({})", s)
}

pub const PATHS: &[&str] = &["foo", "Err1", "a::b", "crate::x::Y", "::std::fmt::Error", "self::e", "super::super::Q", "std::option::Option"];
pub const IDENTS: &[&str] = &["foo", "bar", "r#type", "_x", "Zed"];
pub const TYPES: &[&str] =
    &["u8", "Vec<u8>", "&'static str", "(u8, String)", "[u8; 3]", "fn(u8) -> u16", "Box<dyn Fn(u8) -> u8 + Send>", "HashMap<String, Vec<u8>>", "!", "<T as X>::Y"];
pub const EXPRS: &[&str] = &[
    "1", "a", "1..=42", "f(1, 2)", "|v| v.m()", "if true { println!(\"OK\") }", "-3", "a + b * c", "\"s\"", "Vec::<u8>::new()", "[1, 2]", "(1, 'x')", "vec![1; 2]",
    "S { a: 1, ..d }",
];
pub const ATTRS: &[&str] = &[
    "inline", "derive(Clone)", "derive(Clone, Debug)", "serde(rename_all = \"lowercase\")", "doc = \"some, text\"", "cfg(all(a, b))", "allow(dead_code)", "a::b", "must_use = \"x\"",
    "x[1, 2]", "y{a, b}",
];

/// A string literal and its value
pub fn string(g: &mut G) -> (String, String) {
    let parts = ["foo", "get_it", "", "ы", "\n", "\"", "\\", " ", "#", "{}", "\u{1F600}", "'", ","];
    let n = 1 + g.n(3);
    let s: String = (0..n).map(|_| g.pick(&parts)).collect();
    let lit = if g.flip(1, 5) && !s.contains("\"#") {
        format!("r#\"{}\"#", s)
    }
    else {
        format!("{:?}", s)
    };
    (lit, s)
}

pub fn attrs_list(g: &mut G, max: usize) -> (String, String) {
    let n = g.n(max + 1);
    let v: Vec<&str> = (0..n).map(|_| g.pick(ATTRS)).collect();
    let tail = if n > 0 && g.flip(1, 4) { "," } else { "" };
    (format!("{}{}", v.join(", "), tail), format!("{:?}", v.iter().map(|a| toks(&format!("#[{}]", a))).collect::<Vec<_>>()))
}

pub fn delims(g: &mut G, inner: &str) -> String {
    match g.n(12) {
        10 => format!("[{}]", inner),
        11 => format!("{{{}}}", inner),
        _ => format!("({})", inner),
    }
}

/// The three ways of writing a flag which can be off
pub fn boolarg(g: &mut G, name: &str) -> (String, bool) {
    match g.n(5) {
        0 | 1 => (name.to_string(), true),
        2 => (format!("{}()", name), true),
        _ => (format!("{}(off)", name), false),
    }
}

pub fn public(g: &mut G) -> (String, String) {
    match g.n(6) {
        0 => ("".into(), "pub".into()),
        1 => ("(crate)".into(), toks("pub(crate)")),
        2 => ("(super)".into(), toks("pub(super)")),
        3 => {
            let p = g.pick(&["crate::a", "a::b", "super::super::c", "self::x::y"]);
            (format!("({})", p), toks(&format!("pub(in {})", p)))
        }
        4 => {
            let p = g.pick(PATHS);
            (format!("(in_mod = {})", p), toks(&format!("pub(in {})", p)))
        }
        _ => {
            let p = g.pick(PATHS);
            (format!("(in_mod = \"{}\")", p), toks(&format!("pub(in {})", p)))
        }
    }
}

pub fn visibility(g: &mut G) -> Vec<Sub> {
    let both = g.n(6);
    let mut v = vec![];
    let (pt, pv) = public(g);
    let (prt, pron) = boolarg(g, "private");
    match both {
        0 | 1 => v.push(sub("public", format!("public{}", pt), &[("vis", &some(&pv))])),
        2 | 3 => v.push(sub("private", prt, if pron { &[("vis", "Some(private)")] } else { &[] })),
        4 => {
            v.push(sub("public", format!("public{}", pt), &[("vis", &some(&pv))]));
            v.push(sub("private", "private(off)", &[]));
        }
        _ => (),
    }
    v
}

/// What every helper has
pub fn helper(g: &mut G, lit: bool) -> Vec<Sub> {
    let mut v = vec![];
    if g.flip(1, 2) {
        v.extend(visibility(g));
    }
    if lit && g.flip(2, 5) {
        let (t, s) = string(g);
        v.push(sub("", t, &[("name", &some(&s))]));
    }
    if g.flip(1, 3) {
        v.push(sub("off", "off", &[("on", "false")]));
    }
    if g.flip(1, 3) {
        let (t, a) = attrs_list(g, 3);
        v.push(sub("attributes_fn", format!("attributes_fn({})", t), &[("attributes_fn", &some(&a))]));
    }
    v
}
pub fn helper_obs() -> Map {
    Map::from([("on", "true".into()), ("name", "None".into()), ("vis", "None".into()), ("attributes_fn", "None".into()), ("attributes", "None".into())])
}

pub fn opt(k: &'static str) -> (&'static str, String) {
    (k, "None".into())
}

pub struct Spec {
    pub name:    &'static str,
    /// Whether it can be used with no subarguments
    pub keyword: bool,
    pub lit:     bool,
    pub obs:     fn() -> Map,
    pub subs:    fn(&mut G) -> Vec<Sub>,
    /// Subarguments to be rejected in whatever company
    pub bad:     &'static [&'static str],
}

const BAD_HELPER: &[&str] = &[
    "bogus", "bogus(1)", "offf", "off(1)", "off = true", "private(1)", "private(on)", "private = true", "public(bogus)", "public()", "public(crate, super)", "public(\"crate\")", "public(1)",
    "attributes_fn", "attributes_fn(,)", "attributes_fn(a,,b)", "attributes_fn = \"x\"", "attributes_fn(1)", "private, public", "1", "'c'", "true", "a::off", "\"a\", \"b\"", "public, public",
    "off, off", "private, private",
];

fn get_subs(g: &mut G, lit: bool) -> Vec<Sub> {
    let mut v = helper(g, lit);
    match g.n(5) {
        2 => v.push(sub("mode", "copy", &[("mode", "Some(Copy)")])),
        3 => v.push(sub("mode", "clone", &[("mode", "Some(Clone)")])),
        4 => v.push(sub("mode", "as_ref", &[("mode", "Some(AsRef)")])),
        _ => (),
    }
    v
}
fn set_subs(g: &mut G, lit: bool) -> Vec<Sub> {
    let mut v = helper(g, lit);
    match g.n(6) {
        2 | 3 => v.push(sub("into", "into", &[("into", "Some(true)")])),
        4 => v.push(sub("into", "into = true", &[("into", "Some(true)")])),
        5 => v.push(sub("into", "into = false", &[("into", "Some(false)")])),
        _ => (),
    }
    v
}
fn builder_subs(g: &mut G, level: bool) -> Vec<Sub> {
    let mut v = helper(g, true);
    let mut flag = |g: &mut G, n: &'static str| {
        if g.flip(1, 4) {
            let (t, on) = boolarg(g, n);
            v.push(sub(n, t, &[(n, &some(&on.to_string()))]));
        }
    };
    flag(g, "into");
    flag(g, "required");
    if level {
        if g.flip(1, 4) {
            let (t, on) = boolarg(g, "opt_in");
            v.push(sub("opt_in", t, &[("opt_in", &on.to_string())]));
        }
        match g.n(6) {
            4 => v.push(sub("post_build", "post_build", &[("post_build", "Some(None)")])),
            5 => {
                let i = g.pick(IDENTS);
                v.push(sub("post_build", format!("post_build({})", i), &[("post_build", &some(&some(i)))]));
            }
            _ => (),
        }
        match g.n(6) {
            4 => {
                let p = g.pick(PATHS);
                v.push(sub("error", format!("error({}{})", p, g.pick(&["", ","])), &[("error", &some(&toks(p)))]));
            }
            5 => {
                let (p, q) = (g.pick(PATHS), g.pick(PATHS));
                v.push(sub("error", format!("error({}, {})", p, q), &[("error", &some(&toks(p))), ("variant", &some(&toks(q)))]));
            }
            _ => (),
        }
    }
    for n in ["attributes", "attributes_impl"] {
        if g.flip(1, 5) {
            let (t, a) = attrs_list(g, 2);
            v.push(sub(n, format!("{}({})", n, t), &[(n, &some(&a))]));
        }
    }
    v
}
fn builder_obs() -> Map {
    let mut m = helper_obs();
    m.extend([opt("into"), opt("required"), ("opt_in", "false".into()), opt("post_build"), opt("error"), opt("variant"), opt("attributes_impl")]);
    m
}

fn nested(g: &mut G) -> String {
    g.pick(&["42", "\"str\"", "Type::func()", "path", "a::b::C", "f(1, 2)", "-1x", "name = 5", "2.5", "'c'", "b\"q\"", "true"]).replace("-1x", "7u8")
}
fn serde_subs(g: &mut G) -> Vec<Sub> {
    let mut v = vec![];
    if g.flip(1, 3) {
        v.extend(visibility(g));
    }
    let off = g.flip(1, 4);
    if off {
        v.push(sub("off", "off", &[("on", "false")]));
    }
    let mut flag = |g: &mut G, n: &'static str| {
        g.flip(1, 3).then(|| {
            let (t, on) = boolarg(g, n);
            v.push(sub(n, t, &[]));
            on
        })
    };
    let (s, d) = (flag(g, "serialize"), flag(g, "deserialize"));
    // One of them turned off means the other one is on, and the other way around
    let (ns, nd) = (s.or(d.map(|d| !d)), d.or(s.map(|s| !s)));
    let is = if off { Some(false) } else { ns.map(|x| x || nd.unwrap()) };
    v.push(sub("", "", &[("serialize", &format!("{:?}", ns)), ("deserialize", &format!("{:?}", nd)), ("is_serde", &format!("{:?}", is))]));
    if g.flip(1, 4) {
        let (t, a) = attrs_list(g, 2);
        v.push(sub("attributes", format!("attributes({})", t), &[("attributes", &some(&a))]));
    }
    if g.flip(1, 4) {
        let l: Vec<&str> = g.subset(FORWARD.len(), 1, 2).into_iter().map(|i| FORWARD[i]).collect();
        let acc = format!("{:?}", FORWARD.iter().map(|f| l.contains(f)).collect::<Vec<_>>());
        v.push(sub("forward_attrs", format!("forward_attrs({})", l.join(", ")), &[("forward", &acc)]));
    }
    if g.flip(1, 3) {
        let d = nested(g);
        let st = d.starts_with('"').to_string();
        match g.n(4) {
            0 => v.push(sub("default", "default", &[("has_default", "true"), ("raw_default", "Some(None)")])),
            1 => v.push(sub("default", format!("default({})", d), &[("has_default", "true"), ("default", &some(&toks(&d))), ("raw_default", &some(&some(&toks(&d)))), ("default_str", &st)])),
            2 => v.push(sub("default", "default(off)", &[("raw_default", "Some(None)")])),
            _ => v.push(sub("default", format!("default(off, {})", d), &[("raw_default", &some(&some(&toks(&d)))), ("default_str", &st)])),
        }
    }
    if g.flip(1, 3) {
        let (t, s) = string(g);
        v.push(sub("", t, &[("shadow", &some(&s))]));
    }
    v
}
// Some differ by nothing but a prefix or a suffix of the path.
pub const FORWARD: &[&str] = &["derive", "allow", "serde", "a::b", "b", "a", "a::serde", "a::b::c", "x::allow"];
fn serde_obs() -> Map {
    let mut m = Map::from([("on", "true".into()), ("forward", format!("{:?}", vec![true; FORWARD.len()])), ("has_default", "false".into()), ("default_str", "false".into())]);
    m.extend([opt("vis"), opt("attributes"), opt("serialize"), opt("deserialize"), opt("is_serde"), opt("default"), opt("raw_default"), opt("shadow")]);
    m
}

fn value_obs() -> Map {
    Map::from([("on", "true".into()), ("value", "None".into())])
}
/// A literal and its value
fn value_subs(g: &mut G, lit: fn(&mut G) -> (String, String)) -> Vec<Sub> {
    let (t, v) = lit(g);
    match g.n(6) {
        0 | 1 | 2 => vec![sub("", t, &[("value", &some(&v))])],
        3 => vec![sub("off", "off", &[("on", "false")])],
        4 => vec![sub("off", "off", &[("on", "false")]), sub("", t, &[])],
        _ => vec![],
    }
}
pub fn int(g: &mut G, bits: u32, signed: bool) -> (String, String) {
    let max: u128 = if signed { (1u128 << (bits - 1)) - 1 } else { (1u128 << bits) - 1 };
    let v = match g.n(5) {
        0 => g.n(10) as u128,
        1 => max,
        2 => max / 3,
        3 => max - g.n(5) as u128,
        _ => g.n(65536) as u128 % (max + 1),
    };
    let ty = format!("{}{}", if signed { "i" } else { "u" }, bits);
    let t = match g.n(7) {
        0 | 1 => v.to_string(),
        2 => format!("{:#x}", v),
        3 => format!("{:#b}", v),
        4 => format!("{:#o}", v),
        5 => format!("{}{}", v, ty),
        _ => format!("{}_", v),
    };
    (t, v.to_string())
}
macro_rules! ints {
    ($($n:ident $bits:literal $s:literal $big:literal),*) => { $( fn $n(g: &mut G) -> Vec<Sub> { value_subs(g, |g| int(g, $bits, $s)) } )* }
}
ints!(i8_ 8 true 128, i16_ 16 true 1, i32_ 32 true 1, i64_ 64 true 1, u8_ 8 false 1, u16_ 16 false 1, u32_ 32 false 1, u64_ 64 false 1);
fn float(g: &mut G) -> (String, String) {
    let t = g.pick(&["0.5", "3.1415926", "1e3", "2.", "1_0.25", "0.1f64", "1.5e-7", "1e10"]);
    let v: f64 = t.replace('_', "").replace("f64", "").parse().unwrap();
    (t.replace("f64", ""), format!("{:?}", v))
}
fn f64_(g: &mut G) -> Vec<Sub> {
    value_subs(g, float)
}
fn f32_(g: &mut G) -> Vec<Sub> {
    value_subs(g, |g| {
        let (t, v) = float(g);
        (t, format!("{:?}", v.parse::<f32>().unwrap()))
    })
}
fn str_(g: &mut G) -> Vec<Sub> {
    value_subs(g, string)
}
fn char_(g: &mut G) -> Vec<Sub> {
    value_subs(g, |g| {
        let c = ['a', '\'', '"', '\\', '\n', 'ы', '\u{1F600}', '0'][g.n(8)];
        (format!("{:?}", c), format!("{:?}", c))
    })
}
fn bytes_(g: &mut G) -> Vec<Sub> {
    value_subs(g, |g| {
        let (t, v): (&str, &[u8]) = [("b\"abc\"", b"abc" as &[u8]), ("b\"\"", b""), ("b\"\\xff\\n\\\"\"", b"\xff\n\""), ("br\"\\n\"", b"\\n")][g.n(4)];
        (t.into(), format!("{:?}", v.to_vec()))
    })
}
fn bool_(g: &mut G) -> Vec<Sub> {
    value_subs(g, |g| {
        let b = g.flip(1, 2);
        (b.to_string(), b.to_string())
    })
}
fn flag_(g: &mut G) -> Vec<Sub> {
    if g.flip(1, 2) {
        vec![sub("off", "off", &[("on", "false")])]
    }
    else {
        vec![]
    }
}
fn fallible_subs(g: &mut G) -> Vec<Sub> {
    let mut v = flag_(g);
    if g.flip(1, 2) {
        let p = g.pick(PATHS);
        v.push(sub("error", format!("error({})", p), &[("error", &some(&toks(p)))]));
    }
    v
}
fn fallible2_subs(g: &mut G) -> Vec<Sub> {
    let mut v = flag_(g);
    if g.flip(1, 2) {
        let (p, e) = (g.pick(PATHS), g.pick(EXPRS));
        v.push(sub("error", format!("error({}, {})", p, e), &[("error", &some(&format!("{} ; {}", toks(p), toks(e))))]));
    }
    v
}
fn fallible_obs() -> Map {
    Map::from([("on", "true".into()), opt("error")])
}

pub const SPECS: &[Spec] = &[
    Spec { name: "base", keyword: true, lit: true, obs: helper_obs, subs: |g| helper(g, true), bad: BAD_HELPER },
    Spec { name: "baseo", keyword: true, lit: false, obs: helper_obs, subs: |g| helper(g, false), bad: BAD_HELPER },
    Spec { name: "get", keyword: true, lit: true, obs: || { let mut m = helper_obs(); m.extend([opt("mode")]); m }, subs: |g| get_subs(g, true), bad: &["copy(off)", "copy = true", "clone, copy", "as_ref, copy", "clone, as_ref", "clone, as_ref, copy", "copy, copy", "bogus", "\"a\", \"b\"", "1", "private, public", "public(x)", "into"] },
    Spec { name: "geto", keyword: true, lit: false, obs: || { let mut m = helper_obs(); m.extend([opt("mode")]); m }, subs: |g| get_subs(g, false), bad: &["\"a\"", "clone, copy", "as_ref, copy", "bogus", "1"] },
    Spec { name: "set", keyword: true, lit: true, obs: || { let mut m = helper_obs(); m.extend([opt("into")]); m }, subs: |g| set_subs(g, true), bad: &["into(1)", "into = 5", "into = \"maybe\"", "into, into", "bogus", "copy", "\"a\", \"b\"", "1", "private, public", "into(on)"] },
    Spec { name: "seto", keyword: true, lit: false, obs: || { let mut m = helper_obs(); m.extend([opt("into")]); m }, subs: |g| set_subs(g, false), bad: &["\"a\"", "into(1)", "into = 5", "into, into", "bogus", "'a'"] },
    Spec { name: "bs", keyword: true, lit: true, obs: builder_obs, subs: |g| builder_subs(g, true), bad: &["into(1)", "into(on)", "required(yes)", "required, required", "opt_in(1)", "post_build(\"a\")", "post_build()", "post_build(a b)", "post_build(a, b)", "post_build(a::b)", "post_build = \"x\"", "error", "error()", "error(A, B, C)", "error(A B)", "error(1)", "error = A", "attributes_impl", "attributes(,)", "bogus", "\"a\", \"b\"", "1", "private, public"] },
    Spec { name: "bf", keyword: true, lit: true, obs: builder_obs, subs: |g| builder_subs(g, false), bad: &["post_build", "post_build(a)", "error(A)", "error(A, B)", "opt_in", "opt_in(off)", "into(1)", "required, required", "bogus", "1", "private, public"] },
    Spec { name: "serde", keyword: true, lit: true, obs: serde_obs, subs: serde_subs, bad: &["bogus", "off(1)", "serialize(1)", "deserialize(on)", "serialize, serialize", "forward_attrs", "forward_attrs(\"x\")", "forward_attrs(a(b))", "default()x", "default(1, 2)", "default(off, 1, 2)", "default(on, 1)", "\"a\", \"b\"", "1", "private, public", "public(x)", "public, private()"] },
    Spec { name: "flag", keyword: true, lit: false, obs: value_obs, subs: flag_, bad: &["on", "off(1)", "off = true", "off, off", "1", "\"off\"", "true", "value"] },
    Spec { name: "i8v", keyword: false, lit: false, obs: value_obs, subs: i8_, bad: &["128", "300", "1.5", "\"1\"", "1, 2", "-129", "on", "'1'"] },
    Spec { name: "i16v", keyword: false, lit: false, obs: value_obs, subs: i16_, bad: &["32768", "1.5", "\"1\"", "1, 2", "on"] },
    Spec { name: "i32v", keyword: false, lit: false, obs: value_obs, subs: i32_, bad: &["2147483648", "1.5", "\"1\"", "1, 2", "true"] },
    Spec { name: "i64v", keyword: false, lit: false, obs: value_obs, subs: i64_, bad: &["9223372036854775808", "1.5", "\"1\"", "1, 2", "value"] },
    Spec { name: "u8v", keyword: false, lit: false, obs: value_obs, subs: u8_, bad: &["256", "-1", "1.5", "\"1\"", "1, 2", "b\"1\""] },
    Spec { name: "u16v", keyword: false, lit: false, obs: value_obs, subs: u16_, bad: &["65536", "1.5", "\"1\"", "1, 2"] },
    Spec { name: "u32v", keyword: false, lit: false, obs: value_obs, subs: u32_, bad: &["4294967296", "1.5", "\"1\"", "1, 2"] },
    Spec { name: "u64v", keyword: false, lit: false, obs: value_obs, subs: u64_, bad: &["18446744073709551616", "1.5", "\"1\"", "1, 2"] },
    Spec { name: "f32v", keyword: false, lit: false, obs: value_obs, subs: f32_, bad: &["1", "\"1.5\"", "1.5, 2.5", "on", "'1'"] },
    Spec { name: "f64v", keyword: false, lit: false, obs: value_obs, subs: f64_, bad: &["1", "\"1.5\"", "1.5, 2.5", "on", "true"] },
    Spec { name: "strv", keyword: false, lit: false, obs: value_obs, subs: str_, bad: &["1", "'a'", "b\"a\"", "\"a\", \"b\"", "a", "true", "off, off", "c\"x\""] },
    Spec { name: "charv", keyword: false, lit: false, obs: value_obs, subs: char_, bad: &["1", "\"a\"", "b'a'", "'a', 'b'", "a"] },
    Spec { name: "bytesv", keyword: false, lit: false, obs: value_obs, subs: bytes_, bad: &["1", "\"a\"", "b'a'", "b\"a\", b\"b\"", "a"] },
    Spec { name: "boolv", keyword: false, lit: false, obs: value_obs, subs: bool_, bad: &["1", "\"true\"", "true, false", "on"] },
    Spec { name: "fallible", keyword: true, lit: false, obs: fallible_obs, subs: fallible_subs, bad: &["\"a\"", "error", "error()", "error(a, b)", "error(1)", "off, off", "bogus", "error = A"] },
    Spec { name: "fallible2", keyword: true, lit: false, obs: fallible_obs, subs: fallible2_subs, bad: &["\"a\"", "error", "error()", "error(a)", "error(a, b, c)", "error(1, 2)", "off, off", "bogus"] },
];

fn join(g: &mut G, subs: &[Sub]) -> String {
    let t: Vec<&str> = subs.iter().map(|s| s.text.as_str()).filter(|t| !t.is_empty()).collect();
    format!("{}{}", t.join(", "), if !t.is_empty() && g.flip(1, 6) { "," } else { "" })
}

/// An argument whose subarguments are a list of literals and named ones
fn listed(g: &mut G, s: &'static Spec) -> Arg {
    let subs = (s.subs)(g);
    let subs = g.shuffle(subs);
    let mut obs = (s.obs)();
    for x in &subs {
        for (k, v) in &x.sets {
            obs.insert(k, v.clone());
        }
    }
    let n = subs.iter().filter(|s| !s.text.is_empty()).count();
    let text = if n == 0 && s.keyword && g.flip(1, 2) {
        s.name.to_string()
    }
    else {
        let inner = join(g, &subs);
        format!("{}{}", s.name, delims(g, &inner))
    };
    Arg { name: s.name, text, obs, subs: n }
}

/// The same with something wrong in it
fn listed_bad(g: &mut G, s: &'static Spec) -> String {
    let mut subs = (s.subs)(g);
    subs.retain(|s| !s.text.is_empty());
    match g.n(5) {
        0 | 1 => {
            let bad = g.pick(s.bad);
            subs.push(sub("", bad, &[]));
        }
        2 => {
            // Given twice
            let named: Vec<Sub> = subs.iter().filter(|s| !s.key.is_empty()).cloned().collect();
            match named.is_empty() {
                true => subs.push(sub("", "bogus", &[])),
                false => {
                    let i = g.n(named.len());
                    subs.push(named[i].clone());
                }
            }
        }
        3 => {
            let lit = g.pick(&["\"a\"", "1", "1.5", "'c'", "true", "b\"x\"", "b'x'"]);
            // Two literals are too many for anything
            subs.push(sub("", lit, &[]));
            subs.push(sub("", lit, &[]));
        }
        _ => {
            let form = g.pick(&[" = \"x\"", " = 1", " = foo", "!", "(,)", "(a b)", "(\"x\" \"y\")", "((off))", "(*)"]);
            return format!("{}{}", s.name, form);
        }
    }
    let subs = g.shuffle(subs);
    format!("{}({})", s.name, join(g, &subs))
}

const TUPLES: &[(&str, &str)] = &[
    ("tup2", "pe"), ("tup3", "its"), ("tup4", "teip"), ("tup5", "ppppp"), ("tup6", "eeeeee"), ("tup7", "tptptpt"), ("tup8", "iiiiiiii"), ("tup9", "eteteteti"), ("tup10", "sssssppppe"),
];
fn element(g: &mut G, k: char) -> String {
    match k {
        'p' => g.pick(PATHS).into(),
        'e' => g.pick(EXPRS).into(),
        'i' => g.pick(IDENTS).into(),
        't' => g.pick(TYPES).into(),
        _ => string(g).0,
    }
}

/// (name, kind of elements, separator, at least, at most)
const LISTS: &[(&str, char, &str, usize, usize)] = &[
    ("pun", 't', ",", 1, 3),
    ("pun0", 'e', ",", 0, 8),
    ("puns", 'p', ";", 2, 8),
    ("punx", 'i', ",", 0, 2),
    ("pun1", 'p', ",", 1, 1),
    ("pun2", 'i', "=>", 2, 2),
    ("pun3", 'e', ",", 3, 3),
    ("pund", 't', ";", 0, 3),
    ("punn", 'i', ",", 0, 0),
    ("punm", 's', "|", 3, 8),
];

fn synt(g: &mut G, bad: bool) -> Arg {
    let mut obs = Map::new();
    let mut n = 1;
    match g.n(17) {
        0 => {
            let e = g.pick(EXPRS);
            obs.insert("value", toks(e));
            let t = if bad { g.pick(&["expr", "expr()", "expr(1 2)", "expr(1, 2)", "expr = 1", "expr(let)"]).into() } else { format!("expr{}", delims(g, e)) };
            Arg { name: "expr", text: t, obs, subs: n }
        }
        1 => {
            let e = g.pick(TYPES);
            obs.insert("value", toks(e));
            let t = if bad { g.pick(&["ty", "ty()", "ty(u8, u8)", "ty(1)", "ty = u8", "ty(u8 *)"]).into() } else { format!("ty{}", delims(g, e)) };
            Arg { name: "ty", text: t, obs, subs: n }
        }
        2 => {
            let kw = g.flip(1, 3);
            let e = g.pick(IDENTS);
            obs.insert("value", if kw { "None".into() } else { some(e) });
            let t = if bad {
                g.pick(&["id()", "id(a, b)", "id(a b)", "id(\"a\")", "id = a", "id(a::b)", "id(fn)"]).into()
            }
            else if kw {
                "id".into()
            }
            else {
                format!("id{}", delims(g, e))
            };
            Arg { name: "id", text: t, obs, subs: n }
        }
        3 => {
            let e = g.pick(&["sync", "async", "plain"]);
            obs.insert("value", e.to_string());
            let t = if bad { g.pick(&["mode", "mode()", "mode(sync, async)", "mode(other)", "mode(\"sync\")", "mode(r#async x)", "mode = sync"]).into() } else { format!("mode{}", delims(g, e)) };
            Arg { name: "mode", text: t, obs, subs: n }
        }
        4 | 5 => {
            let (t, a) = attrs_list(g, 5);
            obs.insert("value", a);
            let t = if bad { g.pick(&["attrs", "attrs = \"a\"", "attrs(a,,b)", "attrs(,)", "attrs(a b)", "attrs(1)", "attrs(a, \"b\")", "attrs(,a)", "attrs(a = )"]).into() } else { format!("attrs{}", delims(g, &t)) };
            Arg { name: "attrs", text: t, obs, subs: 2 }
        }
        6 | 7 => {
            let (pt, pv) = public(g);
            let (pt, pv) = match g.n(8) {
                6 => (" = \"crate\"".to_string(), toks("pub(crate)")),
                7 => (" = \"super\"".to_string(), toks("pub(super)")),
                _ => (pt, pv),
            };
            obs.insert("vis", pv);
            let t = if bad {
                g.pick(&["vis()", "vis(bogus)", "vis(crate, super)", "vis(1)", "vis(\"crate\")", "vis(in_mod)", "vis(in_mod(a))", "vis(in_mod = 1)", "vis = 1", "vis = \"x\"", "vis(crate = 1)", "vis(crate(1))", "vis(in_mod = a, in_mod = b)"]).into()
            }
            else {
                format!("vis{}", pt)
            };
            Arg { name: "vis", text: t, obs, subs: n }
        }
        8 => {
            let name = g.pick(&["def", "defo"]);
            let d = nested(g);
            let (t, on, v) = match g.n(6) {
                0 | 1 | 2 => (format!("({})", d), true, Some(toks(&d))),
                3 => ("(off)".to_string(), false, None),
                4 => (format!("(off, {})", d), false, Some(toks(&d))),
                _ if name == "def" => (format!("({})", d), true, Some(toks(&d))),
                _ => (g.pick(&["", "()"]).to_string(), true, None),
            };
            obs.insert("on", on.to_string());
            obs.insert("has_value", v.is_some().to_string());
            obs.insert("is_str", v.as_ref().is_some_and(|v| v.starts_with('"')).to_string());
            obs.insert("string", v.as_ref().filter(|v| v.starts_with('"')).map_or("None".into(), |v| some(v.trim_matches('"'))));
            obs.insert("value", format!("{:?}", v));
            let t = if bad {
                match name {
                    "def" => g.pick(&["def", "def()", "def(1, 2)", "def(off, 1, 2)", "def(1 2)", "def(on, 1)", "def(1, off)", "def(off(x), 1)"]).to_string(),
                    _ => g.pick(&["defo(1, 2)", "defo(off, 1, 2)", "defo(on, 2)", "defo(1 2)", "defo(\"off\", 2)"]).to_string(),
                }
            }
            else {
                format!("{}{}", name, t)
            };
            Arg { name: if name == "def" { "def" } else { "defo" }, text: t, obs, subs: n }
        }
        9 | 10 => {
            let (name, kinds) = TUPLES[g.n(TUPLES.len())];
            let mut v: Vec<String> = kinds.chars().map(|k| element(g, k)).collect();
            obs.insert("value", v.iter().map(|x| toks(x)).collect::<Vec<_>>().join(" ; "));
            n = v.len();
            let mut t = if g.flip(1, 5) { "," } else { "" };
            if bad {
                match g.n(5) {
                    0 => {
                        v.pop();
                    }
                    1 => v.push(element(g, 'i')),
                    2 => v.clear(),
                    3 => {
                        let i = g.n(v.len());
                        v[i] = g.pick(&["a b", "", "=", "* /"]).into();
                        t = "";
                    }
                    _ => return Arg { name, text: format!("{}{}", name, g.pick(&["", " = 1", " = a"])), obs, subs: n },
                }
            }
            let inner = format!("{}{}", v.join(", "), if v.is_empty() { "" } else { t });
            Arg { name, text: format!("{}{}", name, delims(g, &inner)), obs, subs: n }
        }
        15 => {
            // Literals of different kinds, all but the first two may be omitted
            let cnt = 2 + g.n(2);
            let (lit, s) = string(g);
            let (c, b) = (g.pick(&["'c'", "'\\n'", "'ы'"]), g.pick(&["true", "false"]));
            let mut lits = vec![lit, c.to_string(), b.to_string()];
            lits.truncate(cnt);
            let (mut opts, off) = (vec![], g.flip(1, 4));
            if off {
                opts.push("off".to_string());
            }
            let key = g.flip(1, 3).then(|| string(g));
            if let Some((l, _)) = &key {
                opts.push(format!("key({})", l));
            }
            obs.insert("on", (!off).to_string());
            obs.insert("name", some(&s));
            obs.insert("char", some(c));
            obs.insert("bool", if cnt > 2 { some(b) } else { "None".into() });
            obs.insert("key", key.map_or("None".into(), |(_, k)| some(&k)));
            if bad {
                match g.n(4) {
                    0 => lits.truncate(1),
                    1 => {
                        lits = vec!["\"a\"".into(), "'b'".into(), "true".into(), g.pick(&["true", "\"x\"", "'c'"]).into()];
                    }
                    2 => {
                        let i = g.n(lits.len());
                        lits[i] = g.pick(&["1", "b\"x\"", "2.5", "b'c'"]).into();
                    }
                    _ => lits.insert(0, "'x'".into()),
                }
            }
            // Literals and the others may be mixed, it's the order of literals what matters
            let mut all: Vec<String> = lits;
            for o in opts {
                let at = g.n(all.len() + 1);
                all.insert(at, o);
            }
            Arg { name: "lits", text: format!("lits{}", delims(g, &all.join(", "))), obs, subs: all.len() }
        }
        16 => {
            // Groups of exclusive arguments: (a | b c | d) and (c | e | f)
            const GROUPS: [&[&[usize]]; 2] = [&[&[0], &[1, 2], &[3]], &[&[2], &[4], &[5]]];
            let mut st: Vec<Option<bool>> = (0..6).map(|_| [None, None, Some(true), Some(false)][g.n(4)]).collect();
            fn conflict(st: &[Option<bool>]) -> Option<(usize, usize)> {
                GROUPS.iter().find_map(|gr| {
                    let on: Vec<usize> = gr.iter().filter_map(|s| s.iter().copied().find(|i| st[*i] == Some(true))).collect();
                    (on.len() > 1).then(|| (on[0], on[1]))
                })
            }
            if bad {
                if conflict(&st).is_none() {
                    let gr = GROUPS[g.n(2)];
                    let i = g.n(3);
                    for k in [i, (i + 1 + g.n(2)) % 3] {
                        st[gr[k][g.n(gr[k].len())]] = Some(true);
                    }
                }
            }
            else {
                while let Some((_, j)) = conflict(&st) {
                    st[j] = [None, Some(false)][g.n(2)];
                }
            }
            let names = ["a", "b", "c", "d", "e", "f"];
            obs.insert("on", format!("{:?}", st));
            let order: Vec<usize> = (0..6).filter(|i| st[*i].is_some()).collect();
            let v: Vec<String> = g.shuffle(order).into_iter().map(|i| if st[i] == Some(true) { names[i].to_string() } else { format!("{}(off)", names[i]) }).collect();
            Arg { name: "excl", text: format!("excl{}", delims(g, &v.join(", "))), obs, subs: v.len() }
        }
        _ => {
            let (name, k, sep, min, max) = LISTS[g.n(LISTS.len())];
            let cnt = if bad {
                if max < 8 && (min == 0 || g.flip(1, 2)) { max + 1 + g.n(3) } else if min > 0 { g.n(min) } else { 100 }
            }
            else {
                min + g.n(max - min + 1)
            };
            if cnt == 100 {
                return Arg { name, text: format!("{}(1 2)", name), obs, subs: n };
            }
            let v: Vec<String> = (0..cnt).map(|_| element(g, k)).collect();
            obs.insert("value", format!("{:?}", v.iter().map(|x| toks(x)).collect::<Vec<_>>()));
            n = cnt;
            let t = if cnt > 0 && g.flip(1, 5) { sep } else { "" };
            let inner = format!("{}{}", v.join(&format!("{} ", sep)), t);
            Arg { name, text: format!("{}{}", name, delims(g, &inner)), obs, subs: n }
        }
    }
}

pub struct Written {
    pub text: String,
    pub args: Vec<Arg>,
    /// Name of the argument which isn't well-formed
    pub bad:  Option<&'static str>,
}

/// A list of arguments, perhaps with a malformed one.
pub fn write(g: &mut G) -> Written {
    let bad = g.flip(2, 5);
    let n = if bad { g.n(3) } else { 1 + g.n(4) };
    let mut args: Vec<Arg> = vec![];
    let mut texts = vec![];
    for _ in 0..n {
        let k = g.n(SPECS.len() + 12);
        let a = if k < SPECS.len() { listed(g, &SPECS[k]) } else { synt(g, false) };
        if !args.iter().any(|x| x.name == a.name) {
            texts.push(a.text.clone());
            args.push(a);
        }
    }
    let mut which = None;
    if bad {
        let k = g.n(SPECS.len() + 13);
        let (name, text) = if k < SPECS.len() {
            (SPECS[k].name, listed_bad(g, &SPECS[k]))
        }
        else if k == SPECS.len() {
            ("list", g.pick(&["nosuch", "nosuch(1)", "\"lit\"", "5", "fallible, fallible", "vis, vis(crate)"]).to_string())
        }
        else {
            let a = synt(g, true);
            (a.name, a.text)
        };
        which = Some(name);
        let at = g.n(texts.len() + 1);
        texts.insert(at, text);
    }
    let text = format!("{}{}", texts.join(", "), if g.flip(1, 6) && !texts.is_empty() { "," } else { "" });
    Written { text, args, bad: which }
}
