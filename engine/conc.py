"""C02, C03, C20: concurrent histories of generated structs (see conc/)."""
import os, random
import gen, run
from gen import inst_ty, inst_args, q, struct_src

OPS = ("Get", "Has", "Read", "Write", "WPeek", "WStore", "WClear", "WStoreClear", "GetMut", "GetMutPeek", "Set", "Clear")

DEPS = """
[dependencies]
fieldx = { path = "/repo/fieldx", features = ["sync", "async", "serde"] }
rt = { path = "%(v)s/rt" }
conc = { path = "%(v)s/conc" }
parking_lot = "0.12"
tokio = { version = "1", features = ["sync"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
[patch.crates-io]
parking_lot = { path = "%(v)s/conc/plock" }
""" % dict(v=run.VERIF)
EXTRA = """
[profile.dev.package.conc]
opt-level = 1
[profile.dev.package.parking_lot]
opt-level = 1
"""


def covered(f):
    return not f.sem.skip and f.sem.mode != "plain" and (f.sem.lazy or f.sem.locked)


def ops_of(f):
    return [k for k in dict.fromkeys(f.ops) if k in OPS] if covered(f) and not gen.receiver_mut(f) else []


def tok(f, g):
    return "(*%s).as_ref().map(|x| x.tok())" % g if f.kind == "opt" else "(*%s).tok()" % g


def obs(f, a):
    return "Obs::O(%s)" % a if f.kind == "opt" else "Obs::V(%s)" % a


def emit_op(D, f, k):
    s = f.sem
    t = inst_ty(f.ty)
    asy = s.mode == "async"
    aw = ".await" if asy else ""
    hold = "::conc::ahold().await;" if asy else "::conc::hold();"
    mk = "<%s as Mk>::mk(op.v)" % t

    def fal(call, body):
        if s.fallible:
            return "match %s { Ok(mut g) => { let _ = &mut g; %s } Err(e) => Obs::E(e.0) }" % (call, body)
        return "let mut g = %s; let _ = &mut g; %s" % (call, body)
    peek = "let a = %s; %s ::conc::same(&a, &%s); %s" % (tok(f, "g"), hold, tok(f, "g"), obs(f, "a"))
    new = "(if op.v %% 4 == 0 { None } else { Some(%s) })" % mk if f.kind == "opt" else mk
    change = "let a = %s; %s ::conc::same(&a, &%s); *g = %s; let b = %s; %s ::conc::same(&b, &%s); %s" % (
        tok(f, "g"), hold, tok(f, "g"), new, tok(f, "g"), hold, tok(f, "g"), obs(f, "a"))
    get = "o.%s()%s" % (s.mname("get"), aw)
    if k == "Get":
        if s.acc_mode in ("copy", "clone"):
            return fal(get, "let r: %s = g; %s" % ("Option<%s>" % t if f.kind == "opt" else t,
                                                  "Obs::O(r.as_ref().map(|x| x.tok()))" if f.kind == "opt" else "Obs::V(r.tok())"))
        return fal(get, peek)
    if k in ("GetMut", "GetMutPeek"):
        return fal("o.%s()%s" % (s.mname("get_mut"), aw), change if k == "GetMut" else peek)
    if k == "Read":
        return fal("o.%s()%s" % (s.mname("reader"), aw), peek)
    wr = "o.%s()%s" % (s.mname("writer"), aw)
    if k in ("Write", "WPeek"):
        return "let mut g = %s; let _ = &mut g; %s" % (wr, change if k == "Write" else peek)
    if k == "WStore":
        return "let mut g = %s; %s let r: Option<%s> = g.store(%s); %s Obs::O(r.map(|x| x.tok()))" % (wr, hold, t, mk, hold)
    if k == "WClear":
        return "let g = %s; %s let r: Option<%s> = g.clear(); %s Obs::O(r.map(|x| x.tok()))" % (wr, hold, t, hold)
    if k == "WStoreClear":
        return ("let mut g = %s; %s let a: Option<%s> = g.store(%s); %s let b: Option<%s> = g.clear(); %s "
                "Obs::List(vec![Obs::O(a.map(|x| x.tok())), Obs::O(b.map(|x| x.tok()))])") % (wr, hold, t, mk, hold, t, hold)
    if k == "Set":
        val = "::rt::In(op.v)" if s.set_into else mk
        old = "Option<%s>" % t if f.kind != "ord" else t
        return "let r: %s = o.%s(%s)%s; %s" % (old, s.mname("set"), val, aw,
                                               "Obs::O(r.as_ref().map(|x| x.tok()))" if f.kind != "ord" else "Obs::V(r.tok())")
    if k == "Clear":
        return "let r: Option<%s> = o.%s()%s; Obs::O(r.map(|x| x.tok()))" % (t, s.mname("clearer"), aw)
    if k == "Has":
        return "Obs::B(o.%s()%s)" % (s.mname("predicate"), ".await" if asy and not s.lazy else "")
    raise AssertionError(k)


def dep_read(D, f, i):
    o = D.fields[i]
    s = o.sem
    asy = s.mode == "async"
    aw = ".await" if asy else ""
    if not covered(o):
        src = "self.%s" % o.src
        return "d += %s;" % ("%s.as_ref().map_or(0, |x| x.tok())" % src if o.kind == "opt" else "%s.tok()" % src)
    if o.kind == "lazy":
        call = "self.%s()%s%s" % (s.mname("get"), aw, "?" if s.fallible else "")
        val = "g.tok()"
    else:
        call = "self.%s.read()%s" % (o.src, aw)
        val = "(*g).as_ref().map(|x| x.tok())" if o.kind == "opt" else "(*g).tok()"
    ob = "|t| Obs::O(*t)" if o.kind == "opt" else "|t| Obs::V(*t)"
    hold = "::conc::ahold().await;" if asy else "::conc::hold();"
    body = "{ let g = %s; %s let r = %s; Ok::<_, LErr>(r) }" % (call, hold, val)
    add = "d += x.unwrap_or(0);" if o.kind == "opt" else "d += x;"
    if asy:
        return "let x = ::conc::anested(addr, %d, K::Get, async %s, %s).await?; %s" % (i, body, ob, add)
    return "let x = ::conc::nested(addr, %d, K::Get, || %s, %s)?; %s" % (i, body, ob, add)


def emit(D):
    ty = "%s%s" % (D.name, inst_args(D))
    dg, tg, wh, _ = gen.gen_header(D)
    asy = D.mode == "async"
    out = []
    w = out.append
    w("#[allow(warnings)]")
    w("pub mod m%d {" % D.id)
    w("use conc::*; use fieldx::fxstruct; use std::marker::PhantomData; use std::sync::Arc as SArc;")
    w(struct_src(D))
    w("impl%s %s%s%s {" % (dg, D.name, tg, wh))
    for f in D.fields:
        s = f.sem
        t = f.ty.rust
        if s.lazy:
            body = "let mut d = 0u64; %s Ok::<u64, LErr>(d)" % " ".join(dep_read(D, f, i) for i in f.deps)
            rt_ = "Result<%s, %s>" % (t, s.err) if s.fallible else t
            fin = "Ok(<%s as Mk>::mk(r?))" % t if s.fallible else "match r { Ok(n) => <%s as Mk>::mk(n), Err(_) => unreachable!() }" % t
            if s.mode == "async":
                w("async fn %s(&self) -> %s { let addr = self as *const Self as usize; let r = ::conc::building_async(addr, %d, async { %s }).await; %s }" % (
                    s.mname("lazy"), rt_, f.i, body, fin))
            else:
                w("fn %s(&self) -> %s { let addr = self as *const Self as usize; let r = ::conc::building(addr, %d, || { %s }); %s }" % (
                    s.mname("lazy"), rt_, f.i, body, fin))
        if f.def_expr and "Self::" in f.def_expr:
            w("fn dflt_%s() -> %s { <%s as Mk>::mk(%d) }" % (f.name, t, t, f.def_tok))
    w("}")
    for f in D.fields:
        if f.def_expr and "dv_" in f.def_expr:
            w("fn dv_%s%s() -> %s { <%s as Mk>::mk(%d) }" % (f.name, gen.used_generics(D, f.ty.rust), f.ty.rust, f.ty.rust, f.def_tok))
    w("pub struct Sub { o: %s }" % ("SArc<%s>" % ty if D.rc else ty))
    w("impl Subj for Sub {")
    w("fn any(&self) -> &dyn std::any::Any { self }")
    w("fn addr(&self) -> usize { &%sself.o as *const %s as usize }" % ("*" if D.rc else "", ty))
    arms = []
    for f in D.fields:
        for k in ops_of(f):
            arms.append("(%d, K::%s) => { %s }" % (f.i, k, emit_op(D, f, k)))
    ref = "let o: &%s = &%sself.o;" % (ty, "*" if D.rc else "")
    if asy:
        w("fn call(&self, op: &COp) -> Obs { unreachable!() }")
        w("fn acall<'a>(&'a self, op: &'a COp) -> std::pin::Pin<Box<dyn std::future::Future<Output = Obs> + 'a>> { Box::pin(async move { %s match (op.f, op.k) {" % ref)
        out += arms
        w("_ => unreachable!() } }) }")
    else:
        w("fn call(&self, op: &COp) -> Obs { %s match (op.f, op.k) {" % ref)
        out += arms
        if D.clone:
            snap = []
            for f in D.fields:
                if covered(f) and f.sem.clearer:
                    s = f.sem
                    h = "let h = Some(c.%s());" % s.mname("predicate") if s.predicate else "let h: Option<bool> = None;"
                    snap.append("{ %s let r = c.%s(); expect(h.map_or(true, |h| h == r.is_some()), \"predicate of a clone is wrong\"); "
                                "Obs::O(r.map(|x| x.tok())) }" % (h, s.mname("clearer")))
                else:
                    snap.append("Obs::U")
            w("(_, K::CloneSwap) => { let c = o.clone(); Obs::List(vec![%s]) }" % ", ".join(snap))
            if "Debug" in D.derives:
                w("(_, K::DebugFmt) => { let _ = format!(\"{:?}\", o); Obs::U }")
        w("_ => unreachable!() } }")
        if D.eq:
            w("fn eq_other(&self, other: &dyn Subj) -> bool { self.o == other.any().downcast_ref::<Sub>().unwrap().o }")
    w("}")
    w("pub fn make() -> SArc<dyn Subj> { SArc::new(Sub { o: %s::new() }) }" % D.name)
    w("}")
    return "\n".join(out)


def emit_entry(D):
    fs = []
    for f in D.fields:
        fl = {"lazy": "Fl::Lazy", "opt": "Fl::Opt", "ord": "Fl::Ord"}[f.kind]
        fs.append("CField { name: %s, fl: %s, fallible: %s, init: %s, deps: &[%s], ops: &[%s] }" % (
            q(f.name), fl, str(bool(f.sem.fallible)).lower(), "Some(%d)" % f.def_tok if f.def_tok is not None else "None",
            ", ".join(map(str, f.deps)), ", ".join("K::%s" % k for k in ops_of(f))))
    ops = []
    if D.clone and D.mode == "sync":
        ops += ["CloneSwap"]
        if D.eq:
            ops += ["EqClone", "EqMutated"]
        if "Debug" in D.derives:
            ops += ["DebugFmt"]
    return "conc::Entry { spec: CSpec { id: %d, src: %s, asy: %s, fields: &[%s], ops: &[%s] }, make: m%d::make }" % (
        D.id, q(struct_src(D)), str(D.mode == "async").lower(), ",\n ".join(fs), ", ".join("K::%s" % k for k in ops), D.id)


def emit_main(decls):
    out = ["#![allow(warnings)]"]
    for D in decls:
        out.append(emit(D))
    out.append("use conc::*;")
    out.append("static ENTRIES: &[Entry] = &[")
    for D in decls:
        out.append(emit_entry(D) + ",")
    out.append("];")
    out.append("fn main() { conc::main_with(ENTRIES); }")
    return "\n".join(out)


def need(D):
    """Something to contend for"""
    return any(ops_of(f) for f in D.fields) and all(f.sem.mode == D.mode or f.sem.skip for f in D.fields)
