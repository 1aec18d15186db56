"""C17: which generated structs may be sent to and shared between threads, and using those which may."""
import gen

ODD = ["OnlySend", "OnlySync", "Neither", "Option<OnlySend>", "(OnlySync, u8)", "[Neither; 2]"]


def conj(xs):
    xs = list(xs)
    return (all(x[0] for x in xs), all(x[1] for x in xs))


def field_thr(f):
    """What the type of a field's value is turned into by the documented container."""
    snd, syn = f.ty.thr
    s = f.sem
    if s.skip:
        return snd, syn
    if s.mode == "plain":
        return (snd, False) if s.lazy or s.inner_mut else (snd, syn)
    return (snd, snd and syn) if s.lazy or s.locked else (snd, syn)


def param_thr(D):
    """Types standing for parameters of the struct."""
    return [gen.TYPES[D.generics.inst[g]].thr for g in D.generics.tys] if D.generics else []


def struct_thr(D):
    used = [t for _, t in gen.markers(D)]
    ms = [gen.TYPES[D.generics.inst[g]].thr for g in (D.generics.tys if D.generics else []) if "PhantomData<%s>" % g in used]
    if D.S.has("lock") and D.mode != "plain":
        ms = [(m[0], m[0] and m[1]) for m in ms]
    snd, syn = conj([field_thr(f) for f in D.fields] + ms)
    if D.rc:
        if not gen.counts_as_sync(D):
            return False, False
        return snd and syn, snd and syn
    return snd, syn


SHARED = ("Get", "Has", "Read", "Write", "WPeek", "WStore", "WClear")


def shared_ops(D):
    out = []
    for f in D.fields:
        if f.sem.skip:
            continue
        for k in f.ops:
            if k in SHARED or k in ("GetMut", "Set", "Clear") and not gen.receiver_mut(f):
                out.append((f, k))
    return out


def facts(D):
    ty = "%s%s" % (D.name, gen.inst_args(D))
    say = lambda b: "Send and Sync" if b == (True, True) else "Send but not Sync" if b[0] else "Sync but not Send" if b[1] else "neither Send nor Sync"
    exp = struct_thr(D)
    out = ["{ let got = (::rt::Probe::<%s>::SEND, ::rt::Probe::<%s>::SYNC); if got != (%s, %s) { "
           "v.push(format!(\"the struct must be %s, but (Send, Sync) is {:?}\", got)); } }" % (
               ty, ty, str(exp[0]).lower(), str(exp[1]).lower(), say(exp))]
    if D.has_builder:
        b = "%sBuilder%s" % (D.name.replace("r#", ""), gen.inst_args(D))
        inb = conj(f.ty.thr for f in D.fields if f.sem.inb)
        allf = conj([f.ty.thr for f in D.fields] + param_thr(D))
        if D.rc:
            inb = conj([inb, exp])
            allf = conj([allf, exp])
        # It never gains what one of its values lacks, and has what all values have
        for i, (c, w) in enumerate((("SEND", "sendable"), ("SYNC", "shareable"))):
            if not inb[i]:
                out.append("if ::rt::Probe::<%s>::%s { v.push(\"the builder must not be %s\".into()); }" % (b, c, w))
            elif allf[i]:
                out.append("if !::rt::Probe::<%s>::%s { v.push(\"the builder must be %s\".into()); }" % (b, c, w))
    ops = shared_ops(D)
    if exp == (True, True) and ops and (D.has_new or D.has_default and not D.rc):
        body = []
        for i, (f, k) in enumerate(ops):
            code = gen.emit_op(D, f, k)
            if f.sem.mode == "async":
                body.append("%d => { env::block_on_shared(::rt::need_send(async { %s })) }" % (i, code))
            else:
                body.append("%d => { %s }" % (i, code))
        out.append("""{
            struct Shared<'x> { o: &'x %(ty)s, h: Vec<&'x %(ty)s> }
            impl<'x> Shared<'x> { fn call(&self, i: usize, op: &Op) -> Obs { match i { %(body)s _ => unreachable!() } } }
            env::reset(%(n)d);
            let o = %(new)s;
            let s = Shared { o: &o, h: vec![&o] };
            std::thread::scope(|sc| { for t in 0..2u64 { let s = &s; sc.spawn(move || {
                env::reset(%(n)d);
                for i in 0..%(m)d { let _ = s.call(i, &Op { k: K::Get, f: 0, v: 1 + t + 2 * i as u64 }); }
            }); } });
        }""" % dict(ty=ty, body=" ".join(body), n=len(D.fields), m=len(ops),
                    new="%s::new()" % D.name if D.has_new else "<%s as Default>::default()" % ty))
    return out


def sound(D):
    exp = struct_thr(D)
    for f in D.fields:
        if f.sem.mode == "async" and f.sem.lazy and not f.sem.skip and not exp[1]:
            # Futures made by async lazy builders are Send, so must be references to the struct
            return False
        if D.generics and f.sem.mode == "async" and f.ty.thr != (True, True):
            return False
    if D.generics and D.mode == "async":
        return all(t == (True, True) for t in param_thr(D))
    return True


def variants(rng, p, ident):
    while True:
        D = gen.gen_decl(rng, p, ident)
        if sound(D):
            D.facts = facts(D)
            return [D]


def count(decls, v):
    """Declarations are the cases here."""
    v.cov["classes"]["histories"] = v.cov["evaluations"]
    nt = set(gen.struct_src(D) for D in decls if any(f.ty.thr != (True, True) for f in D.fields))
    v.cov["evaluations"], v.cov["distinct_nontrivial"] = len(decls), len(nt)
    for m in ("plain", "sync", "async"):
        for e in ((True, True), (True, False), (False, True), (False, False)):
            n = sum(1 for D in decls if D.mode == m and struct_thr(D) == e)
            v.cov["classes"]["%s struct, %s Send, %s Sync" % (m, "" if e[0] else "not", "" if e[1] else "not")] = n
    v.cov["classes"]["used from two threads"] = sum(1 for D in decls if len(D.facts) > 1 and "thread::scope" in D.facts[-1])
    v.cov["samples"] = [{"struct": gen.struct_src(D), "expected (Send, Sync)": struct_thr(D)} for D in decls[:5]]
