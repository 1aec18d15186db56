//! Reference model: documented semantics over plain numbers.
use crate::env::{build_token, Outcome};
use crate::spec::*;
use serde_json::{Map, Value};
use std::collections::{BTreeMap, VecDeque};

pub struct Model<'a> {
    pub s:      &'a Spec,
    pub st:     Vec<Option<u64>>,
    pub plan:   Vec<VecDeque<Outcome>>,
    pub builds: Vec<u64>,
    pub defs:   Vec<u64>,
    pub post:   u64,
    pub post_seen: Vec<u64>,
    /// user-held pointers for reference counted structs
    pub handles: u64,
}

pub fn required(f: &FieldSpec) -> bool {
    f.req || (f.inb && f.fl == Fl::Ord && f.def.is_none())
}

/// Input map for a deserialization.
pub fn de_json(s: &Spec, pres: &[Pres]) -> String {
    let mut m = Map::new();
    for (f, p) in s.fields.iter().zip(pres) {
        let Some(ser) = f.ser.as_ref()
        else {
            continue;
        };
        match p {
            Pres::Missing => (),
            Pres::Null => {
                m.insert(ser.name.to_string(), Value::Null);
            }
            Pres::Val(v) => {
                m.insert(ser.name.to_string(), (ser.jv)(*v));
            }
        }
    }
    Value::Object(m).to_string()
}

impl<'a> Model<'a> {
    pub fn new(s: &'a Spec) -> Self {
        let n = s.fields.len();
        Self {
            s,
            st: vec![None; n],
            plan: vec![VecDeque::new(); n],
            builds: vec![0; n],
            defs: vec![0; n],
            post: 0,
            post_seen: vec![],
            handles: 1,
        }
    }

    fn dflt(&self, f: &FieldSpec) -> Option<u64> {
        f.def.or(if f.fl == Fl::Ord { Some(0) } else { None })
    }

    fn count_def(&mut self, i: usize) {
        if self.s.fields[i].def_counted {
            self.defs[i] += 1;
        }
    }

    fn err_obs(&self, name: &str) -> Obs {
        Obs::S(match self.s.ek {
            EK::Fx => format!("uninit:{}", name),
            EK::CustomFrom => format!("Fx(\"uninit:{}\")", name),
            EK::Variant => format!("Miss(\"{}\")", name),
        })
    }

    /// Returns false if there is no object.
    pub fn construct(&mut self, c: &Ctor, log: &mut Vec<Obs>) -> bool {
        let s = self.s;
        match c {
            Ctor::New | Ctor::Default => {
                for (i, f) in s.fields.iter().enumerate() {
                    self.st[i] = self.dflt(f);
                    self.count_def(i);
                }
                true
            }
            Ctor::Builder(steps) => {
                let mut given: BTreeMap<usize, u64> = BTreeMap::new();
                let mut post_fail = None;
                'steps: for step in steps {
                    match step {
                        BStep::Set(i, v) => {
                            given.insert(*i, *v);
                        }
                        BStep::PostFail(c) => {
                            post_fail = Some(*c);
                        }
                        BStep::Build => {
                            for (i, f) in s.fields.iter().enumerate() {
                                if required(f) && !given.contains_key(&i) {
                                    log.push(self.err_obs(f.name));
                                    continue 'steps;
                                }
                            }
                            for (i, f) in s.fields.iter().enumerate() {
                                if let Some(v) = given.get(&i) {
                                    self.st[i] = Some(*v);
                                }
                                else {
                                    self.st[i] = self.dflt(f);
                                    self.count_def(i);
                                }
                            }
                            if s.pb != Pb::None {
                                self.post += 1;
                                for i in s.pb_sees {
                                    self.post_seen.push(self.st[*i].unwrap());
                                }
                                if s.pb == Pb::Fallible {
                                    if let Some(c) = post_fail {
                                        log.push(Obs::S(format!("Post({})", c)));
                                        self.st.iter_mut().for_each(|v| *v = None);
                                        return false;
                                    }
                                }
                            }
                            log.push(Obs::U);
                            return true;
                        }
                    }
                }
                false
            }
            Ctor::De(pres) => {
                if self.deserialize(pres) {
                    log.push(Obs::U);
                    true
                }
                else {
                    log.push(Obs::S("de-error".into()));
                    self.st.iter_mut().for_each(|v| *v = None);
                    false
                }
            }
        }
    }

    pub fn deserialize(&mut self, pres: &[Pres]) -> bool {
        let s = self.s;
        for (i, f) in s.fields.iter().enumerate() {
            let soft = f.fl != Fl::Ord;
            let v = match &f.ser {
                Some(ser) if ser.de => match pres[i] {
                    Pres::Val(v) => {
                        if v == 0 && ser.opt_ty && soft {
                            None
                        }
                        else {
                            Some(v)
                        }
                    }
                    Pres::Null => {
                        if soft {
                            None
                        }
                        else if ser.opt_ty {
                            Some(0)
                        }
                        else {
                            return false;
                        }
                    }
                    Pres::Missing => match ser.default {
                        SDef::Val(v) => Some(v),
                        SDef::Ty => {
                            if soft {
                                None
                            }
                            else {
                                Some(0)
                            }
                        }
                        SDef::None => match s.de_default {
                            Some(d) => d[i],
                            None if soft => None,
                            None if ser.opt_ty => Some(0),
                            None => return false,
                        },
                    },
                },
                _ => self.dflt(f),
            };
            self.st[i] = v;
        }
        true
    }

    /// Value of a field the way an accessor sees it, building if necessary.
    fn ensure(&mut self, i: usize) -> Result<u64, Obs> {
        if let Some(v) = self.st[i] {
            return Ok(v);
        }
        let f = &self.s.fields[i];
        debug_assert!(f.fl == Fl::Lazy);
        let mut deps = 0u64;
        for d in f.deps {
            deps += if self.s.fields[*d].fl == Fl::Lazy {
                self.ensure(*d)?
            }
            else {
                self.st[*d].unwrap_or(0)
            };
        }
        self.builds[i] += 1;
        match self.plan[i].pop_front() {
            None => {
                let v = build_token(i, self.builds[i], deps);
                self.st[i] = Some(v);
                Ok(v)
            }
            Some(Outcome::Err(c)) => Err(Obs::E(c)),
            Some(Outcome::Panic) => Err(Obs::P),
        }
    }

    pub fn step(&mut self, op: &Op) -> Obs {
        let fl = self.s.fields.get(op.f).map_or(Fl::Ord, |f| f.fl);
        let i = op.f;
        let wrap = |o: Option<u64>| match fl {
            Fl::Opt => Obs::O(o),
            _ => Obs::V(o.unwrap()),
        };
        match op.k {
            K::Get | K::Read | K::GetMutPeek => match fl {
                Fl::Lazy => match self.ensure(i) {
                    Ok(v) => Obs::V(v),
                    Err(o) => o,
                },
                _ => wrap(self.st[i]),
            },
            K::WPeek => wrap(self.st[i]),
            K::GetMut | K::Write => match fl {
                Fl::Lazy => match self.ensure(i) {
                    Ok(v) => {
                        self.st[i] = Some(op.v);
                        Obs::V(v)
                    }
                    Err(o) => o,
                },
                Fl::Opt => {
                    // Every fourth write through a mutable view empties the field.
                    let old = self.st[i];
                    self.st[i] = if op.v % 4 == 0 { None } else { Some(op.v) };
                    Obs::O(old)
                }
                Fl::Ord => Obs::V(self.st[i].replace(op.v).unwrap()),
            },
            K::Set => match fl {
                Fl::Ord => Obs::V(self.st[i].replace(op.v).unwrap()),
                _ => Obs::O(self.st[i].replace(op.v)),
            },
            K::Clear | K::WClear => Obs::O(self.st[i].take()),
            K::WStore => Obs::O(self.st[i].replace(op.v)),
            K::WStoreClear => {
                let old = self.st[i].take();
                Obs::List(vec![Obs::O(old), Obs::O(Some(op.v))])
            }
            K::Has | K::IsSet => Obs::B(self.st[i].is_some()),
            // Errors are not reported by this one, panics are.
            K::LazyInit => match self.ensure(i) {
                Err(Obs::P) => Obs::P,
                _ => Obs::U,
            },
            K::Dbg => Obs::B(true),
            K::Unwrap => match fl {
                Fl::Ord => Obs::V(self.st[i].unwrap()),
                _ => Obs::O(self.st[i]),
            },
            K::Conv => {
                let eq = self.st[i] == Some(op.v);
                let v = wrap(Some(op.v));
                let d = if fl == Fl::Opt { Obs::O(None) } else { Obs::V(0) };
                Obs::List(vec![Obs::B(eq), Obs::B(eq), v.clone(), v.clone(), v.clone(), v.clone(), v, d])
            }
            K::PlanErr => {
                self.plan[i].push_back(Outcome::Err(op.v));
                Obs::U
            }
            K::PlanPanic => {
                self.plan[i].push_back(Outcome::Panic);
                Obs::U
            }
            K::CloneSwap | K::DebugFmt => Obs::U,
            K::EqClone => Obs::B(true),
            K::EqMutated => {
                let eq = self.st[i] == Some(op.v);
                Obs::List(vec![Obs::B(eq), Obs::B(eq)])
            }
            K::EqCleared => {
                let eq = self.st[i].is_none();
                Obs::List(vec![Obs::B(eq), Obs::B(eq)])
            }
            K::Myself | K::MyselfDown => Obs::B(true),
            K::Counts => Obs::List(vec![Obs::V(self.handles), Obs::V(0)]),
            K::RcClone => {
                self.handles += 1;
                Obs::U
            }
            K::RcDrop => {
                if self.handles > 1 {
                    self.handles -= 1;
                }
                Obs::U
            }
            K::SerdeRt => {
                let mut m = Map::new();
                let mut pres = vec![Pres::Missing; self.s.fields.len()];
                let saved = self.st.clone();
                for (j, f) in self.s.fields.iter().enumerate() {
                    let Some(ser) = &f.ser
                    else {
                        continue;
                    };
                    if !ser.ser {
                        continue;
                    }
                    if f.fl == Fl::Lazy {
                        if let Err(Obs::P) = self.ensure(j) {
                            self.st = saved;
                            return Obs::P;
                        }
                    }
                }
                for (j, f) in self.s.fields.iter().enumerate() {
                    let Some(ser) = &f.ser
                    else {
                        continue;
                    };
                    if !ser.ser {
                        continue;
                    }
                    let jv = match self.st[j] {
                        Some(v) => {
                            pres[j] = Pres::Val(v);
                            (ser.jv)(v)
                        }
                        None => {
                            pres[j] = Pres::Null;
                            Value::Null
                        }
                    };
                    m.insert(ser.name.to_string(), jv);
                }
                if self.deserialize(&pres) {
                    Obs::List(vec![Obs::J(Value::Object(m)), Obs::U])
                }
                else {
                    self.st = saved;
                    Obs::List(vec![Obs::J(Value::Object(m)), Obs::S("de-error".into())])
                }
            }
            K::OvGetGet => Obs::List(vec![wrap(self.st[i]), wrap(self.st[i])]),
            K::OvGetMut | K::OvGetSet | K::OvGetClear | K::OvMutGet | K::OvMutMut | K::OvMutSet | K::OvMutHas => {
                // Refused, nothing changes
                Obs::List(vec![wrap(self.st[i]), Obs::P])
            }
            K::OvOther => Obs::List(vec![wrap(self.st[i]), Obs::U]),
        }
    }

    /// Tracked values the struct must be holding.
    pub fn held(&self) -> BTreeMap<u64, i64> {
        let mut m = BTreeMap::new();
        for (i, f) in self.s.fields.iter().enumerate() {
            if let (Some(v), true) = (self.st[i], f.track > 0) {
                if v == 0 && f.zero_untracked {
                    continue;
                }
                *m.entry(v).or_insert(0) += f.track;
            }
        }
        m
    }
}
