//! Is there an order of calls on one field, consistent with when they were made, in which a plain cell gives the same results?
use crate::world::{Att, Ev};
use crate::{Fl, Obs, K};
use std::collections::HashSet;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct St {
    val: Option<u64>,
    /// Number of builder calls accounted for
    k:   usize,
}

/// Effect of a call and what it returns
fn step(fl: Fl, e: &Ev, s: &St, atts: &[Att]) -> Option<(Obs, St)> {
    let mut n = s.clone();
    let old = s.val;
    let obs = match (fl, e.k) {
        (_, K::Has) => Obs::B(old.is_some()),
        (_, K::Set) => {
            n.val = Some(e.v);
            if fl == Fl::Ord {
                Obs::V(old.unwrap())
            }
            else {
                Obs::O(old)
            }
        }
        (_, K::Clear | K::WClear) => {
            n.val = None;
            Obs::O(old)
        }
        (Fl::Lazy, K::WStore) => {
            n.val = Some(e.v);
            Obs::O(old)
        }
        // The first half
        (Fl::Lazy, K::WStoreClear) => {
            n.val = Some(e.v);
            Obs::List(vec![Obs::O(old), Obs::O(Some(e.v))])
        }
        // What a copy of the object had
        (_, K::Counts) => Obs::O(old),
        (Fl::Lazy, K::Get | K::GetMut | K::GetMutPeek | K::Read) => {
            let t = match old {
                Some(t) => t,
                None => {
                    n.k += 1;
                    match atts.get(s.k)? {
                        Att::Ok(t) => {
                            n.val = Some(*t);
                            *t
                        }
                        Att::Err(c) => return Some((Obs::E(*c), n)),
                        Att::Panic => return Some((Obs::P, n)),
                        _ => return None,
                    }
                }
            };
            Obs::V(t)
        }
        (Fl::Opt, K::Get | K::GetMutPeek | K::Read | K::WPeek) => Obs::O(old),
        (Fl::Opt, K::GetMut | K::Write) => {
            n.val = if e.v % 4 == 0 { None } else { Some(e.v) };
            Obs::O(old)
        }
        (Fl::Ord, K::Get | K::GetMutPeek | K::Read | K::WPeek) => Obs::V(old.unwrap()),
        (Fl::Ord, K::GetMut | K::Write) => {
            n.val = Some(e.v);
            Obs::V(old.unwrap())
        }
        x => unreachable!("{:?}", x),
    };
    Some((obs, n))
}

pub fn linearizable(fl: Fl, init: Option<u64>, evs: &[&Ev], atts: &[Att]) -> bool {
    assert!(evs.len() < 60);
    let atts: Vec<Att> = atts.iter().filter(|a| **a != Att::Cancelled).cloned().collect();
    let init = if fl == Fl::Ord { Some(init.unwrap_or(0)) } else { init };
    let mut seen = HashSet::new();
    dfs(fl, evs, &atts, (0, 0), St { val: init, k: 0 }, &mut seen)
}

/// Calls which change the value more than once while having exclusive access; only the predicate, which needs no lock, may see what
/// is in between. Getting a mutable reference builds the value and then waits for exclusive access: until then the value can be read by
/// those who don't build it, that is when cloning.
fn second(fl: Fl, e: &Ev, s: &St) -> Option<St> {
    match (fl, e.k) {
        (Fl::Lazy, K::WStoreClear) => Some(St { val: None, ..s.clone() }),
        (Fl::Lazy, K::GetMut) if s.val.is_some() && !matches!(e.obs, Some(Obs::E(_) | Obs::P)) => Some(St { val: Some(e.v), ..s.clone() }),
        _ => None,
    }
}

/// Calls begun to take effect, calls done
type Masks = (u64, u64);

fn dfs(fl: Fl, evs: &[&Ev], atts: &[Att], m: Masks, s: St, seen: &mut HashSet<(Masks, St)>) -> bool {
    let done = |i: usize| m.1 >> i & 1 == 1;
    if s.k == atts.len() && evs.iter().enumerate().all(|(i, e)| done(i) || e.obs.is_none()) {
        return true;
    }
    if !seen.insert((m, s.clone())) {
        return false;
    }
    let half = evs.iter().enumerate().find(|(i, _)| m.0 >> i & 1 == 1 && !done(*i));
    if let Some((i, e)) = half {
        let all = (m.0, m.1 | 1 << i);
        if dfs(fl, evs, atts, all, second(fl, e, &s).unwrap(), seen) {
            return true;
        }
        // Was given up before the second half
        if e.obs.is_none() && dfs(fl, evs, atts, all, s.clone(), seen) {
            return true;
        }
    }
    // Nothing which began after some pending call had ended may go before it
    let limit = evs.iter().enumerate().filter(|(i, _)| !done(*i)).map(|(_, e)| e.end).min().unwrap_or(u64::MAX);
    for (i, e) in evs.iter().enumerate() {
        if m.0 >> i & 1 == 1 || e.start > limit || half.is_some_and(|(_, h)| e.k != K::Has && !(h.k == K::GetMut && e.k == K::Counts)) {
            continue;
        }
        if let Some((o, n)) = step(fl, e, &s, atts) {
            let two = second(fl, e, &n).is_some();
            let next = (m.0 | 1 << i, if two { m.1 } else { m.1 | 1 << i });
            if e.obs.as_ref().is_none_or(|x| *x == o) && dfs(fl, evs, atts, next, n, seen) {
                return true;
            }
        }
    }
    false
}

#[cfg(test)]
mod tests {
    use super::*;
    fn ev(k: K, v: u64, obs: Obs, start: u64, end: u64) -> Ev {
        Ev { task: 0, gf: 0, k, v, obs: Some(obs), start, end }
    }
    #[test]
    fn orders() {
        let a = ev(K::Set, 5, Obs::O(None), 1, 4);
        let b = ev(K::Has, 0, Obs::B(true), 2, 3);
        let c = ev(K::Has, 0, Obs::B(false), 5, 6);
        assert!(linearizable(Fl::Lazy, None, &[&a, &b], &[]));
        assert!(!linearizable(Fl::Lazy, None, &[&a, &b, &c], &[]));
        let g = ev(K::Get, 0, Obs::V(7), 5, 6);
        assert!(!linearizable(Fl::Lazy, None, &[&a, &g], &[Att::Ok(7)]));
        let h = ev(K::Get, 0, Obs::V(7), 1, 6);
        let d = ev(K::Set, 5, Obs::O(Some(7)), 1, 4);
        assert!(linearizable(Fl::Lazy, None, &[&d, &h], &[Att::Ok(7)]));
        assert!(!linearizable(Fl::Lazy, None, &[&d, &h], &[Att::Ok(7), Att::Ok(8)]));
    }
}
