//! Reading results of the implementation and comparing them with the model.

use crate::model::{M, MErr, Item, Call, show, show_item};
use kul::text::chunk::{CharPos, StrPos};
use kul::{Datum, DerefTryMut, Error, Text};


/// What a position type tells.
pub trait Posish: Clone {
    fn index(&self) -> Option<usize>;
}
impl Posish for StrPos<'_> {
    fn index(&self) -> Option<usize> {
        Some(self.char_pos)
    }
}
impl Posish for CharPos {
    fn index(&self) -> Option<usize> {
        Some(self.0)
    }
}
impl Posish for () {
    fn index(&self) -> Option<usize> {
        None
    }
}

/// The value in an extra datum.
pub trait Extraish {
    fn num(&self) -> u32;
}
impl Extraish for u32 {
    fn num(&self) -> u32 {
        *self
    }
}
impl Extraish for () {
    fn num(&self) -> u32 {
        0
    }
}

pub fn text_m<TT: Text>(t: &TT) -> M
where
    TT::Pos: Posish,
{
    M::Text(t.iter().map(|i| (i.ch, i.pos.index().map_or(u32::MAX, |x| x as u32))).collect())
}

/// Read a datum into the model's representation.  `List` chains must be proper.
pub fn to_m<TT, ET, DR>(d: &Datum<TT, ET, DR>) -> M
where
    TT: Text,
    TT::Pos: Posish,
    ET: Extraish,
    DR: DerefTryMut<Target = Datum<TT, ET, DR>>,
{
    match d {
        Datum::Text(t) => text_m(t),
        Datum::Combination { operator, operands } => M::Comb(Box::new((to_m(&**operator), to_m(&**operands)))),
        Datum::EmptyNest => M::EmptyNest,
        Datum::EmptyList => M::List(vec![]),
        Datum::Extra(e) => M::Extra(e.num()),
        Datum::List { .. } => {
            let mut v = vec![];
            let mut cur = d;
            loop {
                match cur {
                    Datum::List { elem, next } => {
                        v.push(to_m(&**elem));
                        cur = &**next;
                    }
                    Datum::EmptyList => break,
                    // Improper tail: make it visibly different from any proper list.
                    other => {
                        v.push(M::Comb(Box::new((M::Extra(u32::MAX), to_m(other)))));
                        break;
                    }
                }
            }
            M::List(v)
        }
    }
}

pub fn err_m<P: Posish>(e: &Error<P, u32>) -> MErr {
    match e {
        Error::UnbalancedEndChar(p) => MErr::Unbalanced(p.index().map_or(u32::MAX, |x| x as u32)),
        Error::MissingEndChar => MErr::Missing,
        Error::FailedCombiner(n) => MErr::Macro(*n),
        Error::FailedAlloc(_) => MErr::Alloc,
        Error::FailedDerefTryMut => MErr::Deref,
    }
}

pub fn item_m<TT, ET, DR, P>(r: &Result<Datum<TT, ET, DR>, Error<P, u32>>) -> Item
where
    TT: Text<Pos = P>,
    P: Posish + kul::SourcePosition,
    ET: Extraish,
    DR: DerefTryMut<Target = Datum<TT, ET, DR>>,
{
    match r {
        Ok(d) => Ok(to_m(d)),
        Err(e) => Err(err_m(e)),
    }
}

/// Compare without building anything.
pub fn same<TT, ET, DR>(m: &M, d: &Datum<TT, ET, DR>) -> bool
where
    TT: Text,
    ET: Extraish,
    DR: DerefTryMut<Target = Datum<TT, ET, DR>>,
{
    match (m, d) {
        (M::Text(a), Datum::Text(t)) => {
            let mut it = a.iter();
            for c in t.iter() {
                match it.next() {
                    Some(x) if x.0 == c.ch => {}
                    _ => return false,
                }
            }
            it.next().is_none()
        }
        (M::Comb(b), Datum::Combination { operator, operands }) => same(&b.0, &**operator) && same(&b.1, &**operands),
        (M::EmptyNest, Datum::EmptyNest) => true,
        (M::Extra(n), Datum::Extra(e)) => *n == e.num(),
        (M::List(l), d) => {
            let mut cur = d;
            for x in l {
                match cur {
                    Datum::List { elem, next } => {
                        if !same(x, &**elem) {
                            return false;
                        }
                        cur = &**next;
                    }
                    _ => return false,
                }
            }
            matches!(cur, Datum::EmptyList)
        }
        _ => false,
    }
}

/// Like `same`, also requiring every character's position.
pub fn same_pos<TT, ET, DR>(m: &M, d: &Datum<TT, ET, DR>) -> bool
where
    TT: Text,
    TT::Pos: Posish,
    ET: Extraish,
    DR: DerefTryMut<Target = Datum<TT, ET, DR>>,
{
    match (m, d) {
        (M::Text(a), Datum::Text(t)) => {
            let mut it = a.iter();
            for c in t.iter() {
                match it.next() {
                    Some(x) if x.0 == c.ch && c.pos.index() == Some(x.1 as usize) => {}
                    _ => return false,
                }
            }
            it.next().is_none()
        }
        (M::Comb(b), Datum::Combination { operator, operands }) => {
            same_pos(&b.0, &**operator) && same_pos(&b.1, &**operands)
        }
        (M::List(l), d) => {
            let mut cur = d;
            for x in l {
                match cur {
                    Datum::List { elem, next } => {
                        if !same_pos(x, &**elem) {
                            return false;
                        }
                        cur = &**next;
                    }
                    _ => return false,
                }
            }
            matches!(cur, Datum::EmptyList)
        }
        _ => same(m, d),
    }
}

/// Strict comparison including positions.
pub fn m_eq_pos(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Text(x), M::Text(y)) => x == y,
        (M::Comb(x), M::Comb(y)) => m_eq_pos(&x.0, &y.0) && m_eq_pos(&x.1, &y.1),
        (M::List(x), M::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| m_eq_pos(p, q)),
        _ => a == b,
    }
}

pub fn err_eq(a: &MErr, b: &MErr, pos: bool) -> bool {
    match (a, b) {
        (MErr::Unbalanced(x), MErr::Unbalanced(y)) => !pos || x == y,
        _ => a == b,
    }
}

pub fn item_eq(a: &Item, b: &Item, pos: bool) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            if pos {
                m_eq_pos(x, y)
            } else {
                x == y
            }
        }
        (Err(x), Err(y)) => err_eq(x, y, pos),
        _ => false,
    }
}

pub fn items_diff(want: &[Item], got: &[Item], pos: bool) -> Option<String> {
    for k in 0..want.len().max(got.len()) {
        match (want.get(k), got.get(k)) {
            (Some(a), Some(b)) if item_eq(a, b, pos) => {}
            (a, b) => {
                return Some(format!(
                    "item {k}: expected {}, got {}",
                    a.map_or("end".into(), |x| clip(show_item(x))),
                    b.map_or("end".into(), |x| clip(show_item(x)))
                ))
            }
        }
    }
    None
}

pub fn calls_diff(want: &[Call], got: &[Call], pos: bool) -> Option<String> {
    for k in 0..want.len().max(got.len()) {
        match (want.get(k), got.get(k)) {
            (Some(a), Some(b))
                if a == b && (!pos || (m_eq_pos(&a.head, &b.head) && m_eq_pos(&a.operands, &b.operands))) => {}
            (a, b) => {
                let f = |x: Option<&Call>| {
                    x.map_or("none".to_string(), |c| clip(format!("{:?}#{} {} {}", c.kind, c.id, show(&c.head), show(&c.operands))))
                };
                return Some(format!("macro call {k}: expected {}, got {}", f(a), f(b)));
            }
        }
    }
    None
}

pub fn clip(s: String) -> String {
    if s.chars().count() > 400 {
        s.chars().take(400).collect::<String>() + "…"
    } else {
        s
    }
}
