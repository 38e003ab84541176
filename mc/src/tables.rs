//! Macro tables used by several checks.

use crate::model::{mtext, Effect, Kind, Macro, M};

pub fn mac(key: M, kind: Kind, effect: Effect) -> Macro {
    Macro { key, kind, effect }
}

pub const EFFECTS: [Effect; 6] =
    [Effect::Operands, Effect::Head, Effect::Remove, Effect::Fail(3), Effect::Const(9), Effect::Wrap];

/// `o` operative and `p` applicative, with all pairs of effects.
pub fn plain() -> Vec<Vec<Macro>> {
    let mut v = vec![];
    for a in EFFECTS {
        for b in EFFECTS {
            let b = if let Effect::Fail(_) = b { Effect::Fail(4) } else { b };
            v.push(vec![mac(mtext("o"), Kind::Operative, a), mac(mtext("p"), Kind::Applicative, b)]);
        }
    }
    v
}

/// Heads of every other shape are bound as well.
pub fn shaped() -> Vec<Vec<Macro>> {
    let mut v = vec![];
    let x = || M::Comb(Box::new((mtext("x"), M::List(vec![]))));
    for kind in [Kind::Operative, Kind::Applicative] {
        for eff in [Effect::Operands, Effect::Head, Effect::Remove, Effect::Const(9), Effect::Wrap] {
            for (a, b) in [
                (Effect::Const(9), Effect::Head),
                (Effect::Operands, Effect::Operands),
                (Effect::Remove, Effect::Wrap),
                (Effect::Wrap, Effect::Remove),
            ] {
                v.push(vec![
                    mac(mtext("o"), Kind::Operative, a),
                    mac(mtext("p"), Kind::Applicative, b),
                    mac(M::EmptyNest, kind, eff),
                    mac(x(), kind, eff),
                    mac(M::Extra(9), kind, if eff == Effect::Const(9) { Effect::Const(8) } else { eff }),
                    mac(mtext(""), kind, eff),
                    mac(M::List(vec![]), kind, eff),
                    mac(M::List(vec![mtext("x")]), kind, eff),
                    mac(mtext("{"), kind, eff),
                    mac(mtext("po"), kind, eff),
                ]);
            }
        }
    }
    v
}

/// A small selection covering every effect in both kinds.
pub fn few() -> Vec<Vec<Macro>> {
    let p = plain();
    let s = shaped();
    vec![
        vec![],
        p[0].clone(),
        p[1 * 6 + 2].clone(),
        p[2 * 6 + 1].clone(),
        p[3 * 6 + 5].clone(),
        p[4 * 6 + 3].clone(),
        p[5 * 6 + 4].clone(),
        s[0].clone(),
        s[25].clone(),
    ]
}

/// Macros that return other kinds of forms or the parser's own errors.
pub fn odd() -> Vec<Vec<Macro>> {
    use Effect::*;
    let mut v = vec![];
    for e in [Nest, Empty, Many, Own(0), Own(1), Own(2), Own(3)] {
        for f in [Nest, Empty, Many, Own(0), Own(3), Wrap] {
            let mut t = vec![mac(mtext("o"), Kind::Operative, e), mac(mtext("p"), Kind::Applicative, f)];
            if v.len() % 2 == 1 {
                t.push(mac(M::EmptyNest, Kind::Operative, Wrap));
                t.push(mac(M::List(vec![]), Kind::Applicative, Many));
                t.push(mac(M::List(vec![mtext("o"), mtext("")]), Kind::Operative, Const(5)));
                t.push(mac(M::List(vec![mtext("p"), M::List(vec![])]), Kind::Applicative, f));
            }
            v.push(t);
        }
    }
    v
}
