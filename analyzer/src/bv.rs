//! Bit vectors with known bits (used by the bit-writer rule).
use crate::interp::*;
use crate::state::*;
use std::rc::Rc;
use vir::*;

fn bits_of(it: &Interp, st: &State, v: &Val) -> Option<(Rc<Vec<Bit>>, bool)> {
    let _ = it;
    match v {
        Val::Bv(b) => Some((b.clone(), true)),
        Val::Int(l, t) => {
            let k = st.konst(l)?;
            let n = t.bits();
            Some((Rc::new((0..n).map(|i| if (k >> i) & 1 == 1 { Bit::One } else { Bit::Zero }).collect()), false))
        }
        _ => None,
    }
}

pub fn binop(it: &mut Interp, st: &mut State, op: BinOp, a: &Val, b: &Val) -> Option<Val> {
    use BinOp::*;
    if !matches!(a, Val::Bv(_)) && !matches!(b, Val::Bv(_)) {
        return None;
    }
    let (x, _) = bits_of(it, st, a)?;
    let n = x.len();
    match op {
        Shl | ShlUnchecked | Shr | ShrUnchecked => {
            let k = match b {
                Val::Int(l, _) => st.konst(l)?,
                _ => return None,
            };
            if k < 0 || k as usize >= n {
                return None;
            }
            let k = k as usize;
            let mut o = vec![Bit::Zero; n];
            for i in 0..n {
                if matches!(op, Shl | ShlUnchecked) {
                    if i >= k {
                        o[i] = x[i - k];
                    }
                } else if i + k < n {
                    o[i] = x[i + k];
                }
            }
            Some(Val::Bv(Rc::new(o)))
        }
        BitAnd | BitOr | BitXor | Add | AddUnchecked => {
            let (y, _) = bits_of(it, st, b)?;
            let mut o = vec![];
            for i in 0..n {
                let (p, q) = (x[i], *y.get(i)?);
                o.push(match op {
                    BitAnd => match (p, q) {
                        (Bit::Zero, _) | (_, Bit::Zero) => Bit::Zero,
                        (Bit::One, r) | (r, Bit::One) => r,
                        (p, q) if p == q => p,
                        _ => Bit::Any,
                    },
                    BitOr => match (p, q) {
                        (Bit::One, _) | (_, Bit::One) => Bit::One,
                        (Bit::Zero, r) | (r, Bit::Zero) => r,
                        (p, q) if p == q => p,
                        _ => Bit::Any,
                    },
                    BitXor => match (p, q) {
                        (Bit::Zero, r) | (r, Bit::Zero) => r,
                        (Bit::One, Bit::One) => Bit::Zero,
                        _ => Bit::Any,
                    },
                    _ => match (p, q) {
                        // Addition without carries.
                        (Bit::Zero, r) | (r, Bit::Zero) => r,
                        _ => return None,
                    },
                });
            }
            Some(Val::Bv(Rc::new(o)))
        }
        _ => None,
    }
}

pub fn cast(_it: &mut Interp, _st: &mut State, v: &Val, t: ITy) -> Option<Val> {
    match v {
        Val::Bv(b) => {
            let n = t.bits() as usize;
            let mut o = (**b).clone();
            o.resize(n, Bit::Zero);
            Some(Val::Bv(Rc::new(o)))
        }
        _ => None,
    }
}

pub fn not(b: &Rc<Vec<Bit>>) -> Val {
    Val::Bv(Rc::new(
        b.iter()
            .map(|x| match x {
                Bit::Zero => Bit::One,
                Bit::One => Bit::Zero,
                _ => Bit::Any,
            })
            .collect(),
    ))
}
