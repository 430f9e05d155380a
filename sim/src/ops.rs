//! Operations and their reference semantics on tables.
use crate::core::arith_point;
use crate::space::*;
use mddcore::prelude::MddValue;
use std::fmt;
use std::ops::{Add, Div, Mul, Rem, Sub};

/// The simulated user's value type: 32-bit wrapping arithmetic that can be told
/// to panic at any call (a seam the library already has).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct SimV(pub i64);

// The user's ordering can panic like the user's arithmetic.
impl Ord for SimV {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        arith_point();
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for SimV {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}

pub fn wrap(x: i128) -> i64 {
    x as i32 as i64
}
impl fmt::Display for SimV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl From<i32> for SimV {
    fn from(x: i32) -> Self {
        SimV(x as i64)
    }
}
macro_rules! arith {
    ($t:ident, $f:ident, $e:expr) => {
        impl $t for SimV {
            type Output = SimV;
            fn $f(self, o: SimV) -> SimV {
                arith_point();
                let g: fn(i128, i128) -> i128 = $e;
                SimV(wrap(g(self.0 as i128, o.0 as i128)))
            }
        }
    };
}
arith!(Add, add, |a, b| a + b);
arith!(Sub, sub, |a, b| a - b);
arith!(Mul, mul, |a, b| a * b);
arith!(Div, div, |a, b| a / b);
arith!(Rem, rem, |a, b| a % b);
impl MddValue for SimV {}

/// The simulated user's probability type (see `PartialEq + From<f64>` bounds).
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct SimT(pub f64);
impl From<f64> for SimT {
    fn from(x: f64) -> Self {
        SimT(x)
    }
}
impl Add for SimT {
    type Output = SimT;
    fn add(self, o: SimT) -> SimT {
        arith_point();
        SimT(self.0 + o.0)
    }
}
impl Sub for SimT {
    type Output = SimT;
    fn sub(self, o: SimT) -> SimT {
        arith_point();
        SimT(self.0 - o.0)
    }
}
impl Mul for SimT {
    type Output = SimT;
    fn mul(self, o: SimT) -> SimT {
        arith_point();
        SimT(self.0 * o.0)
    }
}

/// The user's interval number type (imprecise probabilities).
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct SimI(pub f64, pub f64);
impl From<f64> for SimI {
    fn from(x: f64) -> Self {
        SimI(x, x)
    }
}
impl Add for SimI {
    type Output = SimI;
    fn add(self, o: SimI) -> SimI {
        arith_point();
        SimI(self.0 + o.0, self.1 + o.1)
    }
}
impl Sub for SimI {
    type Output = SimI;
    fn sub(self, o: SimI) -> SimI {
        arith_point();
        SimI(self.0 - o.1, self.1 - o.0)
    }
}
impl Mul for SimI {
    type Output = SimI;
    fn mul(self, o: SimI) -> SimI {
        arith_point();
        let c = [self.0 * o.0, self.0 * o.1, self.1 * o.0, self.1 * o.1];
        SimI(c.iter().copied().fold(f64::INFINITY, f64::min), c.iter().copied().fold(f64::NEG_INFINITY, f64::max))
    }
}
impl SimI {
    pub fn has(&self, x: f64) -> bool {
        self.0 <= x && x <= self.1
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Not,
    And,
    Or,
    Xor,
    Imp,
    Nand,
    Nor,
    Xnor,
    Ite,
    Replace,
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Min,
    Max,
    VReplace,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    BEq,
    BNe,
    VIte,
    VIf,
    ZUnion,
    ZIntersect,
    ZSetdiff,
    ZProduct,
    ZDivide,
    MIntersect,
    MSetdiff,
    MBaseline,
    /// wrong kinds of operands: the result must be undetermined
    BadBool,
    BadValue,
    BadIteB,
    BadIteV,
}

impl Op {
    pub fn name(self) -> &'static str {
        use Op::*;
        match self {
            Not => "not",
            And => "and",
            Or => "or",
            Xor => "xor",
            Imp => "imp",
            Nand => "nand",
            Nor => "nor",
            Xnor => "xnor",
            Ite => "ite",
            Replace => "replace",
            Add => "add",
            Sub => "sub",
            Mul => "mul",
            Div => "div",
            Rem => "rem",
            Min => "min",
            Max => "max",
            VReplace => "vreplace",
            Eq => "eq",
            Ne => "ne",
            Lt => "lt",
            Le => "le",
            Gt => "gt",
            Ge => "ge",
            BEq => "bool-eq",
            BNe => "bool-ne",
            VIte => "value-ite",
            VIf => "value-if",
            ZUnion => "union",
            ZIntersect => "intersect",
            ZSetdiff => "setdiff",
            ZProduct => "product",
            ZDivide => "divide",
            MIntersect => "zm-intersect",
            MSetdiff => "zm-setdiff",
            MBaseline => "zm-baseline",
            BadBool => "bad-bool",
            BadValue => "bad-value",
            BadIteB => "bad-ite-bool",
            BadIteV => "bad-ite-value",
        }
    }
    /// Operand kinds (0 = boolean/family, 1 = value) and result kind.
    pub fn sig(self) -> (&'static [u8], u8) {
        use Op::*;
        match self {
            Not => (&[0], 0),
            And | Or | Xor | Imp | Nand | Nor | Xnor | Replace | BEq | BNe => (&[0, 0], 0),
            ZUnion | ZIntersect | ZSetdiff | ZProduct | ZDivide => (&[0, 0], 0),
            Ite => (&[0, 0, 0], 0),
            Add | Sub | Mul | Div | Rem | Min | Max | VReplace => (&[1, 1], 1),
            MIntersect | MSetdiff => (&[1, 1], 1),
            MBaseline => (&[1], 1),
            Eq | Ne | Lt | Le | Gt | Ge => (&[1, 1], 0),
            VIte => (&[0, 1, 1], 1),
            VIf => (&[0, 1], 1),
            BadBool => (&[0, 1], 0),
            BadValue => (&[1, 0], 1),
            BadIteB => (&[1, 0, 0], 0),
            BadIteV => (&[1, 1, 1], 1),
        }
    }

    /// Reference semantics. `k` is an extra scalar operand.
    pub fn spec(self, t: &[&[i64]], space: &Space, k: i64) -> Vec<i64> {
        use Op::*;
        match self {
            ZProduct => return product(t[0], t[1], space),
            ZDivide => return divide(t[0], t[1], space),
            BadBool | BadValue | BadIteB | BadIteV => return space.constant(U),
            MBaseline => {
                let mut r = t[0].to_vec();
                if r[0] == U {
                    r[0] = k;
                }
                return r;
            }
            _ => {}
        }
        (0..space.len())
            .map(|i| {
                let a = t[0][i];
                let b = if t.len() > 1 { t[1][i] } else { 0 };
                let c = if t.len() > 2 { t[2][i] } else { 0 };
                if vague(a) || vague(b) || vague(c) {
                    return X;
                }
                match self {
                    Replace | VReplace => {
                        if a == U {
                            b
                        } else {
                            a
                        }
                    }
                    MIntersect => {
                        if a == b {
                            a
                        } else {
                            U
                        }
                    }
                    MSetdiff => {
                        if a != b {
                            a
                        } else {
                            U
                        }
                    }
                    VIf => if a == 1 { b } else { U },
                    Ite | VIte => {
                        if a != U {
                            return if a == 1 { b } else { c };
                        }
                        match (b, c) {
                            (U, _) | (_, U) => X,
                            (0, 0) if self == Ite => K0,
                            (1, 1) if self == Ite => K1,
                            _ if b == c => X,
                            _ => U,
                        }
                    }
                    Add | Sub | Mul | Div | Rem | Min | Max => {
                        if a == U || b == U {
                            return U;
                        }
                        let (x, y) = (a as i128, b as i128);
                        match self {
                            Add => wrap(x + y),
                            Sub => wrap(x - y),
                            Mul => wrap(x * y),
                            Div => {
                                if b == 0 {
                                    U
                                } else {
                                    wrap(x / y)
                                }
                            }
                            Rem => {
                                if b == 0 {
                                    U
                                } else {
                                    wrap(x % y)
                                }
                            }
                            Min => a.min(b),
                            _ => a.max(b),
                        }
                    }
                    _ => {
                        if a == U || b == U {
                            // undetermined, unless the other operand alone decides
                            // (identical operands may be simplified)
                            let d = if a == U { b } else { a };
                            return match self {
                                Not => U,
                                Eq | Lt | Gt | Le => K0,
                                _ if d == U => X,
                                And if d == 0 => K0,
                                Nand if d == 0 => K1,
                                Or if d == 1 => K1,
                                Nor if d == 1 => K0,
                                Imp if (a == U && b == 1) || (b == U && a == 0) => K1,
                                ZUnion | ZIntersect | ZSetdiff | Ne | Ge => X,
                                _ => U,
                            };
                        }
                        let r = match self {
                            Not => a == 0,
                            And => a == 1 && b == 1,
                            Or => a == 1 || b == 1,
                            Xor | BNe => a != b,
                            Imp => a == 0 || b == 1,
                            Nand => !(a == 1 && b == 1),
                            Nor => !(a == 1 || b == 1),
                            Xnor | BEq => a == b,
                            Eq => a == b,
                            Ne => a != b,
                            Lt => a < b,
                            Le => a <= b,
                            Gt => a > b,
                            Ge => a >= b,
                            ZUnion => a == 1 || b == 1,
                            ZIntersect => a == 1 && b == 1,
                            ZSetdiff => a == 1 && b == 0,
                            _ => unreachable!(),
                        };
                        r as i64
                    }
                }
            })
            .collect()
    }
}

// Families over binary elements: the table index is the subset's bit mask.
pub fn members(t: &[i64]) -> Vec<usize> {
    (0..t.len()).filter(|&i| t[i] == 1).collect()
}

fn product(f: &[i64], g: &[i64], space: &Space) -> Vec<i64> {
    let mut r = space.constant(0);
    let gs = members(g);
    for a in members(f) {
        for &b in &gs {
            r[a | b] = 1;
        }
    }
    r
}

/// Weak division: q with q ∪ s ∈ f and q ∩ s = ∅ for every s in g (g non-empty).
fn divide(f: &[i64], g: &[i64], space: &Space) -> Vec<i64> {
    let gs = members(g);
    if gs.is_empty() {
        return space.constant(X);
    }
    (0..space.len())
        .map(|q| gs.iter().all(|&s| q & s == 0 && f[q | s] == 1) as i64)
        .collect()
}

/// Names under which expressions save subexpressions: plain ones, ones that look like tokens of
/// the language, and groups that differ only in case, in a long common prefix, in leading zeros
/// or outside ASCII.
pub const SAVE_NAMES: [&str; 22] = [
    "a", "b", "c", "A", "B", "ab", "v0", "1", "01", "1.0", "x(y)", "x(y", "x)", "", "min", "&",
    "subsystem.cooling.pump.left", "subsystem.cooling.pump.right", "é", "è", "É", "load(a)",
];
