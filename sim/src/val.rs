//! Values of real parses, observed as data.
use crate::ctx;
use crate::sexp::*;
use crate::stream::SimStream;
use oak_runtime::Span;
use std::ops::Range;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit, Ch(char), List(Vec<Val>), Opt(Option<Box<Val>>), Tup(Vec<Val>),
    Tok(u32, Arc<Vec<Val>>),
    /// Absolute positions of a span.
    Span(u32, u32),
    /// Byte positions of a range of streams.
    Range(usize, usize),
}

impl Val {
    /// The value with every span and range blanked.
    pub fn strip(&self) -> Val {
        match self {
            Val::List(v) => Val::List(v.iter().map(|x| x.strip()).collect()),
            Val::Tup(v) => Val::Tup(v.iter().map(|x| x.strip()).collect()),
            Val::Opt(o) => Val::Opt(o.as_ref().map(|x| Box::new(x.strip()))),
            Val::Tok(i, v) => Val::Tok(*i, Arc::new(v.iter().map(|x| x.strip()).collect())),
            Val::Span(..) => Val::Span(0, 0),
            Val::Range(..) => Val::Range(0, 0),
            x => x.clone(),
        }
    }
    pub fn count_spans(&self) -> usize {
        match self {
            Val::List(v) | Val::Tup(v) => v.iter().map(|x| x.count_spans()).sum(),
            Val::Opt(o) => o.as_ref().map_or(0, |x| x.count_spans()),
            Val::Tok(_, v) => v.iter().map(|x| x.count_spans()).sum(),
            Val::Span(..) | Val::Range(..) => 1,
            _ => 0,
        }
    }
    pub fn sx(&self) -> S {
        match self {
            Val::Unit => a("unit"), Val::Ch(c) => t("ch", vec![S::A(c.to_string())]),
            Val::List(v) => t("list", v.iter().map(|x| x.sx()).collect()), Val::Tup(v) => t("tup", v.iter().map(|x| x.sx()).collect()),
            Val::Opt(None) => a("none"), Val::Opt(Some(x)) => t("some", vec![x.sx()]),
            Val::Tok(i, v) => { let mut w = vec![a(i)]; w.extend(v.iter().map(|x| x.sx())); t("tok", w) }
            Val::Span(x, y) => t("span", vec![a(x), a(y)]), Val::Range(x, y) => t("range", vec![a(x), a(y)]),
        }
    }
}

/// Components to one value, as the success expression of a rule does.
pub fn tuple_val(mut v: Vec<Val>) -> Val { match v.len() { 0 => Val::Unit, 1 => v.pop().unwrap(), _ => Val::Tup(v) } }

/// The result of every semantic action.
#[derive(Debug)]
pub struct Tok { pub id: u32, pub args: Option<Arc<Vec<Val>>>, counted: bool }
impl Tok {
    pub const fn konst(id: u32) -> Tok { Tok { id, args: None, counted: false } }
    pub fn made(id: u32, args: Arc<Vec<Val>>) -> Tok { ctx::LIVE_TOK.with(|c| c.set(c.get() + 1)); Tok { id, args: Some(args), counted: true } }
}
impl Drop for Tok { fn drop(&mut self) { if self.counted { ctx::LIVE_TOK.with(|c| c.set(c.get() - 1)); } } }

pub trait ToVal { fn to_val(&self) -> Val; }
impl ToVal for () { fn to_val(&self) -> Val { Val::Unit } }
impl ToVal for char { fn to_val(&self) -> Val { Val::Ch(*self) } }
impl ToVal for Tok { fn to_val(&self) -> Val { Val::Tok(self.id, self.args.clone().unwrap_or_default()) } }
impl ToVal for Span { fn to_val(&self) -> Val { Val::Span(self.lo.0, self.hi.0) } }
impl ToVal for Range<SimStream> { fn to_val(&self) -> Val { Val::Range(self.start.real_pos(), self.end.real_pos()) } }
impl<T: ToVal> ToVal for Box<T> { fn to_val(&self) -> Val { (**self).to_val() } }
impl<T: ToVal> ToVal for Vec<T> { fn to_val(&self) -> Val { Val::List(self.iter().map(|x| x.to_val()).collect()) } }
impl<T: ToVal> ToVal for Option<T> { fn to_val(&self) -> Val { Val::Opt(self.as_ref().map(|x| Box::new(x.to_val()))) } }
macro_rules! tup { ($($n:ident $i:tt),*) => { impl<$($n: ToVal),*> ToVal for ($($n,)*) { fn to_val(&self) -> Val { Val::Tup(vec![$(self.$i.to_val()),*]) } } } }
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31, T32 32);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31, T32 32, T33 33);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31, T32 32, T33 33, T34 34);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31, T32 32, T33 33, T34 34, T35 35);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31, T32 32, T33 33, T34 34, T35 35, T36 36);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31, T32 32, T33 33, T34 34, T35 35, T36 36, T37 37);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31, T32 32, T33 33, T34 34, T35 35, T36 36, T37 37, T38 38);
tup!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31, T32 32, T33 33, T34 34, T35 35, T36 36, T37 37, T38 38, T39 39);
