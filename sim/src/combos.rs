//! The instantiations of the library the simulator runs: object type,
//! wrapper, scalar, dimension and tree parameters.
use crate::exec::run_world;
use crate::item::*;
use crate::scenario::Scenario;
use rstar::primitives::*;
use rstar::DefaultParams;
use std::rc::Rc;
use std::sync::Arc;

pub struct Info {
    pub name: &'static str,
    pub d: usize,
    pub range: i16,
    pub int: bool,
    /// distances are not integers (checked with a tolerance)
    pub line: bool,
    pub max: usize,
    pub default: bool,
    pub costs: bool,
    pub own_env: bool,
    /// largest power-of-two coordinate scale
    pub exp: i8,
    /// largest translation (in grid units)
    pub far: i64,
}

macro_rules! combos {
    ($( $ty:ty, $pr:ty, $name:literal, $d:literal, $range:literal, $int:literal, $line:literal, $max:literal, $default:literal, $exp:literal; )*) => {
        pub const INFO: &[Info] = &[$(Info {
            name: $name, d: $d, range: $range, int: $int, line: $line, max: $max,
            default: $default, exp: $exp, far: <S<<$ty as Item>::P> as Sc>::FAR, costs: <$ty as Item>::COSTS, own_env: <$ty as Item>::OWN_ENV,
        }),*];
        pub const RUN: &[fn(&Scenario)] = &[$(run_world::<$ty, $pr>),*];
    }
}
#[allow(deprecated)]
type Pwd<P> = PointWithData<Meta, P>;
combos! {
    Obj<[f64; 2]>, DefaultParams, "Obj<[f64;2]>, default params", 2, 1000, false, false, 6, true, 20;
    Obj<[i32; 2]>, Pm<2, 4, 1>, "Obj<[i32;2]>, 2..4 reinsert 1", 2, 1000, true, false, 4, false, 0;
    GeomWithData<Rectangle<[f64; 2]>, Meta>, DefaultParams, "GeomWithData<Rectangle<[f64;2]>>, default params", 2, 1000, false, false, 6, true, 20;
    GeomWithData<[f32; 3], Meta>, Pm<1, 4, 2>, "GeomWithData<[f32;3]>, 1..4 reinsert 2", 3, 400, false, false, 4, false, 8;
    CachedEnvelope<Obj<[i64; 2]>>, Pm<4, 7, 2>, "CachedEnvelope<Obj<[i64;2]>>, 4..7 reinsert 2", 2, 1000, true, false, 7, false, 0;
    Arc<Obj<(f64, f64)>>, Pm<10, 20, 5>, "Arc<Obj<(f64,f64)>>, 10..20 reinsert 5", 2, 1000, false, false, 20, false, 20;
    Obj<[i32; 4]>, DefaultParams, "Obj<[i32;4]>, default params", 4, 30, true, false, 6, true, 0;
    Plain<::mint::Point2<f64>>, Pm<1, 10, 8>, "Plain<mint::Point2<f64>>, 1..10 reinsert 8", 2, 1000, false, false, 10, false, 20;
    Pwd<[i16; 2]>, Pm<2, 4, 0>, "PointWithData<[i16;2]>, 2..4 no reinsertion", 2, 15, true, false, 4, false, 0;
    Obj<[f64; 3]>, Pm<4, 8, 3>, "Obj<[f64;3]>, 4..8 reinsert 3", 3, 1000, false, false, 8, false, 20;
    Rc<Obj<::mint::Point3<f32>>>, Pm<2, 6, 3>, "Rc<Obj<mint::Point3<f32>>>, 2..6 reinsert 3", 3, 400, false, false, 6, false, 8;
    Obj<[i64; 2]>, Pm<20, 40, 12>, "Obj<[i64;2]>, 20..40 reinsert 12", 2, 1000, true, false, 40, false, 0;
    GeomWithData<CachedEnvelope<Obj<(i64, i64, i64, i64, i64, i64)>>, u32>, Pm<1, 4, 0>, "GeomWithData<CachedEnvelope<Obj<6-tuple of i64>>>, 1..4 no reinsertion", 6, 100, true, false, 4, false, 0;
    GeomWithData<Disc, Meta>, Pm<3, 5, 1>, "GeomWithData<Disc of f64>, 3..5 reinsert 1", 2, 1000, false, true, 5, false, 0;
    GeomWithData<CachedEnvelope<Line<[f64; 3]>>, Meta>, Pm<2, 8, 3>, "GeomWithData<CachedEnvelope<Line<[f64;3]>>>, 2..8 reinsert 3", 3, 1000, false, true, 8, false, 0;
    Own<Bx<Pos<f64>>>, Pm<2, 5, 2>, "Own<user-defined point of 3 f64>, in a user-defined envelope, 2..5 reinsert 2", 3, 1000, false, false, 5, false, 20;
    Own<Bx<[i32; 2]>>, DefaultParams, "Own<[i32;2]>, in a user-defined envelope, default params", 2, 1000, true, false, 6, true, 0;
    Obj<(isize, isize, isize, isize, isize, isize, isize, isize, isize, isize)>, Pm<3, 6, 1>, "Obj<10-tuple of isize>, 3..6 reinsert 1", 10, 30, true, false, 6, false, 0;
    Obj<[f32; 5]>, Pm<1, 5, 3>, "Obj<[f32;5]>, 1..5 reinsert 3", 5, 100, false, false, 5, false, 8;
    GeomWithData<[i8; 2], Meta>, DefaultParams, "GeomWithData<[i8;2]>, default params", 2, 3, true, false, 6, true, 0;
    GeomWithData<Line<[i32; 2]>, Meta>, Pm<1, 6, 4>, "GeomWithData<Line<[i32;2]>>, 1..6 reinsert 4", 2, 1000, true, false, 6, false, 0;
    GeomWithData<Line<[f64; 2]>, Meta>, DefaultParams, "GeomWithData<Line<[f64;2]>>, default params", 2, 1000, false, true, 6, true, 0;
}
