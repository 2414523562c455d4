//! Stands in for the `robust` crate in the symbolic build: the predicates become exact symbolic
//! determinants, which is the documented contract of `robust` (the sign is exact).
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Coord<T: Into<f64>> {
    pub x: T,
    pub y: T,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Coord3D<T: Into<f64>> {
    pub x: T,
    pub y: T,
    pub z: T,
}
extern "C" {
    fn __sym_orient2d(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64) -> f64;
    fn __sym_incircle(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64, dx: f64, dy: f64) -> f64;
}
pub fn orient2d<T: Into<f64>>(a: Coord<T>, b: Coord<T>, c: Coord<T>) -> f64 {
    unsafe { __sym_orient2d(a.x.into(), a.y.into(), b.x.into(), b.y.into(), c.x.into(), c.y.into()) }
}
pub fn incircle<T: Into<f64>>(a: Coord<T>, b: Coord<T>, c: Coord<T>, d: Coord<T>) -> f64 {
    unsafe {
        __sym_incircle(
            a.x.into(), a.y.into(), b.x.into(), b.y.into(), c.x.into(), c.y.into(), d.x.into(), d.y.into(),
        )
    }
}
pub fn orient3d<T: Into<f64>>(_: Coord3D<T>, _: Coord3D<T>, _: Coord3D<T>, _: Coord3D<T>) -> f64 {
    panic!("orient3d is not modelled")
}
pub fn insphere<T: Into<f64>>(_: Coord3D<T>, _: Coord3D<T>, _: Coord3D<T>, _: Coord3D<T>, _: Coord3D<T>) -> f64 {
    panic!("insphere is not modelled")
}
