//! Two-dimensional row-major arrays: the part of ndarray's API that image code uses, with its semantics
//! (bounds and shape mismatches panic).
use std::marker::PhantomData;
use std::ops::{Add, Index, IndexMut, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo};

#[derive(Clone, Debug, PartialEq)]
pub struct Array2<T> {
    data: Vec<T>,
    dim: (usize, usize),
}
#[derive(Debug)]
pub struct ArrayView2<'a, T> {
    data: &'a [T],
    off: usize,
    dim: (usize, usize),
    stride: usize,
}
impl<T> Clone for ArrayView2<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for ArrayView2<'_, T> {}
#[derive(Debug)]
pub struct ArrayViewMut2<'a, T> {
    data: &'a mut [T],
    off: usize,
    dim: (usize, usize),
    stride: usize,
}
#[derive(Debug)]
pub struct ShapeError;
impl std::fmt::Display for ShapeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "ShapeError: incompatible shape")
    }
}
impl std::error::Error for ShapeError {}

/// One axis of a slice: start, end (negative: from the back), `None` end: to the end.
#[derive(Clone, Copy, Debug)]
pub struct Slice {
    start: isize,
    end: Option<isize>,
}
macro_rules! slice_from {
    ($($t:ty)*) => {$(
        impl From<Range<$t>> for Slice { fn from(r: Range<$t>) -> Slice { Slice { start: r.start as isize, end: Some(r.end as isize) } } }
        impl From<RangeInclusive<$t>> for Slice { fn from(r: RangeInclusive<$t>) -> Slice { let e = *r.end() as isize; Slice { start: *r.start() as isize, end: if e == -1 { None } else { Some(e + 1) } } } }
        impl From<RangeFrom<$t>> for Slice { fn from(r: RangeFrom<$t>) -> Slice { Slice { start: r.start as isize, end: None } } }
        impl From<RangeTo<$t>> for Slice { fn from(r: RangeTo<$t>) -> Slice { Slice { start: 0, end: Some(r.end as isize) } } }
    )*};
}
slice_from!(usize isize i32);
impl From<RangeFull> for Slice {
    fn from(_: RangeFull) -> Slice {
        Slice { start: 0, end: None }
    }
}
impl Slice {
    fn resolve(self, n: usize) -> (usize, usize) {
        let fix = |i: isize| if i < 0 { i + n as isize } else { i };
        let s = fix(self.start);
        let e = self.end.map(fix).unwrap_or(n as isize);
        let e = if e < s { s } else { e };
        assert!(s >= 0 && s <= n as isize, "slice begin {s} is past end of axis of length {n}");
        assert!(e <= n as isize, "slice end {e} is past end of axis of length {n}");
        (s as usize, (e - s) as usize)
    }
}
#[macro_export]
macro_rules! s {
    ($a:expr, $b:expr $(,)?) => {
        ($crate::Slice::from($a), $crate::Slice::from($b))
    };
}

impl<T> Array2<T> {
    pub fn from_shape_vec(dim: (usize, usize), data: Vec<T>) -> Result<Self, ShapeError> {
        if data.len() != dim.0 * dim.1 {
            return Err(ShapeError);
        }
        Ok(Array2 { data, dim })
    }
    pub fn from_shape_fn(dim: (usize, usize), mut f: impl FnMut((usize, usize)) -> T) -> Self {
        let data = (0..dim.0).flat_map(|i| (0..dim.1).map(move |j| (i, j))).map(&mut f).collect();
        Array2 { data, dim }
    }
    pub fn zeros(dim: (usize, usize)) -> Self
    where
        T: Default + Clone,
    {
        Self::from_elem(dim, T::default())
    }
    pub fn ones(dim: (usize, usize)) -> Self
    where
        T: From<u8> + Clone,
    {
        Self::from_elem(dim, T::from(1u8))
    }
    pub fn from_elem(dim: (usize, usize), v: T) -> Self
    where
        T: Clone,
    {
        Array2 { data: vec![v; dim.0 * dim.1], dim }
    }
    pub fn into_raw_vec(self) -> Vec<T> {
        self.data
    }
    pub fn view(&self) -> ArrayView2<'_, T> {
        ArrayView2 { data: &self.data, off: 0, dim: self.dim, stride: self.dim.1 }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        ArrayViewMut2 { off: 0, dim: self.dim, stride: self.dim.1, data: &mut self.data }
    }
    pub fn as_slice(&self) -> Option<&[T]> {
        Some(&self.data)
    }
    pub fn as_slice_mut(&mut self) -> Option<&mut [T]> {
        Some(&mut self.data)
    }
    pub fn map<U>(&self, f: impl FnMut(&T) -> U) -> Array2<U> {
        Array2 { data: self.data.iter().map(f).collect(), dim: self.dim }
    }
    pub fn mapv<U>(&self, mut f: impl FnMut(T) -> U) -> Array2<U>
    where
        T: Clone,
    {
        self.map(|x| f(x.clone()))
    }
    pub fn mapv_into(mut self, mut f: impl FnMut(T) -> T) -> Self
    where
        T: Clone,
    {
        self.mapv_inplace(&mut f);
        self
    }
}
impl<'a, T> ArrayView2<'a, T> {
    pub fn from_shape(dim: (usize, usize), data: &'a [T]) -> Result<Self, ShapeError> {
        if data.len() < dim.0 * dim.1 {
            return Err(ShapeError);
        }
        Ok(ArrayView2 { data, off: 0, dim, stride: dim.1 })
    }
    fn at(&self, i: usize, j: usize) -> &'a T {
        &self.data[self.off + i * self.stride + j]
    }
    fn sub(&self, (a, b): (Slice, Slice)) -> ArrayView2<'a, T> {
        let (i, h) = a.resolve(self.dim.0);
        let (j, w) = b.resolve(self.dim.1);
        ArrayView2 { data: self.data, off: self.off + i * self.stride + j, dim: (h, w), stride: self.stride }
    }
    pub fn to_vec_(self) -> Vec<&'a T> {
        (0..self.dim.0).flat_map(|i| (0..self.dim.1).map(move |j| (i, j))).map(|(i, j)| self.at(i, j)).collect()
    }
}
impl<'a, T> ArrayViewMut2<'a, T> {
    pub fn from_shape(dim: (usize, usize), data: &'a mut [T]) -> Result<Self, ShapeError> {
        if data.len() < dim.0 * dim.1 {
            return Err(ShapeError);
        }
        Ok(ArrayViewMut2 { data, off: 0, dim, stride: dim.1 })
    }
    pub fn view(&self) -> ArrayView2<'_, T> {
        ArrayView2 { data: self.data, off: self.off, dim: self.dim, stride: self.stride }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        ArrayViewMut2 { data: self.data, off: self.off, dim: self.dim, stride: self.stride }
    }
    fn into_vec_(self) -> Vec<&'a mut T> {
        let (h, w) = self.dim;
        let mut out = Vec::with_capacity(h * w);
        if h * w == 0 {
            return out;
        }
        let n = (h - 1) * self.stride + w;
        for (r, row) in self.data[self.off..self.off + n].chunks_mut(self.stride.max(1)).enumerate() {
            assert!(r < h);
            out.extend(row[..w].iter_mut());
        }
        out
    }
}
macro_rules! read_api {
    ($($ty:ty),*) => {$(
        impl<T> $ty {
            pub fn dim(&self) -> (usize, usize) { self.dim }
            pub fn raw_dim(&self) -> (usize, usize) { self.dim }
            pub fn shape(&self) -> [usize; 2] { [self.dim.0, self.dim.1] }
            pub fn nrows(&self) -> usize { self.dim.0 }
            pub fn ncols(&self) -> usize { self.dim.1 }
            pub fn len(&self) -> usize { self.dim.0 * self.dim.1 }
            pub fn is_empty(&self) -> bool { self.len() == 0 }
            pub fn get(&self, (i, j): (usize, usize)) -> Option<&T> {
                if i < self.dim.0 && j < self.dim.1 { Some(&self[(i, j)]) } else { None }
            }
            pub fn slice(&self, s: (Slice, Slice)) -> ArrayView2<'_, T> { self.view_().sub(s) }
            pub fn exact_chunks(&self, c: (usize, usize)) -> ExactChunks<'_, T> { ExactChunks::new(self.view_(), c) }
            pub fn windows(&self, c: (usize, usize)) -> Windows<'_, T> { Windows { v: self.view_(), c } }
            pub fn iter(&self) -> std::vec::IntoIter<&T> { self.view_().to_vec_().into_iter() }
            pub fn indexed_iter(&self) -> impl Iterator<Item = ((usize, usize), &T)> + '_ {
                let w = self.dim.1;
                self.iter().enumerate().map(move |(i, v)| ((i / w, i % w), v))
            }
            pub fn to_owned(&self) -> Array2<T> where T: Clone {
                Array2 { data: self.iter().cloned().collect(), dim: self.dim }
            }
            pub fn sum(&self) -> T where T: Clone + Add<Output = T> + Default {
                // like ndarray: the sum of the sums of the rows
                (0..self.dim.0).fold(T::default(), |a, i| a + (0..self.dim.1).fold(T::default(), |b, j| b + self[(i, j)].clone()))
            }
            pub fn fold<B>(&self, init: B, f: impl FnMut(B, &T) -> B) -> B { self.iter().fold(init, f) }
            pub fn row(&self, i: usize) -> Vec<&T> { assert!(i < self.dim.0); (0..self.dim.1).map(|j| &self[(i, j)]).collect() }
        }
    )*};
}
read_api!(Array2<T>, ArrayView2<'_, T>, ArrayViewMut2<'_, T>);
impl<T> Array2<T> {
    fn view_(&self) -> ArrayView2<'_, T> {
        self.view()
    }
    fn view_mut_(&mut self) -> ArrayViewMut2<'_, T> {
        self.view_mut()
    }
}
impl<'a, T> ArrayView2<'a, T> {
    fn view_(&self) -> ArrayView2<'a, T> {
        *self
    }
    pub fn view(&self) -> ArrayView2<'a, T> {
        *self
    }
    pub fn reborrow(self) -> ArrayView2<'a, T> {
        self
    }
}
impl<T> ArrayViewMut2<'_, T> {
    fn view_(&self) -> ArrayView2<'_, T> {
        self.view()
    }
    fn view_mut_(&mut self) -> ArrayViewMut2<'_, T> {
        self.view_mut()
    }
}
macro_rules! write_api {
    ($($ty:ty),*) => {$(
        impl<T> $ty {
            pub fn slice_mut(&mut self, (a, b): (Slice, Slice)) -> ArrayViewMut2<'_, T> {
                let (i, h) = a.resolve(self.dim.0);
                let (j, w) = b.resolve(self.dim.1);
                let v = self.view_mut_();
                ArrayViewMut2 { off: v.off + i * v.stride + j, dim: (h, w), stride: v.stride, data: v.data }
            }
            pub fn iter_mut(&mut self) -> std::vec::IntoIter<&mut T> { self.view_mut_().into_vec_().into_iter() }
            pub fn zip_mut_with<'b, R: ZipArg<Item = &'b U>, U: 'b>(&mut self, rhs: R, mut f: impl FnMut(&mut T, &U)) {
                assert_eq!(self.dim, rhs.zip_dim(), "ndarray: could not broadcast array");
                for (a, b) in self.iter_mut().zip(rhs.zip_iter()) { f(a, b) }
            }
            pub fn fill(&mut self, v: T) where T: Clone { for x in self.iter_mut() { *x = v.clone() } }
            pub fn assign<'b, R: ZipArg<Item = &'b T>>(&mut self, rhs: R) where T: Clone + 'b { self.zip_mut_with(rhs, |a, b| *a = b.clone()) }
            pub fn mapv_inplace(&mut self, mut f: impl FnMut(T) -> T) where T: Clone { for x in self.iter_mut() { *x = f(x.clone()) } }
            pub fn map_inplace(&mut self, mut f: impl FnMut(&mut T)) { for x in self.iter_mut() { f(x) } }
            pub fn get_mut(&mut self, (i, j): (usize, usize)) -> Option<&mut T> {
                if i < self.dim.0 && j < self.dim.1 { Some(&mut self[(i, j)]) } else { None }
            }
        }
        impl<T> IndexMut<(usize, usize)> for $ty {
            fn index_mut(&mut self, (i, j): (usize, usize)) -> &mut T {
                assert!(i < self.dim.0 && j < self.dim.1, "ndarray: index out of bounds");
                let v = self.view_mut_();
                &mut v.data[v.off + i * v.stride + j]
            }
        }
        impl<T> IndexMut<[usize; 2]> for $ty {
            fn index_mut(&mut self, [i, j]: [usize; 2]) -> &mut T { &mut self[(i, j)] }
        }
    )*};
}
write_api!(Array2<T>, ArrayViewMut2<'_, T>);
macro_rules! index_api {
    ($($ty:ty),*) => {$(
        impl<T> Index<(usize, usize)> for $ty {
            type Output = T;
            fn index(&self, (i, j): (usize, usize)) -> &T {
                assert!(i < self.dim.0 && j < self.dim.1, "ndarray: index out of bounds");
                self.view_().at(i, j)
            }
        }
        impl<T> Index<[usize; 2]> for $ty {
            type Output = T;
            fn index(&self, [i, j]: [usize; 2]) -> &T { &self[(i, j)] }
        }
    )*};
}
index_api!(Array2<T>, ArrayView2<'_, T>, ArrayViewMut2<'_, T>);

pub struct ExactChunks<'a, T> {
    v: ArrayView2<'a, T>,
    c: (usize, usize),
}
impl<'a, T> ExactChunks<'a, T> {
    fn new(v: ArrayView2<'a, T>, c: (usize, usize)) -> Self {
        assert!(c.0 > 0 && c.1 > 0);
        ExactChunks { v, c }
    }
}
pub struct Windows<'a, T> {
    v: ArrayView2<'a, T>,
    c: (usize, usize),
}

/// What `azip!` accepts.
pub trait ZipArg {
    type Item;
    type It: Iterator<Item = Self::Item>;
    fn zip_dim(&self) -> (usize, usize);
    fn zip_iter(self) -> Self::It;
}
macro_rules! zip_arg {
    ($([$($g:tt)*] $t:ty, $item:ty, |$x:ident| $dim:expr, $it:expr;)*) => {$(
        impl<$($g)*> ZipArg for $t {
            type Item = $item;
            type It = std::vec::IntoIter<$item>;
            fn zip_dim(&self) -> (usize, usize) { let $x = self; $dim }
            fn zip_iter(self) -> Self::It { let $x = self; $it }
        }
    )*};
}
zip_arg! {
    ['a, T] &'a Array2<T>, &'a T, |x| x.dim, x.view().to_vec_().into_iter();
    ['a, T] &'a mut Array2<T>, &'a mut T, |x| x.dim, x.view_mut().into_vec_().into_iter();
    ['a, T] ArrayView2<'a, T>, &'a T, |x| x.dim, x.to_vec_().into_iter();
    ['a, 'b, T] &'b ArrayView2<'a, T>, &'a T, |x| x.dim, x.to_vec_().into_iter();
    ['a, 'b, T] &'b ArrayViewMut2<'a, T>, &'b T, |x| x.dim, x.view().to_vec_().into_iter();
    ['a, T] ArrayViewMut2<'a, T>, &'a mut T, |x| x.dim, x.into_vec_().into_iter();
    ['a, 'b, T] &'b mut ArrayViewMut2<'a, T>, &'b mut T, |x| x.dim, x.view_mut().into_vec_().into_iter();
}
impl<'a, T> ZipArg for ExactChunks<'a, T> {
    type Item = ArrayView2<'a, T>;
    type It = std::vec::IntoIter<ArrayView2<'a, T>>;
    fn zip_dim(&self) -> (usize, usize) {
        (self.v.dim.0 / self.c.0, self.v.dim.1 / self.c.1)
    }
    fn zip_iter(self) -> Self::It {
        let (h, w) = self.zip_dim();
        let c = self.c;
        let v = self.v;
        (0..h)
            .flat_map(|i| (0..w).map(move |j| (i, j)))
            .map(|(i, j)| v.sub((Slice::from(i * c.0..(i + 1) * c.0), Slice::from(j * c.1..(j + 1) * c.1))))
            .collect::<Vec<_>>()
            .into_iter()
    }
}
impl<'a, T> ZipArg for Windows<'a, T> {
    type Item = ArrayView2<'a, T>;
    type It = std::vec::IntoIter<ArrayView2<'a, T>>;
    fn zip_dim(&self) -> (usize, usize) {
        ((self.v.dim.0 + 1).saturating_sub(self.c.0), (self.v.dim.1 + 1).saturating_sub(self.c.1))
    }
    fn zip_iter(self) -> Self::It {
        let (h, w) = self.zip_dim();
        let c = self.c;
        let v = self.v;
        (0..h)
            .flat_map(|i| (0..w).map(move |j| (i, j)))
            .map(|(i, j)| v.sub((Slice::from(i..i + c.0), Slice::from(j..j + c.1))))
            .collect::<Vec<_>>()
            .into_iter()
    }
}
impl<'a, T> IntoIterator for ExactChunks<'a, T> {
    type Item = ArrayView2<'a, T>;
    type IntoIter = std::vec::IntoIter<ArrayView2<'a, T>>;
    fn into_iter(self) -> Self::IntoIter {
        self.zip_iter()
    }
}
/// All operands of an `azip!` must have one shape.
pub struct ShapeGuard(Option<(usize, usize)>, PhantomData<()>);
impl ShapeGuard {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        ShapeGuard(None, PhantomData)
    }
    pub fn take<Z: ZipArg>(&mut self, z: Z) -> Z::It {
        let d = z.zip_dim();
        assert!(self.0.is_none_or(|e| e == d), "ndarray: assertion `part.equal_dim(dimension)` failed");
        self.0 = Some(d);
        z.zip_iter()
    }
}
#[macro_export]
macro_rules! azip {
    (( index $i:pat, $($rest:tt)* ) $body:expr) => { compile_error!("azip! index form is not in this stand-in") };
    (( $($p:pat in $e:expr),+ $(,)? ) $body:expr) => {{
        let mut guard = $crate::ShapeGuard::new();
        for $crate::__zpat!($($p,)+) in $crate::__zexpr!(guard; $($e,)+) { $body }
    }};
}
#[macro_export]
macro_rules! __zpat {
    ($p:pat,) => { ($p, ()) };
    ($p:pat, $($q:pat,)+) => { ($p, $crate::__zpat!($($q,)+)) };
}
#[macro_export]
macro_rules! __zexpr {
    ($g:ident; $e:expr,) => { $g.take($e).zip(std::iter::repeat(())) };
    ($g:ident; $e:expr, $($f:expr,)+) => { $g.take($e).zip($crate::__zexpr!($g; $($f,)+)) };
}
pub struct Zip<A>(A);
impl<A: ZipArg> Zip<A> {
    pub fn from(a: A) -> Self {
        Zip(a)
    }
    pub fn and<B: ZipArg>(self, b: B) -> Zip<(A, B)> {
        assert_eq!(self.0.zip_dim(), b.zip_dim());
        Zip((self.0, b))
    }
    pub fn for_each(self, f: impl FnMut(A::Item)) {
        self.0.zip_iter().for_each(f)
    }
}
impl<A: ZipArg, B: ZipArg> Zip<(A, B)> {
    pub fn and<C: ZipArg>(self, c: C) -> Zip<(A, B, C)> {
        assert_eq!(self.0 .0.zip_dim(), c.zip_dim());
        Zip((self.0 .0, self.0 .1, c))
    }
    pub fn for_each(self, mut f: impl FnMut(A::Item, B::Item)) {
        self.0 .0.zip_iter().zip(self.0 .1.zip_iter()).for_each(|(a, b)| f(a, b))
    }
}
impl<A: ZipArg, B: ZipArg, C: ZipArg> Zip<(A, B, C)> {
    pub fn for_each(self, mut f: impl FnMut(A::Item, B::Item, C::Item)) {
        let it = self.0 .0.zip_iter().zip(self.0 .1.zip_iter()).zip(self.0 .2.zip_iter());
        it.for_each(|((a, b), c)| f(a, b, c))
    }
}
impl<'a, T> IntoIterator for &'a Array2<T> {
    type Item = &'a T;
    type IntoIter = std::vec::IntoIter<&'a T>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
