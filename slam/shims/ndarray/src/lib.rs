//! Stand-in for `ndarray` 0.15: two-dimensional arrays, views, slices, exact chunks and `azip!`.
use std::marker::PhantomData;
use std::ops::{AddAssign, Index, IndexMut, Range, RangeFrom, RangeFull, RangeTo};

#[derive(Clone, Debug, PartialEq)]
pub struct Array2<T> {
    data: Vec<T>,
    rows: usize,
    cols: usize,
}
#[derive(Debug)]
pub struct ArrayView2<'a, T> {
    p: *const T,
    rows: usize,
    cols: usize,
    stride: usize,
    _a: PhantomData<&'a T>,
}
#[derive(Debug)]
pub struct ArrayViewMut2<'a, T> {
    p: *mut T,
    rows: usize,
    cols: usize,
    stride: usize,
    _a: PhantomData<&'a mut T>,
}
unsafe impl<T: Sync> Send for ArrayView2<'_, T> {}
unsafe impl<T: Sync> Sync for ArrayView2<'_, T> {}
unsafe impl<T: Send> Send for ArrayViewMut2<'_, T> {}
impl<T> Clone for ArrayView2<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for ArrayView2<'_, T> {}

/// One axis of a slice: start and optional end, both counted from the end when negative.
#[derive(Clone, Copy, Debug)]
pub struct Axis1 {
    start: isize,
    end: Option<isize>,
}
macro_rules! axis_from {
    ($($t:ty),*) => {$(
        impl From<Range<$t>> for Axis1 {
            fn from(r: Range<$t>) -> Self {
                Axis1 { start: r.start as isize, end: Some(r.end as isize) }
            }
        }
        impl From<RangeFrom<$t>> for Axis1 {
            fn from(r: RangeFrom<$t>) -> Self {
                Axis1 { start: r.start as isize, end: None }
            }
        }
        impl From<RangeTo<$t>> for Axis1 {
            fn from(r: RangeTo<$t>) -> Self {
                Axis1 { start: 0, end: Some(r.end as isize) }
            }
        }
    )*};
}
axis_from!(usize, isize, i32);
impl From<RangeFull> for Axis1 {
    fn from(_: RangeFull) -> Self {
        Axis1 { start: 0, end: None }
    }
}
impl Axis1 {
    fn resolve(self, n: usize) -> (usize, usize) {
        let abs = |v: isize| if v < 0 { v + n as isize } else { v };
        let start = abs(self.start);
        let mut end = abs(self.end.unwrap_or(n as isize));
        if end < start {
            end = start;
        }
        assert!(start >= 0 && end as usize <= n, "slice out of bounds");
        (start as usize, end as usize)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Slice2(pub Axis1, pub Axis1);

#[macro_export]
macro_rules! s {
    ($a:expr, $b:expr $(,)?) => {
        $crate::Slice2($crate::Axis1::from($a), $crate::Axis1::from($b))
    };
}

impl<'a, T> ArrayView2<'a, T> {
    /// # Safety
    /// `p` must point at `rows` rows of `cols` elements, `stride` apart.
    pub unsafe fn raw(p: *const T, rows: usize, cols: usize, stride: usize) -> Self {
        Self { p, rows, cols, stride, _a: PhantomData }
    }
    pub fn from_shape((rows, cols): (usize, usize), data: &'a [T]) -> Result<Self, ShapeError> {
        if data.len() != rows * cols {
            return Err(ShapeError);
        }
        Ok(Self { p: data.as_ptr(), rows, cols, stride: cols, _a: PhantomData })
    }
    fn sub(self, s: Slice2) -> ArrayView2<'a, T> {
        let (r0, r1) = s.0.resolve(self.rows);
        let (c0, c1) = s.1.resolve(self.cols);
        ArrayView2 {
            p: self.p.wrapping_add(r0 * self.stride + c0),
            rows: r1 - r0,
            cols: c1 - c0,
            stride: self.stride,
            _a: PhantomData,
        }
    }
    fn get_ref(self, r: usize, c: usize) -> &'a T {
        assert!(r < self.rows && c < self.cols, "index out of bounds");
        unsafe { &*self.p.add(r * self.stride + c) }
    }
    fn elements(self) -> Elements<'a, T> {
        Elements { w: Walk::new(self.p, self.rows, self.cols, self.stride), _a: PhantomData }
    }
}
impl<'a, T> ArrayViewMut2<'a, T> {
    /// # Safety
    /// `p` must point at `rows` rows of `cols` elements, `stride` apart.
    pub unsafe fn raw(p: *mut T, rows: usize, cols: usize, stride: usize) -> Self {
        Self { p, rows, cols, stride, _a: PhantomData }
    }
    pub fn from_shape((rows, cols): (usize, usize), data: &'a mut [T]) -> Result<Self, ShapeError> {
        if data.len() != rows * cols {
            return Err(ShapeError);
        }
        Ok(Self { p: data.as_mut_ptr(), rows, cols, stride: cols, _a: PhantomData })
    }
}

#[derive(Debug, Clone)]
pub struct ShapeError;
impl std::fmt::Display for ShapeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("shape error")
    }
}
impl std::error::Error for ShapeError {}

/// Row by row, left to right.
struct Walk<T> {
    at: *const T,
    row: *const T,
    left: usize,
    rows: usize,
    cols: usize,
    stride: usize,
}
impl<T> Walk<T> {
    fn new(p: *const T, rows: usize, cols: usize, stride: usize) -> Self {
        let rows = if cols == 0 { 0 } else { rows };
        let left = if rows == 0 { 0 } else { cols };
        Walk { at: p, row: p, left, rows, cols, stride }
    }
    #[inline(always)]
    fn step(&mut self) -> Option<*const T> {
        if self.left == 0 {
            if self.rows <= 1 {
                return None;
            }
            self.rows -= 1;
            self.row = self.row.wrapping_add(self.stride);
            self.at = self.row;
            self.left = self.cols;
        }
        let p = self.at;
        self.at = p.wrapping_add(1);
        self.left -= 1;
        Some(p)
    }
}
pub struct Elements<'a, T> {
    w: Walk<T>,
    _a: PhantomData<&'a T>,
}
impl<'a, T> Iterator for Elements<'a, T> {
    type Item = &'a T;
    #[inline(always)]
    fn next(&mut self) -> Option<&'a T> {
        self.w.step().map(|p| unsafe { &*p })
    }
}
pub struct ElementsMut<'a, T> {
    w: Walk<T>,
    _a: PhantomData<&'a mut T>,
}
impl<'a, T> ElementsMut<'a, T> {
    fn new(v: ArrayViewMut2<'a, T>) -> Self {
        ElementsMut { w: Walk::new(v.p, v.rows, v.cols, v.stride), _a: PhantomData }
    }
}
impl<'a, T> Iterator for ElementsMut<'a, T> {
    type Item = &'a mut T;
    #[inline(always)]
    fn next(&mut self) -> Option<&'a mut T> {
        self.w.step().map(|p| unsafe { &mut *(p as *mut T) })
    }
}

/// Non-overlapping chunks of one shape; what does not fit is left out.
pub struct ExactChunks<'a, T> {
    v: ArrayView2<'a, T>,
    shape: (usize, usize),
}
pub struct Chunks<'a, T> {
    c: ExactChunks<'a, T>,
    i: usize,
}
impl<'a, T> Iterator for Chunks<'a, T> {
    type Item = ArrayView2<'a, T>;
    fn next(&mut self) -> Option<Self::Item> {
        let (ch, cw) = self.c.shape;
        let (nr, nc) = (self.c.v.rows / ch, self.c.v.cols / cw);
        if self.i >= nr * nc {
            return None;
        }
        let (r, c) = (self.i / nc, self.i % nc);
        self.i += 1;
        Some(self.c.v.sub(Slice2(
            (r * ch..(r + 1) * ch).into(),
            (c * cw..(c + 1) * cw).into(),
        )))
    }
}

macro_rules! read_methods {
    ([$($g:tt)*] $t:ty, $e:ty) => {
        impl<$($g)*> $t {
            pub fn dim(&self) -> (usize, usize) {
                (self.rows, self.cols)
            }
            pub fn shape(&self) -> [usize; 2] {
                [self.rows, self.cols]
            }
            pub fn nrows(&self) -> usize {
                self.rows
            }
            pub fn ncols(&self) -> usize {
                self.cols
            }
            pub fn len(&self) -> usize {
                self.rows * self.cols
            }
            pub fn is_empty(&self) -> bool {
                self.len() == 0
            }
            pub fn slice(&self, s: Slice2) -> ArrayView2<'_, $e> {
                self.view().sub(s)
            }
            pub fn get(&self, i: impl Ix2) -> Option<&$e> {
                let (r, c) = i.pair();
                (r < self.rows && c < self.cols).then(|| self.view().get_ref(r, c))
            }
            pub fn iter(&self) -> Elements<'_, $e> {
                self.view().elements()
            }
            pub fn indexed_iter(&self) -> impl Iterator<Item = ((usize, usize), &$e)> {
                let n = self.cols.max(1);
                self.iter().enumerate().map(move |(i, v)| ((i / n, i % n), v))
            }
            pub fn exact_chunks(&self, shape: impl Ix2) -> ExactChunks<'_, $e> {
                ExactChunks { v: self.view(), shape: shape.pair() }
            }
            pub fn to_owned(&self) -> Array2<$e>
            where
                $e: Clone,
            {
                Array2 { data: self.iter().cloned().collect(), rows: self.rows, cols: self.cols }
            }
            pub fn map<U>(&self, f: impl FnMut(&$e) -> U) -> Array2<U> {
                Array2 { data: self.iter().map(f).collect(), rows: self.rows, cols: self.cols }
            }
            pub fn mapv<U>(&self, mut f: impl FnMut($e) -> U) -> Array2<U>
            where
                $e: Clone,
            {
                self.map(|v| f(v.clone()))
            }
            pub fn fold<A>(&self, init: A, f: impl FnMut(A, &$e) -> A) -> A {
                self.iter().fold(init, f)
            }
            /// Row by row, as the real one adds up an array that is not contiguous.
            pub fn sum(&self) -> $e
            where
                $e: Copy + Default + std::ops::Add<Output = $e>,
            {
                let mut total = <$e>::default();
                for r in 0..self.rows {
                    let mut row = <$e>::default();
                    for c in 0..self.cols {
                        row = row + *self.view().get_ref(r, c);
                    }
                    total = total + row;
                }
                total
            }
        }
        impl<$($g)*, I: Ix2> Index<I> for $t {
            type Output = $e;
            fn index(&self, i: I) -> &$e {
                let (r, c) = i.pair();
                self.view().get_ref(r, c)
            }
        }
    };
}
macro_rules! write_methods {
    ([$($g:tt)*] $t:ty, $e:ty) => {
        impl<$($g)*> $t {
            pub fn slice_mut(&mut self, s: Slice2) -> ArrayViewMut2<'_, $e> {
                let (r0, r1) = s.0.resolve(self.rows);
                let (c0, c1) = s.1.resolve(self.cols);
                let v = self.view_mut();
                ArrayViewMut2 {
                    p: v.p.wrapping_add(r0 * v.stride + c0),
                    rows: r1 - r0,
                    cols: c1 - c0,
                    stride: v.stride,
                    _a: PhantomData,
                }
            }
            pub fn iter_mut(&mut self) -> ElementsMut<'_, $e> {
                ElementsMut::new(self.view_mut())
            }
            pub fn fill(&mut self, x: $e)
            where
                $e: Clone,
            {
                self.iter_mut().for_each(|v| *v = x.clone());
            }
            pub fn mapv_inplace(&mut self, mut f: impl FnMut($e) -> $e)
            where
                $e: Clone,
            {
                self.iter_mut().for_each(|v| *v = f(v.clone()));
            }
            pub fn assign<'z, V: AsView2<$e>>(&mut self, o: &'z V)
            where
                $e: Clone,
            {
                self.zip_mut_with(o, |a, b| *a = b.clone());
            }
            pub fn zip_mut_with<V: AsView2<$e>>(&mut self, o: &V, mut f: impl FnMut(&mut $e, &$e)) {
                let o = o.as_view2();
                assert_eq!((self.rows, self.cols), (o.rows, o.cols), "shapes differ");
                for (a, b) in self.iter_mut().zip(o.elements()) {
                    f(a, b);
                }
            }
        }
        impl<$($g)*, I: Ix2> IndexMut<I> for $t {
            fn index_mut(&mut self, i: I) -> &mut $e {
                let (r, c) = i.pair();
                assert!(r < self.rows && c < self.cols, "index out of bounds");
                let v = self.view_mut();
                unsafe { &mut *v.p.add(r * v.stride + c) }
            }
        }
    };
}
pub trait Ix2 {
    fn pair(self) -> (usize, usize);
}
impl Ix2 for (usize, usize) {
    fn pair(self) -> (usize, usize) {
        self
    }
}
impl Ix2 for [usize; 2] {
    fn pair(self) -> (usize, usize) {
        (self[0], self[1])
    }
}
pub trait AsView2<T> {
    fn as_view2(&self) -> ArrayView2<'_, T>;
}
impl<T> AsView2<T> for Array2<T> {
    fn as_view2(&self) -> ArrayView2<'_, T> {
        self.view()
    }
}
impl<T> AsView2<T> for ArrayView2<'_, T> {
    fn as_view2(&self) -> ArrayView2<'_, T> {
        *self
    }
}
impl<T> AsView2<T> for ArrayViewMut2<'_, T> {
    fn as_view2(&self) -> ArrayView2<'_, T> {
        self.view()
    }
}

impl<T> Array2<T> {
    pub fn view(&self) -> ArrayView2<'_, T> {
        ArrayView2 {
            p: self.data.as_ptr(),
            rows: self.rows,
            cols: self.cols,
            stride: self.cols,
            _a: PhantomData,
        }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        ArrayViewMut2 {
            p: self.data.as_mut_ptr(),
            rows: self.rows,
            cols: self.cols,
            stride: self.cols,
            _a: PhantomData,
        }
    }
    pub fn from_elem((rows, cols): (usize, usize), x: T) -> Self
    where
        T: Clone,
    {
        Array2 { data: vec![x; rows * cols], rows, cols }
    }
    pub fn from_shape_fn((rows, cols): (usize, usize), mut f: impl FnMut((usize, usize)) -> T) -> Self {
        let data = (0..rows * cols).map(|i| f((i / cols.max(1), i % cols.max(1)))).collect();
        Array2 { data, rows, cols }
    }
    pub fn from_shape_vec((rows, cols): (usize, usize), data: Vec<T>) -> Result<Self, ShapeError> {
        if data.len() != rows * cols {
            return Err(ShapeError);
        }
        Ok(Array2 { data, rows, cols })
    }
    pub fn zeros(shape: (usize, usize)) -> Self
    where
        T: Clone + Default,
    {
        Self::from_elem(shape, T::default())
    }
    pub fn into_raw_vec(self) -> Vec<T> {
        self.data
    }
    pub fn as_slice(&self) -> Option<&[T]> {
        Some(&self.data)
    }
    pub fn as_slice_mut(&mut self) -> Option<&mut [T]> {
        Some(&mut self.data)
    }
}
impl<T: Clone> AddAssign<&Array2<T>> for Array2<T>
where
    T: AddAssign,
{
    fn add_assign(&mut self, o: &Array2<T>) {
        self.zip_mut_with(o, |a, b| *a += b.clone());
    }
}
impl<'a, T> ArrayView2<'a, T> {
    pub fn view(&self) -> ArrayView2<'a, T> {
        *self
    }
    pub fn reborrow(self) -> ArrayView2<'a, T> {
        self
    }
}
impl<T> ArrayViewMut2<'_, T> {
    pub fn view(&self) -> ArrayView2<'_, T> {
        ArrayView2 {
            p: self.p,
            rows: self.rows,
            cols: self.cols,
            stride: self.stride,
            _a: PhantomData,
        }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        ArrayViewMut2 {
            p: self.p,
            rows: self.rows,
            cols: self.cols,
            stride: self.stride,
            _a: PhantomData,
        }
    }
}
read_methods!([T] Array2<T>, T);
read_methods!(['a, T] ArrayView2<'a, T>, T);
read_methods!(['a, T] ArrayViewMut2<'a, T>, T);
write_methods!([T] Array2<T>, T);
write_methods!(['a, T] ArrayViewMut2<'a, T>, T);

/// What `azip!` can walk over.
pub trait NdProducer {
    type Item;
    type It: Iterator<Item = Self::Item>;
    fn walk(self) -> ((usize, usize), Self::It);
}
impl<'a, T> NdProducer for ArrayView2<'a, T> {
    type Item = &'a T;
    type It = Elements<'a, T>;
    fn walk(self) -> ((usize, usize), Self::It) {
        ((self.rows, self.cols), self.elements())
    }
}
impl<'a, T> NdProducer for &'a ArrayView2<'_, T> {
    type Item = &'a T;
    type It = Elements<'a, T>;
    fn walk(self) -> ((usize, usize), Self::It) {
        ((self.rows, self.cols), self.iter())
    }
}
impl<'a, T> NdProducer for &'a Array2<T> {
    type Item = &'a T;
    type It = Elements<'a, T>;
    fn walk(self) -> ((usize, usize), Self::It) {
        ((self.rows, self.cols), self.iter())
    }
}
impl<'a, T> NdProducer for &'a mut Array2<T> {
    type Item = &'a mut T;
    type It = ElementsMut<'a, T>;
    fn walk(self) -> ((usize, usize), Self::It) {
        ((self.rows, self.cols), self.iter_mut())
    }
}
impl<'a, T> NdProducer for ArrayViewMut2<'a, T> {
    type Item = &'a mut T;
    type It = ElementsMut<'a, T>;
    fn walk(self) -> ((usize, usize), Self::It) {
        ((self.rows, self.cols), ElementsMut::new(self))
    }
}
impl<'a, T> NdProducer for &'a mut ArrayViewMut2<'_, T> {
    type Item = &'a mut T;
    type It = ElementsMut<'a, T>;
    fn walk(self) -> ((usize, usize), Self::It) {
        ((self.rows, self.cols), self.iter_mut())
    }
}
impl<'a, T> NdProducer for &'a ArrayViewMut2<'_, T> {
    type Item = &'a T;
    type It = Elements<'a, T>;
    fn walk(self) -> ((usize, usize), Self::It) {
        ((self.rows, self.cols), self.iter())
    }
}
impl<'a, T> NdProducer for ExactChunks<'a, T> {
    type Item = ArrayView2<'a, T>;
    type It = Chunks<'a, T>;
    fn walk(self) -> ((usize, usize), Self::It) {
        let dim = (self.v.rows / self.shape.0, self.v.cols / self.shape.1);
        (dim, Chunks { c: self, i: 0 })
    }
}

/// Two producers walked together; their shapes must agree.
pub struct Both<A, B>(pub A, pub B);
impl<A: NdProducer, B: NdProducer> NdProducer for Both<A, B> {
    type Item = (A::Item, B::Item);
    type It = std::iter::Zip<A::It, B::It>;
    fn walk(self) -> ((usize, usize), Self::It) {
        let (da, a) = self.0.walk();
        let (db, b) = self.1.walk();
        assert_eq!(da, db, "azip: shapes differ");
        (da, a.zip(b))
    }
}

#[macro_export]
macro_rules! azip {
    (($p:pat in $e:expr $(, $q:pat in $f:expr)* $(,)?) $body:block) => {
        $crate::azip!(@go ($p) ($e) ($(($q) ($f))*) $body)
    };
    (($p:ident in $e:expr $(, $q:pat in $f:expr)* $(,)?) $body:expr) => {
        $crate::azip!(@go ($p) ($e) ($(($q) ($f))*) $body)
    };
    (@go ($p:pat) ($e:expr) () $body:expr) => {
        for $p in $crate::NdProducer::walk($e).1 {
            $body;
        }
    };
    (@go ($p:pat) ($e:expr) (($q:pat) ($f:expr) $($rest:tt)*) $body:expr) => {
        $crate::azip!(@go (($p, $q)) ($crate::Both($e, $f)) ($($rest)*) $body)
    };
}
