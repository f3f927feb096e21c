//! Stand-in for the parts of the hdf5 crate that subsweep uses. Files have their own simple binary
//! format: a whole file is read on open and written back (atomically, by rename) when the last
//! handle to it is dropped, if it was opened for writing.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub use hdf5_derive::H5Type;
use ndarray::{Array1, Array2, SliceInfo, SliceInfoElem};

pub mod types {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum TypeDescriptor {
        Int(usize),
        Uint(usize),
        Float(usize),
        Bool,
        Array(Box<TypeDescriptor>, usize),
    }
    impl TypeDescriptor {
        pub fn size(&self) -> usize {
            match self {
                Self::Int(n) | Self::Uint(n) | Self::Float(n) => *n,
                Self::Bool => 1,
                Self::Array(t, n) => t.size() * n,
            }
        }
        pub(crate) fn to_bytes(&self, out: &mut Vec<u8>) {
            match self {
                Self::Int(n) => out.extend([0, *n as u8]),
                Self::Uint(n) => out.extend([1, *n as u8]),
                Self::Float(n) => out.extend([2, *n as u8]),
                Self::Bool => out.extend([3, 1]),
                Self::Array(t, n) => {
                    out.extend([4, *n as u8]);
                    t.to_bytes(out)
                }
            }
        }
    }
}
use types::TypeDescriptor;

/// # Safety
/// The type has the memory layout of its descriptor.
pub unsafe trait H5Type: 'static {
    fn type_descriptor() -> TypeDescriptor;
}
macro_rules! prim {
    ($($t:ty => $d:expr),*) => { $( unsafe impl H5Type for $t { fn type_descriptor() -> TypeDescriptor { $d } } )* };
}
prim!(
    f64 => TypeDescriptor::Float(8), f32 => TypeDescriptor::Float(4),
    i8 => TypeDescriptor::Int(1), i16 => TypeDescriptor::Int(2), i32 => TypeDescriptor::Int(4), i64 => TypeDescriptor::Int(8), isize => TypeDescriptor::Int(8),
    u8 => TypeDescriptor::Uint(1), u16 => TypeDescriptor::Uint(2), u32 => TypeDescriptor::Uint(4), u64 => TypeDescriptor::Uint(8), usize => TypeDescriptor::Uint(8),
    bool => TypeDescriptor::Bool
);
unsafe impl<T: H5Type, const N: usize> H5Type for [T; N] {
    fn type_descriptor() -> TypeDescriptor {
        TypeDescriptor::Array(Box::new(T::type_descriptor()), N)
    }
}

pub struct Error(String);
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
fn err<T>(s: impl Into<String>) -> Result<T> {
    Err(Error(s.into()))
}

#[derive(Clone, Debug)]
struct Data {
    ty: TypeDescriptor,
    shape: Vec<usize>,
    bytes: Vec<u8>,
    attrs: BTreeMap<String, Data>,
}
impl Data {
    fn write(&self, out: &mut Vec<u8>) {
        self.ty.to_bytes(out);
        out.extend((self.shape.len() as u64).to_le_bytes());
        for s in &self.shape {
            out.extend((*s as u64).to_le_bytes());
        }
        out.extend((self.bytes.len() as u64).to_le_bytes());
        out.extend(&self.bytes);
        write_map(&self.attrs, out);
    }
}
fn write_map(m: &BTreeMap<String, Data>, out: &mut Vec<u8>) {
    out.extend((m.len() as u64).to_le_bytes());
    for (k, v) in m {
        out.extend((k.len() as u64).to_le_bytes());
        out.extend(k.as_bytes());
        v.write(out);
    }
}
struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u64(&mut self) -> Option<usize> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()) as usize)
    }
    fn ty(&mut self) -> Option<TypeDescriptor> {
        let x = self.take(2)?;
        let n = x[1] as usize;
        Some(match x[0] {
            0 => TypeDescriptor::Int(n),
            1 => TypeDescriptor::Uint(n),
            2 => TypeDescriptor::Float(n),
            3 => TypeDescriptor::Bool,
            4 => TypeDescriptor::Array(Box::new(self.ty()?), n),
            _ => return None,
        })
    }
    fn data(&mut self) -> Option<Data> {
        let ty = self.ty()?;
        let n = self.u64()?;
        let shape = (0..n).map(|_| self.u64()).collect::<Option<Vec<_>>>()?;
        let nb = self.u64()?;
        let bytes = self.take(nb)?.to_vec();
        let attrs = self.map()?;
        Some(Data {
            ty,
            shape,
            bytes,
            attrs,
        })
    }
    fn map(&mut self) -> Option<BTreeMap<String, Data>> {
        let n = self.u64()?;
        let mut m = BTreeMap::new();
        for _ in 0..n {
            let l = self.u64()?;
            let k = String::from_utf8(self.take(l)?.to_vec()).ok()?;
            m.insert(k, self.data()?);
        }
        Some(m)
    }
}
const MAGIC: &[u8] = b"H5STANDIN1";

#[derive(Debug)]
struct Inner {
    path: PathBuf,
    writable: bool,
    datasets: BTreeMap<String, Data>,
    attrs: BTreeMap<String, Data>,
}
impl Inner {
    fn save(&self) -> std::io::Result<()> {
        let mut out = MAGIC.to_vec();
        write_map(&self.datasets, &mut out);
        write_map(&self.attrs, &mut out);
        let tmp = self
            .path
            .with_extension(format!("tmp{}", std::process::id()));
        std::fs::write(&tmp, out)?;
        std::fs::rename(&tmp, &self.path)
    }
}
impl Drop for Inner {
    fn drop(&mut self) {
        if self.writable && !std::thread::panicking() {
            self.save().expect("stand-in hdf5: could not write file");
        }
    }
}

fn norm(s: &str) -> String {
    s.trim_matches('/').to_string()
}

#[derive(Clone, Debug)]
pub struct File(Rc<RefCell<Inner>>);
// subsweep keeps files in bevy resources, which have to be Send + Sync. Everything is single threaded.
unsafe impl Send for File {}
unsafe impl Sync for File {}
impl File {
    fn load(path: &Path, writable: bool) -> Result<Self> {
        let bytes = std::fs::read(path).map_err(|e| Error(format!("{}: {e}", path.display())))?;
        let bad = || Error(format!("{}: not a file of the stand-in format", path.display()));
        let rest = bytes.strip_prefix(MAGIC).ok_or_else(bad)?;
        let mut c = Cur(rest);
        let datasets = c.map().ok_or_else(bad)?;
        let attrs = c.map().ok_or_else(bad)?;
        Ok(File(Rc::new(RefCell::new(Inner {
            path: path.to_owned(),
            writable,
            datasets,
            attrs,
        }))))
    }
    pub fn open<P: AsRef<Path>>(p: P) -> Result<Self> {
        Self::load(p.as_ref(), false)
    }
    pub fn open_rw<P: AsRef<Path>>(p: P) -> Result<Self> {
        Self::load(p.as_ref(), true)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> Result<Self> {
        let inner = Inner {
            path: p.as_ref().to_owned(),
            writable: true,
            datasets: BTreeMap::new(),
            attrs: BTreeMap::new(),
        };
        inner
            .save()
            .map_err(|e| Error(format!("{}: {e}", p.as_ref().display())))?;
        Ok(File(Rc::new(RefCell::new(inner))))
    }
    pub fn filename(&self) -> String {
        self.0.borrow().path.to_string_lossy().into_owned()
    }
    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        let n = norm(name);
        if self.0.borrow().datasets.contains_key(&n) {
            Ok(Dataset {
                file: self.0.clone(),
                name: n,
            })
        } else {
            err(format!("no dataset {name}"))
        }
    }
    pub fn member_names(&self) -> Result<Vec<String>> {
        Ok(self.0.borrow().datasets.keys().cloned().collect())
    }
    pub fn new_dataset<T: H5Type>(&self) -> Builder<T> {
        Builder {
            file: self.0.clone(),
            of: None,
            shape: vec![],
            is_attr: false,
            _m: PhantomData,
        }
    }
    pub fn new_attr<T: H5Type>(&self) -> Builder<T, Attribute> {
        Builder {
            file: self.0.clone(),
            of: None,
            shape: vec![],
            is_attr: true,
            _m: PhantomData,
        }
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        if self.0.borrow().attrs.contains_key(name) {
            Ok(Attribute {
                file: self.0.clone(),
                of: None,
                name: name.into(),
            })
        } else {
            err(format!("no attribute {name}"))
        }
    }
    pub fn close(self) -> Result<()> {
        Ok(())
    }
}

pub trait Extents {
    fn dims(self) -> Vec<usize>;
}
impl Extents for () {
    fn dims(self) -> Vec<usize> {
        vec![]
    }
}
impl Extents for usize {
    fn dims(self) -> Vec<usize> {
        vec![self]
    }
}
impl<const N: usize> Extents for &[usize; N] {
    fn dims(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<const N: usize> Extents for [usize; N] {
    fn dims(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl Extents for (usize, usize) {
    fn dims(self) -> Vec<usize> {
        vec![self.0, self.1]
    }
}

pub struct Builder<T, O = Dataset> {
    file: Rc<RefCell<Inner>>,
    of: Option<String>,
    shape: Vec<usize>,
    is_attr: bool,
    _m: PhantomData<(T, O)>,
}
impl<T: H5Type, O> Builder<T, O> {
    pub fn shape<E: Extents>(mut self, e: E) -> Self {
        self.shape = e.dims();
        self
    }
    fn data(&self) -> Data {
        let ty = T::type_descriptor();
        assert_eq!(ty.size(), std::mem::size_of::<T>());
        let n: usize = self.shape.iter().product();
        Data {
            bytes: vec![0; n * ty.size()],
            ty,
            shape: self.shape.clone(),
            attrs: BTreeMap::new(),
        }
    }
}
impl<T: H5Type> Builder<T, Dataset> {
    pub fn create(&self, name: impl AsRef<str>) -> Result<Dataset> {
        debug_assert!(!self.is_attr);
        let n = norm(name.as_ref());
        let mut f = self.file.borrow_mut();
        if !f.writable {
            return err("file is not writable");
        }
        if f.datasets.contains_key(&n) {
            return err(format!("unable to create dataset (name already exists): {n}"));
        }
        f.datasets.insert(n.clone(), self.data());
        Ok(Dataset {
            file: self.file.clone(),
            name: n,
        })
    }
}
impl<T: H5Type> Builder<T, Attribute> {
    pub fn create(&self, name: impl AsRef<str>) -> Result<Attribute> {
        let n = name.as_ref().to_string();
        let mut f = self.file.borrow_mut();
        if !f.writable {
            return err("file is not writable");
        }
        let m = match &self.of {
            None => &mut f.attrs,
            Some(d) => &mut f.datasets.get_mut(d).unwrap().attrs,
        };
        if m.contains_key(&n) {
            return err(format!("unable to create attribute (name already exists): {n}"));
        }
        m.insert(n.clone(), self.data());
        Ok(Attribute {
            file: self.file.clone(),
            of: self.of.clone(),
            name: n,
        })
    }
}

pub struct Attribute {
    file: Rc<RefCell<Inner>>,
    of: Option<String>,
    name: String,
}
impl Attribute {
    fn with<R>(&self, f: impl FnOnce(&mut Data) -> R) -> R {
        let mut file = self.file.borrow_mut();
        let m = match &self.of {
            None => &mut file.attrs,
            Some(d) => &mut file.datasets.get_mut(d).unwrap().attrs,
        };
        f(m.get_mut(&self.name).unwrap())
    }
    pub fn write_scalar<T: H5Type>(&self, v: &T) -> Result<()> {
        self.with(|d| {
            if d.ty != T::type_descriptor() {
                return err("type mismatch");
            }
            d.bytes = as_bytes(std::slice::from_ref(v)).to_vec();
            Ok(())
        })
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        self.with(|d| Ok(from_bytes::<T>(d, &d.bytes)?.remove(0)))
    }
}

fn as_bytes<T>(s: &[T]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, std::mem::size_of_val(s)) }
}
fn from_bytes<T: H5Type>(d: &Data, bytes: &[u8]) -> Result<Vec<T>> {
    let want = T::type_descriptor();
    if d.ty != want {
        return err(format!("type mismatch: {:?} in file, {:?} requested", d.ty, want));
    }
    let sz = std::mem::size_of::<T>();
    let n = bytes.len() / sz;
    let mut v: Vec<T> = Vec::with_capacity(n);
    unsafe {
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), v.as_mut_ptr() as *mut u8, n * sz);
        v.set_len(n);
    }
    Ok(v)
}

pub struct Dataset {
    file: Rc<RefCell<Inner>>,
    name: String,
}
impl Dataset {
    fn with<R>(&self, f: impl FnOnce(&mut Data) -> R) -> R {
        f(self.file.borrow_mut().datasets.get_mut(&self.name).unwrap())
    }
    pub fn shape(&self) -> Vec<usize> {
        self.with(|d| d.shape.clone())
    }
    pub fn size(&self) -> usize {
        self.shape().iter().product()
    }
    pub fn name(&self) -> String {
        format!("/{}", self.name)
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        if self.with(|d| d.attrs.contains_key(name)) {
            Ok(Attribute {
                file: self.file.clone(),
                of: Some(self.name.clone()),
                name: name.into(),
            })
        } else {
            err(format!("no attribute {name}"))
        }
    }
    pub fn new_attr<T: H5Type>(&self) -> Builder<T, Attribute> {
        Builder {
            file: self.file.clone(),
            of: Some(self.name.clone()),
            shape: vec![],
            is_attr: true,
            _m: PhantomData,
        }
    }
    fn rows(&self, r: &Range<usize>) -> Result<usize> {
        let shape = self.shape();
        if r.start > r.end || r.end > shape[0] {
            return err(format!("selection {r:?} out of bounds for shape {shape:?}"));
        }
        Ok(shape[1..].iter().product::<usize>())
    }
    pub fn read_slice_1d<T: H5Type, S: Into<Selection>>(&self, s: S) -> Result<Array1<T>> {
        let r = s.into().resolve(&self.shape())?;
        let per = self.rows(&r)?;
        if self.shape().len() != 1 {
            return err("ndim mismatch: expected 1");
        }
        self.with(|d| {
            let sz = d.ty.size() * per;
            let v = from_bytes::<T>(d, &d.bytes[r.start * sz..r.end * sz])?;
            Ok(Array1::from_vec(v))
        })
    }
    pub fn read_slice_2d<T: H5Type, S: Into<Selection>>(&self, s: S) -> Result<Array2<T>> {
        let r = s.into().resolve(&self.shape())?;
        let per = self.rows(&r)?;
        if self.shape().len() != 2 {
            return err("ndim mismatch: expected 2");
        }
        self.with(|d| {
            let sz = d.ty.size() * per;
            let v = from_bytes::<T>(d, &d.bytes[r.start * sz..r.end * sz])?;
            Array2::from_shape_vec((r.end - r.start, per), v).map_err(|e| Error(e.to_string()))
        })
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        self.with(|d| from_bytes::<T>(d, &d.bytes))
    }
    pub fn write_raw<T: H5Type>(&self, v: &[T]) -> Result<()> {
        self.with(|d| {
            if d.ty != T::type_descriptor() || d.bytes.len() != std::mem::size_of_val(v) {
                return err("write_raw: type or shape mismatch");
            }
            d.bytes.copy_from_slice(as_bytes(v));
            Ok(())
        })
    }
    pub fn write_slice<T: H5Type, S: Into<Selection>>(&self, v: &[T], s: S) -> Result<()> {
        let r = s.into().resolve(&self.shape())?;
        let per = self.rows(&r)?;
        if !self.file.borrow().writable {
            return err("file is not writable");
        }
        self.with(|d| {
            if d.ty != T::type_descriptor() {
                return err("type mismatch");
            }
            let sz = d.ty.size() * per;
            if v.len() != (r.end - r.start) * per {
                return err(format!(
                    "shape mismatch when writing: memory = {}, destination = {}",
                    v.len(),
                    r.end - r.start
                ));
            }
            d.bytes[r.start * sz..r.end * sz].copy_from_slice(as_bytes(v));
            Ok(())
        })
    }
}

/// A range of rows.
#[derive(Clone, Debug)]
pub struct Selection {
    start: isize,
    end: Option<isize>,
}
impl Selection {
    fn resolve(&self, shape: &[usize]) -> Result<Range<usize>> {
        let n = shape.first().copied().unwrap_or(0) as isize;
        let f = |x: isize| if x < 0 { x + n } else { x };
        let (a, b) = (f(self.start), self.end.map(f).unwrap_or(n));
        if a < 0 || b < a {
            return err("invalid selection");
        }
        Ok(a as usize..b as usize)
    }
    pub fn try_new<S: TryInto<Selection>>(s: S) -> std::result::Result<Self, S::Error> {
        s.try_into()
    }
}
impl From<Range<usize>> for Selection {
    fn from(r: Range<usize>) -> Self {
        Selection {
            start: r.start as isize,
            end: Some(r.end as isize),
        }
    }
}
impl<T: AsRef<[SliceInfoElem]>, A: ndarray::Dimension, B: ndarray::Dimension> TryFrom<SliceInfo<T, A, B>>
    for Selection
{
    type Error = Error;
    fn try_from(s: SliceInfo<T, A, B>) -> Result<Self> {
        let v: &[SliceInfoElem] = AsRef::<[SliceInfoElem]>::as_ref(&s);
        match v[0] {
            SliceInfoElem::Slice { start, end, step: 1 } => Ok(Selection { start, end }),
            _ => err("stand-in supports contiguous row selections only"),
        }
    }
}
