//! Stand-in for the `ssz_rs` crate at the revision the repository pins (a git dependency that
//! cannot be fetched offline).  Implements SSZ serialization and merkleization from the
//! simple-serialize specification; `/verif/lib/refmodel` holds a second, independent implementation
//! that the checks use as the oracle.
use std::{
    fmt,
    hash::Hash,
    ops::{Deref, DerefMut, Index, IndexMut},
    slice::SliceIndex,
};

extern crate self as ssz_rs;

pub use ssz_rs_derive::{HashTreeRoot, Serializable, SimpleSerialize};
pub use ruint::aliases::U256;

pub const BYTES_PER_CHUNK: usize = 32;
pub const BYTES_PER_LENGTH_OFFSET: usize = 4;

// ---------------------------------------------------------------- errors
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TypeError {
    InvalidBound(usize),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum InstanceError {
    Exact { required: usize, provided: usize },
    Bounded { bound: usize, provided: usize },
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SerializeError {
    MaximumEncodedLengthExceeded(usize),
    InvalidInstance(InstanceError),
    InvalidType(TypeError),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DeserializeError {
    ExpectedFurtherInput { provided: usize, expected: usize },
    AdditionalInput { provided: usize, expected: usize },
    InvalidByte(u8),
    InvalidOffset(usize),
    OffsetNotIncreasing { start: usize, end: usize },
    IncorrectOffset,
    InvalidInstance(InstanceError),
    InvalidType(TypeError),
    InvalidInput,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleizationError {
    SerializationError(SerializeError),
    InputExceedsLimit(usize),
    InvalidGeneralizedIndex,
    InvalidDepth,
    InvalidPathElement(PathElement),
    InvalidPath(Vec<PathElement>),
    InvalidProof,
    NotChunkAligned,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    Serialize(SerializeError),
    Deserialize(DeserializeError),
    Merkleization(MerkleizationError),
    Instance(InstanceError),
    Type(TypeError),
}
pub type SimpleSerializeError = Error;

macro_rules! err_impl {
    ($($t:ty),*) => {$(
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "expected valid data: {self:?}") }
        }
        impl std::error::Error for $t {}
    )*};
}
err_impl!(TypeError, InstanceError, SerializeError, DeserializeError, MerkleizationError, Error);
macro_rules! from_impl {
    ($($a:ty => $b:ident :: $v:ident),* $(,)?) => {$(
        impl From<$a> for $b { fn from(e: $a) -> Self { $b::$v(e) } }
    )*};
}
from_impl!(
    SerializeError => Error::Serialize, DeserializeError => Error::Deserialize,
    MerkleizationError => Error::Merkleization, InstanceError => Error::Instance,
    TypeError => Error::Type, InstanceError => DeserializeError::InvalidInstance,
    TypeError => DeserializeError::InvalidType, InstanceError => SerializeError::InvalidInstance,
    TypeError => SerializeError::InvalidType, SerializeError => MerkleizationError::SerializationError,
);

// ---------------------------------------------------------------- traits
pub trait SszSized {
    fn is_variable_size() -> bool;
    /// encoded size for fixed-size types (0 for variable-size ones)
    fn size_hint() -> usize;
}
pub trait Serialize {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>
    where
        Self: Sized;
}
pub trait Serializable: Serialize + Deserialize + SszSized {}
impl<T: Serialize + Deserialize + SszSized> Serializable for T {}

pub trait HashTreeRoot {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError>;
    /// `false` for basic types, which are packed 32 bytes to a chunk
    fn is_composite_type() -> bool
    where
        Self: Sized,
    {
        true
    }
    fn is_composite(&self) -> bool {
        true
    }
}
pub trait SimpleSerialize: Serializable + HashTreeRoot + GeneralizedIndexable {}

pub fn serialize<T: Serialize>(value: &T) -> Result<Vec<u8>, SerializeError> {
    let mut buf = vec![];
    value.serialize(&mut buf)?;
    Ok(buf)
}
pub fn deserialize<T: Deserialize>(encoding: &[u8]) -> Result<T, DeserializeError> {
    T::deserialize(encoding)
}

// ---------------------------------------------------------------- containers (used by the derive)
#[doc(hidden)]
pub mod container {
    use super::*;

    #[derive(Default)]
    pub struct Encoder {
        parts: Vec<(bool, Vec<u8>)>,
    }
    impl Encoder {
        pub fn add<T: Serialize + SszSized>(&mut self, v: &T) -> Result<(), SerializeError> {
            let mut buf = vec![];
            v.serialize(&mut buf)?;
            self.parts.push((T::is_variable_size(), buf));
            Ok(())
        }
        pub fn finish(self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
            let fixed: usize = self
                .parts
                .iter()
                .map(|(var, b)| if *var { BYTES_PER_LENGTH_OFFSET } else { b.len() })
                .sum();
            let start = out.len();
            let mut offset = fixed;
            for (var, b) in &self.parts {
                if *var {
                    let o = u32::try_from(offset)
                        .map_err(|_| SerializeError::MaximumEncodedLengthExceeded(offset))?;
                    out.extend_from_slice(&o.to_le_bytes());
                    offset += b.len();
                } else {
                    out.extend_from_slice(b);
                }
            }
            for (var, b) in &self.parts {
                if *var {
                    out.extend_from_slice(b);
                }
            }
            Ok(out.len() - start)
        }
    }

    /// Splits the encoding of a container into the encodings of its fields.
    pub fn split<'a>(
        encoding: &'a [u8],
        fields: &[(bool, usize)],
    ) -> Result<Vec<&'a [u8]>, DeserializeError> {
        let fixed: usize =
            fields.iter().map(|(var, n)| if *var { BYTES_PER_LENGTH_OFFSET } else { *n }).sum();
        if encoding.len() < fixed {
            return Err(DeserializeError::ExpectedFurtherInput {
                provided: encoding.len(),
                expected: fixed,
            });
        }
        let mut out: Vec<&[u8]> = vec![&[]; fields.len()];
        let mut offsets = vec![];
        let mut pos = 0;
        for (i, (var, n)) in fields.iter().enumerate() {
            if *var {
                let o = u32::from_le_bytes(encoding[pos..pos + 4].try_into().unwrap()) as usize;
                offsets.push((i, o));
                pos += 4;
            } else {
                out[i] = &encoding[pos..pos + n];
                pos += n;
            }
        }
        if offsets.is_empty() {
            if encoding.len() > fixed {
                return Err(DeserializeError::AdditionalInput {
                    provided: encoding.len(),
                    expected: fixed,
                });
            }
            return Ok(out);
        }
        if offsets[0].1 != fixed {
            return Err(DeserializeError::InvalidOffset(offsets[0].1));
        }
        for k in 0..offsets.len() {
            let start = offsets[k].1;
            let end = offsets.get(k + 1).map(|o| o.1).unwrap_or(encoding.len());
            if end < start || end > encoding.len() {
                return Err(DeserializeError::OffsetNotIncreasing { start, end });
            }
            out[offsets[k].0] = &encoding[start..end];
        }
        Ok(out)
    }

    pub fn field_path(
        path: &[PathElement],
        names: &[&str],
        base: GeneralizedIndex,
        go: &dyn Fn(usize, &[PathElement], GeneralizedIndex) -> Result<GeneralizedIndex, MerkleizationError>,
    ) -> Result<GeneralizedIndex, MerkleizationError> {
        match path.split_first() {
            None => Ok(base),
            Some((PathElement::Field(name), rest)) => {
                let pos = names
                    .iter()
                    .position(|n| n == name)
                    .ok_or_else(|| MerkleizationError::InvalidPathElement(path[0].clone()))?;
                go(pos, rest, base * names.len().next_power_of_two() + pos)
            }
            Some((e, _)) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
}

// ---------------------------------------------------------------- basic types
macro_rules! basic_uint {
    ($($t:ty : $n:expr),*) => {$(
        impl SszSized for $t {
            fn is_variable_size() -> bool { false }
            fn size_hint() -> usize { $n }
        }
        impl Serialize for $t {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
                b.extend_from_slice(&self.to_le_bytes());
                Ok($n)
            }
        }
        impl Deserialize for $t {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                exact_len(e, $n)?;
                Ok(<$t>::from_le_bytes(e.try_into().unwrap()))
            }
        }
        impl HashTreeRoot for $t {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
                let mut n = [0u8; 32];
                n[..$n].copy_from_slice(&self.to_le_bytes());
                Ok(Node(n))
            }
            fn is_composite_type() -> bool { false }
            fn is_composite(&self) -> bool { false }
        }
        impl GeneralizedIndexable for $t {
            fn compute_generalized_index(base: GeneralizedIndex, path: &[PathElement]) -> Result<GeneralizedIndex, MerkleizationError> {
                leaf_path(base, path)
            }
        }
        impl SimpleSerialize for $t {}
    )*};
}
fn exact_len(e: &[u8], n: usize) -> Result<(), DeserializeError> {
    if e.len() < n {
        return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: n });
    }
    if e.len() > n {
        return Err(DeserializeError::AdditionalInput { provided: e.len(), expected: n });
    }
    Ok(())
}
fn leaf_path(base: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
    match path.first() {
        None => Ok(base),
        Some(e) => Err(MerkleizationError::InvalidPathElement(e.clone())),
    }
}
basic_uint!(u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, usize: 8);

impl SszSized for U256 {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl Serialize for U256 {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend_from_slice(&self.to_le_bytes::<32>());
        Ok(32)
    }
}
impl Deserialize for U256 {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact_len(e, 32)?;
        Ok(U256::from_le_slice(e))
    }
}
impl HashTreeRoot for U256 {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(Node(self.to_le_bytes::<32>()))
    }
    fn is_composite_type() -> bool {
        false
    }
    fn is_composite(&self) -> bool {
        false
    }
}
impl GeneralizedIndexable for U256 {
    fn compute_generalized_index(base: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
        leaf_path(base, path)
    }
}
impl SimpleSerialize for U256 {}

impl SszSized for bool {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        1
    }
}
impl Serialize for bool {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.push(*self as u8);
        Ok(1)
    }
}
impl Deserialize for bool {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact_len(e, 1)?;
        match e[0] {
            0 => Ok(false),
            1 => Ok(true),
            b => Err(DeserializeError::InvalidByte(b)),
        }
    }
}
impl HashTreeRoot for bool {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (*self as u8).hash_tree_root()
    }
    fn is_composite_type() -> bool {
        false
    }
    fn is_composite(&self) -> bool {
        false
    }
}
impl GeneralizedIndexable for bool {
    fn compute_generalized_index(base: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
        leaf_path(base, path)
    }
}
impl SimpleSerialize for bool {}

impl<T: HashTreeRoot> HashTreeRoot for &T {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (**self).hash_tree_root()
    }
    fn is_composite_type() -> bool {
        T::is_composite_type()
    }
}
impl<T: HashTreeRoot> HashTreeRoot for &mut T {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (**self).hash_tree_root()
    }
    fn is_composite_type() -> bool {
        T::is_composite_type()
    }
}

// ---------------------------------------------------------------- sequences
fn serialize_seq<T: Serialize + SszSized>(items: &[T], out: &mut Vec<u8>) -> Result<usize, SerializeError> {
    let start = out.len();
    if T::is_variable_size() {
        let mut bodies = vec![];
        let mut offset = items.len() * BYTES_PER_LENGTH_OFFSET;
        for it in items {
            let o = u32::try_from(offset)
                .map_err(|_| SerializeError::MaximumEncodedLengthExceeded(offset))?;
            out.extend_from_slice(&o.to_le_bytes());
            offset += it.serialize(&mut bodies)?;
        }
        out.extend_from_slice(&bodies);
    } else {
        for it in items {
            it.serialize(out)?;
        }
    }
    Ok(out.len() - start)
}
fn deserialize_seq<T: Deserialize + SszSized>(e: &[u8], max: usize) -> Result<Vec<T>, DeserializeError> {
    if e.is_empty() {
        return Ok(vec![]);
    }
    if T::is_variable_size() {
        if e.len() < 4 {
            return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: 4 });
        }
        let at = |i: usize| u32::from_le_bytes(e[4 * i..4 * i + 4].try_into().unwrap()) as usize;
        let first = at(0);
        if first % 4 != 0 || first == 0 || first > e.len() {
            return Err(DeserializeError::InvalidOffset(first));
        }
        let n = first / 4;
        if n > max {
            return Err(InstanceError::Bounded { bound: max, provided: n }.into());
        }
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let start = at(i);
            let end = if i + 1 < n { at(i + 1) } else { e.len() };
            if end < start || end > e.len() {
                return Err(DeserializeError::OffsetNotIncreasing { start, end });
            }
            out.push(T::deserialize(&e[start..end])?);
        }
        Ok(out)
    } else {
        let size = T::size_hint();
        if e.len() % size != 0 {
            return Err(DeserializeError::AdditionalInput { provided: e.len(), expected: e.len() / size * size });
        }
        let n = e.len() / size;
        if n > max {
            return Err(InstanceError::Bounded { bound: max, provided: n }.into());
        }
        e.chunks_exact(size).map(T::deserialize).collect()
    }
}
fn seq_chunks<T: Serialize + HashTreeRoot>(items: &[T]) -> Result<Vec<Node>, MerkleizationError> {
    if T::is_composite_type() {
        items.iter().map(|i| i.hash_tree_root()).collect()
    } else {
        let mut buf = vec![];
        for i in items {
            i.serialize(&mut buf)?;
        }
        Ok(pack_bytes(&buf))
    }
}
fn chunk_limit<T: HashTreeRoot + SszSized>(n: usize) -> usize {
    if T::is_composite_type() {
        n
    } else {
        ((n as u128 * T::size_hint() as u128 + 31) / 32) as usize
    }
}
#[doc(hidden)]
pub fn pack_bytes(buf: &[u8]) -> Vec<Node> {
    buf.chunks(32)
        .map(|c| {
            let mut n = [0u8; 32];
            n[..c.len()].copy_from_slice(c);
            Node(n)
        })
        .collect()
}

fn hash2(a: &Node, b: &Node) -> Node {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    h.update(a.0);
    h.update(b.0);
    Node(h.finalize().into())
}

fn zero_hashes() -> &'static [Node; 65] {
    static Z: std::sync::OnceLock<[Node; 65]> = std::sync::OnceLock::new();
    Z.get_or_init(|| {
        let mut z = [Node([0; 32]); 65];
        for i in 1..65 {
            z[i] = hash2(&z[i - 1], &z[i - 1]);
        }
        z
    })
}

/// merkleize(chunks, limit) of the SSZ specification
pub fn merkleize_chunks(mut layer: Vec<Node>, limit: usize) -> Result<Node, MerkleizationError> {
    if layer.len() > limit.max(1) {
        return Err(MerkleizationError::InputExceedsLimit(limit));
    }
    let depth = limit.max(1).next_power_of_two().trailing_zeros() as usize;
    let z = zero_hashes();
    if layer.is_empty() {
        return Ok(z[depth]);
    }
    for d in 0..depth {
        let n = layer.len().div_ceil(2);
        for i in 0..n {
            let l = layer[2 * i];
            let r = if 2 * i + 1 < layer.len() { layer[2 * i + 1] } else { z[d] };
            layer[i] = hash2(&l, &r);
        }
        layer.truncate(n);
    }
    Ok(layer[0])
}
pub fn mix_in_length(root: Node, len: usize) -> Node {
    let mut n = [0u8; 32];
    n[..8].copy_from_slice(&(len as u64).to_le_bytes());
    hash2(&root, &Node(n))
}

// ---------------------------------------------------------------- Vector
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Vector<T, const N: usize> {
    data: Vec<T>,
}
impl<T: fmt::Debug, const N: usize> fmt::Debug for Vector<T, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Vector<{N}>")?;
        f.debug_list().entries(self.data.iter()).finish()
    }
}
impl<T: Default, const N: usize> Default for Vector<T, N> {
    fn default() -> Self {
        Self { data: (0..N).map(|_| T::default()).collect() }
    }
}
impl<T, const N: usize> Deref for Vector<T, N> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.data
    }
}
impl<T, const N: usize> DerefMut for Vector<T, N> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.data
    }
}
impl<T, const N: usize> AsRef<[T]> for Vector<T, N> {
    fn as_ref(&self) -> &[T] {
        &self.data
    }
}
impl<T, I: SliceIndex<[T]>, const N: usize> Index<I> for Vector<T, N> {
    type Output = I::Output;
    fn index(&self, i: I) -> &Self::Output {
        &self.data[i]
    }
}
impl<T, I: SliceIndex<[T]>, const N: usize> IndexMut<I> for Vector<T, N> {
    fn index_mut(&mut self, i: I) -> &mut Self::Output {
        &mut self.data[i]
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for Vector<T, N> {
    type Error = (Vec<T>, Error);
    fn try_from(data: Vec<T>) -> Result<Self, Self::Error> {
        if data.len() != N {
            let provided = data.len();
            return Err((data, InstanceError::Exact { required: N, provided }.into()));
        }
        Ok(Self { data })
    }
}
impl<T: Clone, const N: usize> TryFrom<&[T]> for Vector<T, N> {
    type Error = Error;
    fn try_from(data: &[T]) -> Result<Self, Self::Error> {
        if data.len() != N {
            return Err(InstanceError::Exact { required: N, provided: data.len() }.into());
        }
        Ok(Self { data: data.to_vec() })
    }
}
impl<T, const N: usize> From<Vector<T, N>> for Vec<T> {
    fn from(v: Vector<T, N>) -> Self {
        v.data
    }
}
impl<'a, T, const N: usize> IntoIterator for &'a Vector<T, N> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.iter()
    }
}
impl<'a, T, const N: usize> IntoIterator for &'a mut Vector<T, N> {
    type Item = &'a mut T;
    type IntoIter = std::slice::IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.iter_mut()
    }
}
impl<T: SszSized, const N: usize> SszSized for Vector<T, N> {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint() * N
    }
}
impl<T: Serialize + SszSized, const N: usize> Serialize for Vector<T, N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.data.len() != N {
            return Err(InstanceError::Exact { required: N, provided: self.data.len() }.into());
        }
        serialize_seq(&self.data, b)
    }
}
impl<T: Deserialize + SszSized, const N: usize> Deserialize for Vector<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if !T::is_variable_size() {
            exact_len(e, N * T::size_hint())?;
        }
        let data = deserialize_seq(e, N)?;
        if data.len() != N {
            return Err(InstanceError::Exact { required: N, provided: data.len() }.into());
        }
        Ok(Self { data })
    }
}
impl<T: Serialize + SszSized + HashTreeRoot, const N: usize> HashTreeRoot for Vector<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        merkleize_chunks(seq_chunks(&self.data)?, chunk_limit::<T>(N))
    }
}
impl<T: SszSized + HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn compute_generalized_index(base: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
        match path.split_first() {
            None => Ok(base),
            Some((PathElement::Index(i), rest)) if *i < N => {
                let pos = if T::is_composite_type() { *i } else { *i * T::size_hint() / 32 };
                T::compute_generalized_index(base * chunk_limit::<T>(N).next_power_of_two() + pos, rest)
            }
            Some((e, _)) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for Vector<T, N> {}
impl<T: serde::Serialize, const N: usize> serde::Serialize for Vector<T, N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.data.iter())
    }
}
impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for Vector<T, N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Vec::<T>::deserialize(d)?;
        Vector::try_from(v).map_err(|(_, e)| serde::de::Error::custom(e))
    }
}

// ---------------------------------------------------------------- List
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct List<T, const N: usize> {
    data: Vec<T>,
}
impl<T: fmt::Debug, const N: usize> fmt::Debug for List<T, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "List<{N}>")?;
        f.debug_list().entries(self.data.iter()).finish()
    }
}
impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self {
        Self { data: vec![] }
    }
}
impl<T, const N: usize> List<T, N> {
    pub fn push(&mut self, v: T) {
        assert!(self.data.len() < N, "list is at capacity: {N}");
        self.data.push(v);
    }
    pub fn pop(&mut self) -> Option<T> {
        self.data.pop()
    }
    pub fn clear(&mut self) {
        self.data.clear()
    }
    pub fn truncate(&mut self, n: usize) {
        self.data.truncate(n)
    }
    pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> {
        self.data.drain(r)
    }
    pub fn remove(&mut self, i: usize) -> T {
        self.data.remove(i)
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
        self.data.retain(f)
    }
    pub fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for v in it {
            self.push(v)
        }
    }
    pub fn as_slice(&self) -> &[T] {
        &self.data
    }
}
impl<T, const N: usize> Deref for List<T, N> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.data
    }
}
impl<T, const N: usize> DerefMut for List<T, N> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.data
    }
}
impl<T, const N: usize> AsRef<[T]> for List<T, N> {
    fn as_ref(&self) -> &[T] {
        &self.data
    }
}
impl<T, I: SliceIndex<[T]>, const N: usize> Index<I> for List<T, N> {
    type Output = I::Output;
    fn index(&self, i: I) -> &Self::Output {
        &self.data[i]
    }
}
impl<T, I: SliceIndex<[T]>, const N: usize> IndexMut<I> for List<T, N> {
    fn index_mut(&mut self, i: I) -> &mut Self::Output {
        &mut self.data[i]
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for List<T, N> {
    type Error = (Vec<T>, Error);
    fn try_from(data: Vec<T>) -> Result<Self, Self::Error> {
        if data.len() > N {
            let provided = data.len();
            return Err((data, InstanceError::Bounded { bound: N, provided }.into()));
        }
        Ok(Self { data })
    }
}
impl<T: Clone, const N: usize> TryFrom<&[T]> for List<T, N> {
    type Error = Error;
    fn try_from(data: &[T]) -> Result<Self, Self::Error> {
        if data.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: data.len() }.into());
        }
        Ok(Self { data: data.to_vec() })
    }
}
impl<T, const N: usize> From<List<T, N>> for Vec<T> {
    fn from(v: List<T, N>) -> Self {
        v.data
    }
}
impl<'a, T, const N: usize> IntoIterator for &'a List<T, N> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.iter()
    }
}
impl<'a, T, const N: usize> IntoIterator for &'a mut List<T, N> {
    type Item = &'a mut T;
    type IntoIter = std::slice::IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.iter_mut()
    }
}
impl<T, const N: usize> IntoIterator for List<T, N> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.into_iter()
    }
}
impl<T, const N: usize> FromIterator<T> for List<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut l = Self::default();
        l.extend(it);
        l
    }
}
impl<T, const N: usize> SszSized for List<T, N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<T: Serialize + SszSized, const N: usize> Serialize for List<T, N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.data.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: self.data.len() }.into());
        }
        serialize_seq(&self.data, b)
    }
}
impl<T: Deserialize + SszSized, const N: usize> Deserialize for List<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        Ok(Self { data: deserialize_seq(e, N)? })
    }
}
impl<T: Serialize + SszSized + HashTreeRoot, const N: usize> HashTreeRoot for List<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let root = merkleize_chunks(seq_chunks(&self.data)?, chunk_limit::<T>(N))?;
        Ok(mix_in_length(root, self.data.len()))
    }
}
impl<T: SszSized + HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable for List<T, N> {
    fn compute_generalized_index(base: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
        match path.split_first() {
            None => Ok(base),
            Some((PathElement::Length, [])) => Ok(base * 2 + 1),
            Some((PathElement::Index(i), rest)) if *i < N => {
                let pos = if T::is_composite_type() { *i } else { *i * T::size_hint() / 32 };
                T::compute_generalized_index(
                    base * 2 * chunk_limit::<T>(N).next_power_of_two() + pos,
                    rest,
                )
            }
            Some((e, _)) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for List<T, N> {}
impl<T: serde::Serialize, const N: usize> serde::Serialize for List<T, N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.data.iter())
    }
}
impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for List<T, N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Vec::<T>::deserialize(d)?;
        List::try_from(v).map_err(|(_, e)| serde::de::Error::custom(e))
    }
}

// ---------------------------------------------------------------- arrays of bytes
impl<T: SszSized, const N: usize> SszSized for [T; N] {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint() * N
    }
}
impl<T: Serialize + SszSized, const N: usize> Serialize for [T; N] {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        serialize_seq(self, b)
    }
}
impl<T: Deserialize + SszSized, const N: usize> Deserialize for [T; N] {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let v: Vector<T, N> = Vector::deserialize(e)?;
        v.data.try_into().map_err(|_| DeserializeError::InvalidInput)
    }
}
impl<T: Serialize + SszSized + HashTreeRoot, const N: usize> HashTreeRoot for [T; N] {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        merkleize_chunks(seq_chunks(self)?, chunk_limit::<T>(N))
    }
}
impl<T: SszSized + HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable for [T; N] {
    fn compute_generalized_index(base: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
        Vector::<T, N>::compute_generalized_index(base, path)
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for [T; N] {}

// ---------------------------------------------------------------- bitfields
/// minimal stand-in for `bitvec::BitVec`, to which the real bitfields dereference
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Bits {
    bits: Vec<bool>,
}
#[derive(Clone, Copy)]
pub struct BitRef<'a>(&'a bool);
impl Deref for BitRef<'_> {
    type Target = bool;
    fn deref(&self) -> &bool {
        self.0
    }
}
impl BitRef<'_> {
    pub fn by_vals(self) -> bool {
        *self.0
    }
}
pub struct BitIter<'a>(std::slice::Iter<'a, bool>);
impl<'a> Iterator for BitIter<'a> {
    type Item = BitRef<'a>;
    fn next(&mut self) -> Option<BitRef<'a>> {
        self.0.next().map(BitRef)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl DoubleEndedIterator for BitIter<'_> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back().map(BitRef)
    }
}
impl ExactSizeIterator for BitIter<'_> {}
impl<'a> BitIter<'a> {
    pub fn by_vals(self) -> impl Iterator<Item = bool> + 'a {
        self.0.copied()
    }
}
impl Bits {
    pub fn len(&self) -> usize {
        self.bits.len()
    }
    pub fn capacity(&self) -> usize {
        self.bits.capacity()
    }
    pub fn is_empty(&self) -> bool {
        self.bits.is_empty()
    }
    pub fn get(&self, i: usize) -> Option<BitRef<'_>> {
        self.bits.get(i).map(BitRef)
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut bool> {
        self.bits.get_mut(i)
    }
    pub fn set(&mut self, i: usize, v: bool) {
        self.bits[i] = v
    }
    pub fn replace(&mut self, i: usize, v: bool) -> bool {
        std::mem::replace(&mut self.bits[i], v)
    }
    pub fn iter(&self) -> BitIter<'_> {
        BitIter(self.bits.iter())
    }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, bool> {
        self.bits.iter_mut()
    }
    pub fn iter_ones(&self) -> impl Iterator<Item = usize> + '_ {
        self.bits.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i)
    }
    pub fn iter_zeros(&self) -> impl Iterator<Item = usize> + '_ {
        self.bits.iter().enumerate().filter(|(_, b)| !**b).map(|(i, _)| i)
    }
    pub fn any(&self) -> bool {
        self.bits.iter().any(|b| *b)
    }
    pub fn all(&self) -> bool {
        self.bits.iter().all(|b| *b)
    }
    pub fn not_any(&self) -> bool {
        !self.any()
    }
    pub fn none(&self) -> bool {
        !self.any()
    }
    pub fn count_ones(&self) -> usize {
        self.iter_ones().count()
    }
    pub fn count_zeros(&self) -> usize {
        self.iter_zeros().count()
    }
    pub fn first_one(&self) -> Option<usize> {
        self.iter_ones().next()
    }
    pub fn last_one(&self) -> Option<usize> {
        self.iter_ones().last()
    }
    pub fn leading_zeros(&self) -> usize {
        self.first_one().unwrap_or(self.len())
    }
    pub fn fill(&mut self, v: bool) {
        self.bits.iter_mut().for_each(|b| *b = v)
    }
    pub fn copy_within<R: std::ops::RangeBounds<usize>>(&mut self, r: R, dest: usize) {
        self.bits.copy_within(r, dest)
    }
    /// `bitvec` semantics: bit `i` moves to `i + n`, low bits are cleared
    pub fn shift_right(&mut self, n: usize) {
        let len = self.bits.len();
        assert!(n < len.max(1) || n == 0);
        self.bits.rotate_right(n);
        self.bits[..n].fill(false);
    }
    pub fn shift_left(&mut self, n: usize) {
        let len = self.bits.len();
        self.bits.rotate_left(n);
        self.bits[len - n..].fill(false);
    }
    pub fn rotate_right(&mut self, n: usize) {
        self.bits.rotate_right(n)
    }
    pub fn rotate_left(&mut self, n: usize) {
        self.bits.rotate_left(n)
    }
    pub fn swap(&mut self, a: usize, b: usize) {
        self.bits.swap(a, b)
    }
    fn pack(&self) -> Vec<u8> {
        let mut out = vec![0u8; self.bits.len().div_ceil(8)];
        for i in self.iter_ones() {
            out[i / 8] |= 1 << (i % 8);
        }
        out
    }
    fn unpack(e: &[u8], n: usize) -> Self {
        Bits { bits: (0..n).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect() }
    }
}
impl Index<usize> for Bits {
    type Output = bool;
    fn index(&self, i: usize) -> &bool {
        &self.bits[i]
    }
}
macro_rules! bits_range_index {
    ($($t:ty),*) => {$(
        impl Index<$t> for Bits {
            type Output = BitSlice;
            fn index(&self, r: $t) -> &BitSlice { BitSlice::new(&self.bits[r]) }
        }
        impl IndexMut<$t> for Bits {
            fn index_mut(&mut self, r: $t) -> &mut BitSlice { BitSlice::new_mut(&mut self.bits[r]) }
        }
    )*};
}
bits_range_index!(
    std::ops::Range<usize>, std::ops::RangeTo<usize>, std::ops::RangeFrom<usize>,
    std::ops::RangeInclusive<usize>, std::ops::RangeToInclusive<usize>, std::ops::RangeFull
);
#[repr(transparent)]
pub struct BitSlice([bool]);
impl BitSlice {
    fn new(b: &[bool]) -> &Self {
        unsafe { &*(b as *const [bool] as *const BitSlice) }
    }
    fn new_mut(b: &mut [bool]) -> &mut Self {
        unsafe { &mut *(b as *mut [bool] as *mut BitSlice) }
    }
    pub fn all(&self) -> bool {
        self.0.iter().all(|b| *b)
    }
    pub fn any(&self) -> bool {
        self.0.iter().any(|b| *b)
    }
    pub fn not_any(&self) -> bool {
        !self.any()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn count_ones(&self) -> usize {
        self.0.iter().filter(|b| **b).count()
    }
    pub fn fill(&mut self, v: bool) {
        self.0.fill(v)
    }
    pub fn iter(&self) -> BitIter<'_> {
        BitIter(self.0.iter())
    }
    pub fn iter_ones(&self) -> impl Iterator<Item = usize> + '_ {
        self.0.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i)
    }
}

macro_rules! bitfield {
    ($name:ident) => {
        impl<const N: usize> Deref for $name<N> {
            type Target = Bits;
            fn deref(&self) -> &Bits {
                &self.0
            }
        }
        impl<const N: usize> DerefMut for $name<N> {
            fn deref_mut(&mut self) -> &mut Bits {
                &mut self.0
            }
        }
        impl<const N: usize> fmt::Debug for $name<N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, concat!(stringify!($name), "["))?;
                for b in self.0.iter() {
                    write!(f, "{}", *b as u8)?;
                }
                write!(f, "]")
            }
        }
        impl<const N: usize> serde::Serialize for $name<N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let mut b = vec![];
                Serialize::serialize(self, &mut b).map_err(serde::ser::Error::custom)?;
                s.collect_str(&format!("0x{}", hex::encode(b)))
            }
        }
        impl<'de, const N: usize> serde::Deserialize<'de> for $name<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = <String as serde::Deserialize>::deserialize(d)?;
                let b = hex::decode(s.strip_prefix("0x").unwrap_or(&s)).map_err(serde::de::Error::custom)?;
                <Self as Deserialize>::deserialize(&b).map_err(serde::de::Error::custom)
            }
        }
        impl<const N: usize> GeneralizedIndexable for $name<N> {
            fn compute_generalized_index(base: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
                leaf_path(base, path)
            }
        }
        impl<const N: usize> SimpleSerialize for $name<N> {}
        impl<'a, const N: usize> IntoIterator for &'a $name<N> {
            type Item = BitRef<'a>;
            type IntoIter = BitIter<'a>;
            fn into_iter(self) -> BitIter<'a> {
                self.0.iter()
            }
        }
        impl<const N: usize> TryFrom<&[u8]> for $name<N> {
            type Error = DeserializeError;
            fn try_from(b: &[u8]) -> Result<Self, Self::Error> {
                <Self as Deserialize>::deserialize(b)
            }
        }
    };
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Bitvector<const N: usize>(Bits);
bitfield!(Bitvector);
impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self {
        Self(Bits { bits: vec![false; N] })
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitvector<N> {
    type Error = Error;
    fn try_from(b: &[bool]) -> Result<Self, Error> {
        if b.len() != N {
            return Err(InstanceError::Exact { required: N, provided: b.len() }.into());
        }
        Ok(Self(Bits { bits: b.to_vec() }))
    }
}
impl<const N: usize> SszSized for Bitvector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N.div_ceil(8)
    }
}
impl<const N: usize> Serialize for Bitvector<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend_from_slice(&self.0.pack());
        Ok(N.div_ceil(8))
    }
}
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact_len(e, N.div_ceil(8))?;
        if N % 8 != 0 && e[N / 8] >> (N % 8) != 0 {
            return Err(DeserializeError::InvalidByte(e[N / 8]));
        }
        Ok(Self(Bits::unpack(e, N)))
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        merkleize_chunks(pack_bytes(&self.0.pack()), N.div_ceil(256))
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Bitlist<const N: usize>(Bits);
bitfield!(Bitlist);
impl<const N: usize> Bitlist<N> {
    pub fn push(&mut self, v: bool) {
        assert!(self.0.bits.len() < N, "list is at capacity: {N}");
        self.0.bits.push(v)
    }
    pub fn pop(&mut self) -> Option<bool> {
        self.0.bits.pop()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
    pub fn clear(&mut self) {
        self.0.bits.clear()
    }
    pub fn extend<I: IntoIterator<Item = bool>>(&mut self, it: I) {
        for b in it {
            self.push(b)
        }
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitlist<N> {
    type Error = Error;
    fn try_from(b: &[bool]) -> Result<Self, Error> {
        if b.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: b.len() }.into());
        }
        Ok(Self(Bits { bits: b.to_vec() }))
    }
}
impl<const N: usize> TryFrom<Vec<bool>> for Bitlist<N> {
    type Error = Error;
    fn try_from(b: Vec<bool>) -> Result<Self, Error> {
        Self::try_from(b.as_slice())
    }
}
impl<const N: usize> FromIterator<bool> for Bitlist<N> {
    fn from_iter<I: IntoIterator<Item = bool>>(it: I) -> Self {
        let mut l = Self::default();
        l.extend(it);
        l
    }
}
impl<const N: usize> SszSized for Bitlist<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.0.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: self.0.len() }.into());
        }
        let mut bits = self.0.clone();
        bits.bits.push(true);
        let enc = bits.pack();
        b.extend_from_slice(&enc);
        Ok(enc.len())
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let last = *e
            .last()
            .ok_or(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 })?;
        if last == 0 {
            return Err(DeserializeError::InvalidByte(0));
        }
        let n = (e.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
        if n > N {
            return Err(InstanceError::Bounded { bound: N, provided: n }.into());
        }
        Ok(Self(Bits::unpack(e, n)))
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let root = merkleize_chunks(pack_bytes(&self.0.pack()), N.div_ceil(256))?;
        Ok(mix_in_length(root, self.0.len()))
    }
}

// ---------------------------------------------------------------- Node (alloy's B256 upstream)
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
pub struct Node(pub [u8; 32]);
impl Node {
    pub const ZERO: Self = Node([0; 32]);
    pub fn zero() -> Self {
        Self::ZERO
    }
    pub const fn new(b: [u8; 32]) -> Self {
        Node(b)
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn from_slice(b: &[u8]) -> Self {
        Node(b.try_into().expect("slice of 32 bytes"))
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 32]
    }
    pub fn repeat_byte(b: u8) -> Self {
        Node([b; 32])
    }
}
impl Deref for Node {
    type Target = [u8; 32];
    fn deref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl DerefMut for Node {
    fn deref_mut(&mut self) -> &mut [u8; 32] {
        &mut self.0
    }
}
impl AsRef<[u8]> for Node {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Node {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl From<[u8; 32]> for Node {
    fn from(b: [u8; 32]) -> Self {
        Node(b)
    }
}
impl From<Node> for [u8; 32] {
    fn from(n: Node) -> Self {
        n.0
    }
}
impl TryFrom<&[u8]> for Node {
    type Error = std::array::TryFromSliceError;
    fn try_from(b: &[u8]) -> Result<Self, Self::Error> {
        Ok(Node(b.try_into()?))
    }
}
impl fmt::Debug for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl fmt::Display for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}…{}", hex::encode(&self.0[..2]), hex::encode(&self.0[30..]))
    }
}
impl fmt::LowerHex for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            write!(f, "0x")?;
        }
        write!(f, "{}", hex::encode(self.0))
    }
}
impl std::str::FromStr for Node {
    type Err = hex::FromHexError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let mut b = [0u8; 32];
        hex::decode_to_slice(s.strip_prefix("0x").unwrap_or(s), &mut b)?;
        Ok(Node(b))
    }
}
impl SszSized for Node {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl Serialize for Node {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend_from_slice(&self.0);
        Ok(32)
    }
}
impl Deserialize for Node {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact_len(e, 32)?;
        Ok(Node(e.try_into().unwrap()))
    }
}
impl HashTreeRoot for Node {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(*self)
    }
}
impl GeneralizedIndexable for Node {
    fn compute_generalized_index(base: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
        leaf_path(base, path)
    }
}
impl SimpleSerialize for Node {}
impl serde::Serialize for Node {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format!("0x{}", hex::encode(self.0)))
    }
}
impl<'de> serde::Deserialize<'de> for Node {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}

// ---------------------------------------------------------------- generalized indices and proofs
pub type GeneralizedIndex = usize;
pub type Path<'a> = &'a [PathElement];
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement {
    Field(String),
    Index(usize),
    Length,
}
impl From<&str> for PathElement {
    fn from(s: &str) -> Self {
        PathElement::Field(s.to_string())
    }
}
impl From<String> for PathElement {
    fn from(s: String) -> Self {
        PathElement::Field(s)
    }
}
impl From<usize> for PathElement {
    fn from(i: usize) -> Self {
        PathElement::Index(i)
    }
}
pub trait GeneralizedIndexable {
    fn compute_generalized_index(
        base: GeneralizedIndex,
        path: &[PathElement],
    ) -> Result<GeneralizedIndex, MerkleizationError>;
    fn generalized_index(path: &[PathElement]) -> Result<GeneralizedIndex, MerkleizationError> {
        Self::compute_generalized_index(1, path)
    }
}

pub mod proofs {
    use super::*;
    pub fn log_2(x: usize) -> Option<u32> {
        x.checked_ilog2()
    }
    pub fn get_depth(i: GeneralizedIndex) -> Result<u32, MerkleizationError> {
        log_2(i).ok_or(MerkleizationError::InvalidGeneralizedIndex)
    }
    pub fn get_subtree_index(i: GeneralizedIndex) -> Result<usize, MerkleizationError> {
        let d = get_depth(i)?;
        Ok(i % (1usize << d))
    }
    pub fn is_valid_merkle_branch_for_generalized_index<T: AsRef<[u8]>>(
        leaf: Node,
        branch: &[T],
        i: GeneralizedIndex,
        root: Node,
    ) -> Result<(), MerkleizationError> {
        is_valid_merkle_branch(leaf, branch, get_depth(i)? as usize, get_subtree_index(i)?, root)
    }
    pub fn is_valid_merkle_branch<T: AsRef<[u8]>>(
        leaf: Node,
        branch: &[T],
        depth: usize,
        index: usize,
        root: Node,
    ) -> Result<(), MerkleizationError> {
        if branch.len() != depth {
            return Err(MerkleizationError::InvalidProof);
        }
        let mut value = leaf;
        for (i, n) in branch.iter().enumerate() {
            let n = Node::try_from(n.as_ref()).map_err(|_| MerkleizationError::InvalidProof)?;
            value = if (index >> i) & 1 == 1 { hash2(&n, &value) } else { hash2(&value, &n) };
        }
        if value == root {
            Ok(())
        } else {
            Err(MerkleizationError::InvalidProof)
        }
    }
}
pub mod merkleization {
    pub use super::{proofs, MerkleizationError, Node};
}

pub mod prelude {
    pub use crate as ssz_rs;
    pub use crate::{
        deserialize,
        proofs::is_valid_merkle_branch,
        serialize, Bitlist, Bitvector, Deserialize, DeserializeError, Error as SimpleSerializeError,
        GeneralizedIndex, GeneralizedIndexable, HashTreeRoot, InstanceError, List,
        MerkleizationError, Node, Path, PathElement, Serializable, Serialize, SerializeError,
        SimpleSerialize, TypeError, Vector, U256,
    };
}
