//! Stand-in for `c-kzg`: polynomials over the genuine scalar field in the genuine evaluation form
//! (bit-reversed roots of unity); a commitment is the encoding of p(tau) for a fixed tau.
use std::{
    fmt,
    sync::{Arc, OnceLock},
};
use vfr::{decode_point, encode_point, Fr};

pub const BYTES_PER_FIELD_ELEMENT: usize = 32;
pub const FIELD_ELEMENTS_PER_BLOB: usize = 4096;
pub const BYTES_PER_BLOB: usize = BYTES_PER_FIELD_ELEMENT * FIELD_ELEMENTS_PER_BLOB;
pub const BYTES_PER_COMMITMENT: usize = 48;
pub const BYTES_PER_PROOF: usize = 48;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    InvalidBytesLength(String),
    InvalidHexFormat(String),
    MismatchLength(String),
    BadArgs(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

macro_rules! bytes {
    ($($t:ident : $n:expr),*) => {$(
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $t { bytes: [u8; $n] }
        impl $t {
            pub fn new(bytes: [u8; $n]) -> Self { Self { bytes } }
            pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
                Ok(Self { bytes: b.try_into().map_err(|_| Error::InvalidBytesLength(format!("expected {} got {}", $n, b.len())))? })
            }
            pub fn into_inner(self) -> [u8; $n] { self.bytes }
            pub fn as_slice(&self) -> &[u8] { &self.bytes }
        }
        impl From<[u8; $n]> for $t { fn from(bytes: [u8; $n]) -> Self { Self { bytes } } }
        impl std::ops::Deref for $t { type Target = [u8]; fn deref(&self) -> &[u8] { &self.bytes } }
        impl AsRef<[u8]> for $t { fn as_ref(&self) -> &[u8] { &self.bytes } }
    )*};
}
bytes!(Bytes32: 32, Bytes48: 48, KzgCommitment: 48, KzgProof: 48);
impl KzgCommitment {
    pub fn to_bytes(&self) -> Bytes48 {
        Bytes48::new(self.bytes)
    }
}
impl KzgProof {
    pub fn to_bytes(&self) -> Bytes48 {
        Bytes48::new(self.bytes)
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct Blob {
    bytes: Box<[u8]>,
}
impl Blob {
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        if b.len() != BYTES_PER_BLOB {
            return Err(Error::InvalidBytesLength(format!("blob of {} bytes", b.len())));
        }
        Ok(Self { bytes: b.into() })
    }
    fn poly(&self) -> Result<Vec<Fr>, Error> {
        self.bytes
            .chunks(32)
            .map(|c| Fr::from_be(c).ok_or_else(|| Error::BadArgs("field element".into())))
            .collect()
    }
}
impl AsRef<[u8]> for Blob {
    fn as_ref(&self) -> &[u8] {
        &self.bytes
    }
}

#[derive(Debug)]
pub struct KzgSettings {
    roots: Vec<Fr>,
    tau: Fr,
    lagrange_tau: Vec<Fr>,
}

pub fn ethereum_kzg_settings(_precompute: u64) -> &'static KzgSettings {
    static S: OnceLock<Arc<KzgSettings>> = OnceLock::new();
    S.get_or_init(|| Arc::new(KzgSettings::build()))
}
pub fn ethereum_kzg_settings_arc(_precompute: u64) -> Arc<KzgSettings> {
    static S: OnceLock<Arc<KzgSettings>> = OnceLock::new();
    S.get_or_init(|| Arc::new(KzgSettings::build())).clone()
}

fn point(b: &Bytes48) -> Result<Fr, Error> {
    decode_point::<48>(b"kzg", &b.bytes).map_err(|_| Error::BadArgs("invalid point".into()))
}
fn field(b: &Bytes32) -> Result<Fr, Error> {
    Fr::from_be(&b.bytes).ok_or_else(|| Error::BadArgs("invalid field element".into()))
}

impl KzgSettings {
    fn build() -> Self {
        let n = FIELD_ELEMENTS_PER_BLOB;
        let w = Fr::root_of_unity(n as u64);
        let mut pows = vec![Fr::ONE];
        for i in 1..n {
            pows.push(pows[i - 1].mul(&w));
        }
        let bits = n.trailing_zeros();
        let roots: Vec<Fr> =
            (0..n).map(|i| pows[((i as u32).reverse_bits() >> (32 - bits)) as usize]).collect();
        let tau = Fr::hash(&[b"trusted setup stand-in"]);
        let mut s = Self { roots, tau, lagrange_tau: vec![] };
        s.lagrange_tau = s.lagrange(&tau);
        s
    }
    /// L_i(x) for x outside the domain
    fn lagrange(&self, x: &Fr) -> Vec<Fr> {
        let n = self.roots.len();
        let zx = x.pow([n as u64, 0, 0, 0]).sub(&Fr::ONE).mul(&Fr::from_u64(n as u64).inv());
        // batch inversion
        let d: Vec<Fr> = self.roots.iter().map(|w| x.sub(w)).collect();
        let mut pre = vec![Fr::ONE];
        for v in &d {
            pre.push(pre.last().unwrap().mul(v));
        }
        let mut inv = pre[n].inv();
        let mut out = vec![Fr::ZERO; n];
        for i in (0..n).rev() {
            out[i] = inv.mul(&pre[i]).mul(&self.roots[i]).mul(&zx);
            inv = inv.mul(&d[i]);
        }
        out
    }
    fn eval(&self, p: &[Fr], x: &Fr) -> Fr {
        if let Some(i) = self.roots.iter().position(|w| w == x) {
            return p[i];
        }
        let l = if *x == self.tau { self.lagrange_tau.clone() } else { self.lagrange(x) };
        p.iter().zip(&l).fold(Fr::ZERO, |a, (p, l)| a.add(&p.mul(l)))
    }
    fn quotient(&self, p: &[Fr], z: &Fr) -> (Fr, Fr) {
        let y = self.eval(p, z);
        let pt = self.eval(p, &self.tau);
        (pt.sub(&y).mul(&self.tau.sub(z).inv()), y)
    }
    fn challenge(blob: &Blob, c: &[u8]) -> Fr {
        Fr::hash(&[b"FSBLOBVERIFY_V1_", &blob.bytes, c])
    }
    pub fn blob_to_kzg_commitment(&self, blob: &Blob) -> Result<KzgCommitment, Error> {
        let p = blob.poly()?;
        Ok(KzgCommitment::new(encode_point::<48>(b"kzg", &self.eval(&p, &self.tau))))
    }
    pub fn compute_kzg_proof(&self, blob: &Blob, z: &Bytes32) -> Result<(KzgProof, Bytes32), Error> {
        let (q, y) = self.quotient(&blob.poly()?, &field(z)?);
        Ok((KzgProof::new(encode_point::<48>(b"kzg", &q)), Bytes32::new(y.to_be())))
    }
    pub fn compute_blob_kzg_proof(&self, blob: &Blob, c: &Bytes48) -> Result<KzgProof, Error> {
        point(c)?;
        let (q, _) = self.quotient(&blob.poly()?, &Self::challenge(blob, &c.bytes));
        Ok(KzgProof::new(encode_point::<48>(b"kzg", &q)))
    }
    pub fn verify_kzg_proof(&self, c: &Bytes48, z: &Bytes32, y: &Bytes32, proof: &Bytes48) -> Result<bool, Error> {
        let (c, z, y, q) = (point(c)?, field(z)?, field(y)?, point(proof)?);
        Ok(c.sub(&y) == q.mul(&self.tau.sub(&z)))
    }
    pub fn verify_blob_kzg_proof(&self, blob: &Blob, c: &Bytes48, proof: &Bytes48) -> Result<bool, Error> {
        let z = Self::challenge(blob, &c.bytes);
        let y = self.eval(&blob.poly()?, &z);
        self.verify_kzg_proof(c, &Bytes32::new(z.to_be()), &Bytes32::new(y.to_be()), proof)
    }
    pub fn verify_blob_kzg_proof_batch(&self, blobs: &[Blob], cs: &[Bytes48], proofs: &[Bytes48]) -> Result<bool, Error> {
        if blobs.len() != cs.len() || blobs.len() != proofs.len() {
            return Err(Error::MismatchLength(format!("{} {} {}", blobs.len(), cs.len(), proofs.len())));
        }
        let mut ok = true;
        for i in 0..blobs.len() {
            ok &= self.verify_blob_kzg_proof(&blobs[i], &cs[i], &proofs[i])?;
        }
        Ok(ok)
    }
}
