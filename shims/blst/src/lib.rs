//! Stand-in for `blst`.  Group elements are represented by their discrete logarithms, so
//! aggregation is addition and verification is an equation in the scalar field.  The relations a
//! caller can observe (which key signed which message, aggregation, infinity, invalid encodings)
//! are those of the genuine scheme; unforgeability is not modelled (no check tries to forge).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum BLST_ERROR {
    BLST_SUCCESS = 0,
    BLST_BAD_ENCODING = 1,
    BLST_POINT_NOT_ON_CURVE = 2,
    BLST_POINT_NOT_IN_GROUP = 3,
    BLST_AGGR_TYPE_MISMATCH = 4,
    BLST_VERIFY_FAIL = 5,
    BLST_PK_IS_INFINITY = 6,
    BLST_BAD_SCALAR = 7,
}

pub mod min_pk {
    use super::BLST_ERROR::{self, *};
    use hkdf::Hkdf;
    use sha2::{Digest, Sha256};
    use vfr::{decode_any, encode_off_group, encode_point, Fr, PointError};

    fn perr(e: PointError) -> BLST_ERROR {
        match e {
            PointError::BadEncoding => BLST_BAD_ENCODING,
            PointError::NotOnCurve => BLST_POINT_NOT_ON_CURVE,
        }
    }
    fn h(msg: &[u8], dst: &[u8], aug: &[u8]) -> Fr {
        Fr::hash(&[b"hash-to-curve", dst, aug, msg])
    }
    fn hkdf_mod_r(ikm: &[u8], info: &[u8]) -> Fr {
        let mut salt = Sha256::digest(b"BLS-SIG-KEYGEN-SALT-");
        let mut i = ikm.to_vec();
        i.push(0);
        let mut inf = info.to_vec();
        inf.extend_from_slice(&[0, 48]);
        loop {
            let mut okm = [0u8; 48];
            Hkdf::<Sha256>::new(Some(&salt), &i).expand(&inf, &mut okm).unwrap();
            let k = Fr::reduce_be(&okm);
            if !k.is_zero() {
                return k;
            }
            salt = Sha256::digest(salt);
        }
    }

    #[derive(Clone, Default, Debug)]
    pub struct SecretKey(Fr);
    impl SecretKey {
        pub fn key_gen(ikm: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(Self(hkdf_mod_r(ikm, info)))
        }
        pub fn key_gen_v3(ikm: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::key_gen(ikm, info)
        }
        pub fn derive_master_eip2333(ikm: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(Self(hkdf_mod_r(ikm, &[])))
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            match Fr::from_be(b) {
                Some(x) if !x.is_zero() => Ok(Self(x)),
                _ => Err(BLST_BAD_ENCODING),
            }
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0.to_be()
        }
        pub fn serialize(&self) -> [u8; 32] {
            self.0.to_be()
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey(self.0, false)
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            Signature(self.0.mul(&h(msg, dst, aug)), false)
        }
    }

    #[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
    pub struct PublicKey(Fr, bool);
    impl PublicKey {
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            if self.0.is_zero() {
                return Err(BLST_PK_IS_INFINITY);
            }
            if self.1 {
                return Err(BLST_POINT_NOT_IN_GROUP);
            }
            Ok(())
        }
        pub fn key_validate(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let pk = Self::from_bytes(b)?;
            pk.validate()?;
            Ok(pk)
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            decode_any::<48>(b"pk", b).map(|(x, t)| Self(x, t)).map_err(perr)
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn to_bytes(&self) -> [u8; 48] {
            match self.1 {
                true => encode_off_group::<48>(b"pk", &self.0),
                false => encode_point::<48>(b"pk", &self.0),
            }
        }
        pub fn compress(&self) -> [u8; 48] {
            self.to_bytes()
        }
        pub fn from_aggregate(a: &AggregatePublicKey) -> Self {
            a.to_public_key()
        }
    }

    #[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
    pub struct Signature(Fr, bool);
    impl Signature {
        pub fn validate(&self, sig_infcheck: bool) -> Result<(), BLST_ERROR> {
            if sig_infcheck && self.0.is_zero() {
                return Err(BLST_PK_IS_INFINITY);
            }
            if self.1 {
                return Err(BLST_POINT_NOT_IN_GROUP);
            }
            Ok(())
        }
        pub fn sig_validate(b: &[u8], inf: bool) -> Result<Self, BLST_ERROR> {
            let s = Self::from_bytes(b)?;
            s.validate(inf)?;
            Ok(s)
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            decode_any::<96>(b"sig", b).map(|(x, t)| Self(x, t)).map_err(perr)
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn to_bytes(&self) -> [u8; 96] {
            match self.1 {
                true => encode_off_group::<96>(b"sig", &self.0),
                false => encode_point::<96>(b"sig", &self.0),
            }
        }
        pub fn compress(&self) -> [u8; 96] {
            self.to_bytes()
        }
        pub fn verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            aug: &[u8],
            pk: &PublicKey,
            pk_validate: bool,
        ) -> BLST_ERROR {
            if sig_groupcheck && self.1 {
                return BLST_POINT_NOT_IN_GROUP;
            }
            if pk_validate {
                if let Err(e) = pk.validate() {
                    return e;
                }
            }
            if pk.0.is_zero() {
                return BLST_PK_IS_INFINITY;
            }
            if self.0 == pk.0.mul(&h(msg, dst, aug)) {
                BLST_SUCCESS
            } else {
                BLST_VERIFY_FAIL
            }
        }
        pub fn aggregate_verify(
            &self,
            sig_groupcheck: bool,
            msgs: &[&[u8]],
            dst: &[u8],
            pks: &[&PublicKey],
            pks_validate: bool,
        ) -> BLST_ERROR {
            if sig_groupcheck && self.1 {
                return BLST_POINT_NOT_IN_GROUP;
            }
            if pks.is_empty() || msgs.len() != pks.len() {
                return BLST_VERIFY_FAIL;
            }
            let mut acc = Fr::ZERO;
            for (m, pk) in msgs.iter().zip(pks) {
                if pks_validate {
                    if let Err(e) = pk.validate() {
                        return e;
                    }
                }
                if pk.0.is_zero() {
                    return BLST_PK_IS_INFINITY;
                }
                acc = acc.add(&pk.0.mul(&h(m, dst, &[])));
            }
            if self.0 == acc {
                BLST_SUCCESS
            } else {
                BLST_VERIFY_FAIL
            }
        }
        pub fn fast_aggregate_verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            pks: &[&PublicKey],
        ) -> BLST_ERROR {
            match AggregatePublicKey::aggregate(pks, false) {
                Ok(a) => self.aggregate_verify(sig_groupcheck, &[msg], dst, &[&a.to_public_key()], false),
                Err(e) => e,
            }
        }
        pub fn from_aggregate(a: &AggregateSignature) -> Self {
            a.to_signature()
        }
    }

    #[derive(Clone, Copy, Debug)]
    pub struct AggregatePublicKey(Fr, bool);
    impl AggregatePublicKey {
        pub fn aggregate(pks: &[&PublicKey], validate: bool) -> Result<Self, BLST_ERROR> {
            if pks.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            let mut acc = Self(Fr::ZERO, false);
            for pk in pks {
                acc.add_public_key(pk, validate)?;
            }
            Ok(acc)
        }
        pub fn from_public_key(pk: &PublicKey) -> Self {
            Self(pk.0, pk.1)
        }
        pub fn add_public_key(&mut self, pk: &PublicKey, validate: bool) -> Result<(), BLST_ERROR> {
            if validate {
                pk.validate()?;
            }
            self.0 = self.0.add(&pk.0);
            self.1 ^= pk.1;
            Ok(())
        }
        pub fn to_public_key(&self) -> PublicKey {
            PublicKey(self.0, self.1)
        }
    }

    #[derive(Clone, Copy, Debug)]
    pub struct AggregateSignature(Fr, bool);
    impl AggregateSignature {
        pub fn aggregate(sigs: &[&Signature], groupcheck: bool) -> Result<Self, BLST_ERROR> {
            if sigs.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            let mut acc = Self(Fr::ZERO, false);
            for s in sigs {
                acc.add_signature(s, groupcheck)?;
            }
            Ok(acc)
        }
        pub fn from_signature(s: &Signature) -> Self {
            Self(s.0, s.1)
        }
        pub fn add_signature(&mut self, s: &Signature, groupcheck: bool) -> Result<(), BLST_ERROR> {
            if groupcheck && s.1 {
                return Err(BLST_POINT_NOT_IN_GROUP);
            }
            self.0 = self.0.add(&s.0);
            self.1 ^= s.1;
            Ok(())
        }
        pub fn to_signature(&self) -> Signature {
            Signature(self.0, self.1)
        }
    }
}
