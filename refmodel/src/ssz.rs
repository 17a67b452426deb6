//! Schema-driven SSZ: types and values are data, so every container of the specification is one table entry.
use sha2::{Digest, Sha256};
use std::sync::{Arc, OnceLock};

pub type H = [u8; 32];

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    U8,
    U64,
    U256,
    /// Vector[byte, n]
    Bytes(usize),
    /// List[byte, n]
    ByteList(usize),
    Vector(Arc<Ty>, usize),
    List(Arc<Ty>, usize),
    Bitvector(usize),
    Bitlist(usize),
    Cont(Arc<ContTy>),
}
#[derive(Debug)]
pub struct ContTy {
    pub name: String,
    pub fields: Vec<(String, Ty)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Value {
    Bool(bool),
    U(u64),
    U256(H),
    Bytes(Vec<u8>),
    Seq(Vec<Value>),
    Bits(Vec<bool>),
    Cont(Vec<Value>),
}

pub fn vector(t: Ty, n: usize) -> Ty {
    Ty::Vector(Arc::new(t), n)
}
pub fn list(t: Ty, n: usize) -> Ty {
    Ty::List(Arc::new(t), n)
}

impl Ty {
    /// byte length when fixed-size
    pub fn fixed(&self) -> Option<usize> {
        Some(match self {
            Ty::Bool | Ty::U8 => 1,
            Ty::U64 => 8,
            Ty::U256 => 32,
            Ty::Bytes(n) => *n,
            Ty::Vector(t, n) => t.fixed()? * n,
            Ty::Bitvector(n) => n.div_ceil(8),
            Ty::Cont(c) => {
                let mut s = 0;
                for (_, t) in &c.fields {
                    s += t.fixed()?;
                }
                s
            }
            Ty::ByteList(_) | Ty::List(..) | Ty::Bitlist(_) => return None,
        })
    }
    pub fn cont(&self) -> &ContTy {
        match self {
            Ty::Cont(c) => c,
            _ => panic!("not a container: {self:?}"),
        }
    }
    pub fn field(&self, name: &str) -> Option<(usize, &Ty)> {
        let c = self.cont();
        c.fields.iter().position(|f| f.0 == name).map(|i| (i, &c.fields[i].1))
    }
    pub fn elem(&self) -> &Ty {
        match self {
            Ty::List(t, _) | Ty::Vector(t, _) => t,
            _ => panic!("no element type"),
        }
    }
    pub fn limit(&self) -> usize {
        match self {
            Ty::List(_, n) | Ty::Vector(_, n) | Ty::Bytes(n) | Ty::ByteList(n) | Ty::Bitlist(n) | Ty::Bitvector(n) => *n,
            _ => panic!("no limit"),
        }
    }
}

pub fn encode(v: &Value, t: &Ty) -> Vec<u8> {
    let mut o = vec![];
    enc(v, t, &mut o);
    o
}
fn enc_parts(parts: &[(&Value, &Ty)], o: &mut Vec<u8>) {
    let fixed: usize = parts.iter().map(|(_, t)| t.fixed().unwrap_or(4)).sum();
    let mut tail = vec![];
    for (v, t) in parts {
        if t.fixed().is_some() {
            enc(v, t, o);
        } else {
            o.extend_from_slice(&((fixed + tail.len()) as u32).to_le_bytes());
            enc(v, t, &mut tail);
        }
    }
    o.extend_from_slice(&tail);
}
fn enc(v: &Value, t: &Ty, o: &mut Vec<u8>) {
    match (v, t) {
        (Value::Bool(b), Ty::Bool) => o.push(*b as u8),
        (Value::U(x), Ty::U8) => o.push(*x as u8),
        (Value::U(x), Ty::U64) => o.extend_from_slice(&x.to_le_bytes()),
        (Value::U256(x), Ty::U256) => o.extend_from_slice(x),
        (Value::Bytes(b), Ty::Bytes(n)) => {
            assert_eq!(b.len(), *n);
            o.extend_from_slice(b)
        }
        (Value::Bytes(b), Ty::ByteList(_)) => o.extend_from_slice(b),
        (Value::Seq(xs), Ty::Vector(e, _) | Ty::List(e, _)) => {
            if e.fixed().is_some() {
                for x in xs {
                    enc(x, e, o);
                }
            } else {
                enc_parts(&xs.iter().map(|x| (x, &**e)).collect::<Vec<_>>(), o)
            }
        }
        (Value::Bits(b), Ty::Bitvector(n)) => {
            assert_eq!(b.len(), *n);
            let mut out = vec![0u8; n.div_ceil(8)];
            for (i, x) in b.iter().enumerate() {
                if *x {
                    out[i / 8] |= 1 << (i % 8);
                }
            }
            o.extend_from_slice(&out);
        }
        (Value::Bits(b), Ty::Bitlist(_)) => {
            let mut out = vec![0u8; b.len() / 8 + 1];
            for (i, x) in b.iter().enumerate() {
                if *x {
                    out[i / 8] |= 1 << (i % 8);
                }
            }
            out[b.len() / 8] |= 1 << (b.len() % 8);
            o.extend_from_slice(&out);
        }
        (Value::Cont(fs), Ty::Cont(c)) => {
            assert_eq!(fs.len(), c.fields.len());
            enc_parts(&fs.iter().zip(c.fields.iter()).map(|(v, f)| (v, &f.1)).collect::<Vec<_>>(), o)
        }
        (v, t) => panic!("value {v:?} does not fit type {t:?}"),
    }
}

pub type Dec<T> = Result<T, String>;

pub fn decode(b: &[u8], t: &Ty) -> Dec<Value> {
    Ok(match t {
        Ty::Bool => match b {
            [0] => Value::Bool(false),
            [1] => Value::Bool(true),
            _ => return Err("bad bool".into()),
        },
        Ty::U8 => {
            if b.len() != 1 {
                return Err("bad u8".into());
            }
            Value::U(b[0] as u64)
        }
        Ty::U64 => Value::U(u64::from_le_bytes(b.try_into().map_err(|_| "bad u64 length".to_string())?)),
        Ty::U256 => Value::U256(b.try_into().map_err(|_| "bad u256 length".to_string())?),
        Ty::Bytes(n) => {
            if b.len() != *n {
                return Err("bad byte vector length".into());
            }
            Value::Bytes(b.to_vec())
        }
        Ty::ByteList(n) => {
            if b.len() > *n {
                return Err("byte list too long".into());
            }
            Value::Bytes(b.to_vec())
        }
        Ty::Vector(e, n) => Value::Seq(dec_seq(b, e, Some(*n), *n)?),
        Ty::List(e, n) => Value::Seq(dec_seq(b, e, None, *n)?),
        Ty::Bitvector(n) => {
            if b.len() != n.div_ceil(8) {
                return Err("bad bitvector length".into());
            }
            for i in *n..b.len() * 8 {
                if b[i / 8] >> (i % 8) & 1 == 1 {
                    return Err("excess bits".into());
                }
            }
            Value::Bits((0..*n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
        }
        Ty::Bitlist(n) => {
            let last = *b.last().ok_or("empty bitlist")?;
            if last == 0 {
                return Err("no delimiter".into());
            }
            let len = (b.len() - 1) * 8 + 7 - last.leading_zeros() as usize;
            if len > *n {
                return Err("bitlist too long".into());
            }
            Value::Bits((0..len).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
        }
        Ty::Cont(c) => {
            let head: usize = c.fields.iter().map(|f| f.1.fixed().unwrap_or(4)).sum();
            if b.len() < head {
                return Err("container too short".into());
            }
            let mut offs = vec![];
            let mut p = 0;
            for (_, t) in &c.fields {
                if let Some(n) = t.fixed() {
                    p += n;
                } else {
                    offs.push(u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as usize);
                    p += 4;
                }
            }
            if offs.is_empty() && b.len() != head {
                return Err("extra bytes".into());
            }
            if !offs.is_empty() && offs[0] != head {
                return Err("bad first offset".into());
            }
            offs.push(b.len());
            for w in offs.windows(2) {
                if w[0] > w[1] {
                    return Err("offsets not sorted".into());
                }
            }
            let mut out = vec![];
            let mut p = 0;
            let mut k = 0;
            for (_, t) in &c.fields {
                if let Some(n) = t.fixed() {
                    out.push(decode(&b[p..p + n], t)?);
                    p += n;
                } else {
                    out.push(decode(&b[offs[k]..offs[k + 1]], t)?);
                    p += 4;
                    k += 1;
                }
            }
            Value::Cont(out)
        }
    })
}
fn dec_seq(b: &[u8], e: &Ty, exact: Option<usize>, limit: usize) -> Dec<Vec<Value>> {
    if let Some(n) = e.fixed() {
        if b.len() % n != 0 {
            return Err("bad sequence length".into());
        }
        let k = b.len() / n;
        if exact.is_some_and(|x| x != k) || k > limit {
            return Err("bad element count".into());
        }
        return b.chunks(n).map(|c| decode(c, e)).collect();
    }
    if b.is_empty() {
        return if exact.unwrap_or(0) == 0 { Ok(vec![]) } else { Err("empty vector".into()) };
    }
    if b.len() < 4 {
        return Err("short offsets".into());
    }
    let first = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    if first % 4 != 0 || first == 0 || first > b.len() {
        return Err("bad first offset".into());
    }
    let k = first / 4;
    if exact.is_some_and(|x| x != k) || k > limit {
        return Err("bad element count".into());
    }
    let mut offs: Vec<usize> = (0..k).map(|i| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) as usize).collect();
    offs.push(b.len());
    let mut out = vec![];
    for w in offs.windows(2) {
        if w[0] > w[1] || w[1] > b.len() {
            return Err("offsets not sorted".into());
        }
        out.push(decode(&b[w[0]..w[1]], e)?);
    }
    Ok(out)
}

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn hash2(a: &H, b: &H) -> H {
    let mut x = [0u8; 64];
    x[..32].copy_from_slice(a);
    x[32..].copy_from_slice(b);
    Sha256::digest(x).into()
}
pub fn zero_hash(d: usize) -> H {
    static Z: OnceLock<Vec<H>> = OnceLock::new();
    Z.get_or_init(|| {
        let mut v = vec![[0u8; 32]];
        for i in 0..64 {
            let x = hash2(&v[i], &v[i]);
            v.push(x);
        }
        v
    })[d]
}
/// smallest d with 2^d >= n
pub fn depth(n: usize) -> usize {
    if n <= 1 {
        0
    } else {
        (usize::BITS - (n - 1).leading_zeros()) as usize
    }
}
pub fn merkleize(mut layer: Vec<H>, limit: usize) -> H {
    let d = depth(limit);
    assert!(layer.len() <= limit.max(1));
    if layer.is_empty() {
        return zero_hash(d);
    }
    for i in 0..d {
        if layer.len() % 2 == 1 {
            layer.push(zero_hash(i));
        }
        layer = layer.chunks(2).map(|c| hash2(&c[0], &c[1])).collect();
    }
    layer[0]
}
pub fn mix_len(root: H, n: usize) -> H {
    let mut l = [0u8; 32];
    l[..8].copy_from_slice(&(n as u64).to_le_bytes());
    hash2(&root, &l)
}
pub fn chunkify(b: &[u8]) -> Vec<H> {
    b.chunks(32)
        .map(|c| {
            let mut x = [0u8; 32];
            x[..c.len()].copy_from_slice(c);
            x
        })
        .collect()
}

fn basic(t: &Ty) -> bool {
    matches!(t, Ty::Bool | Ty::U8 | Ty::U64 | Ty::U256)
}

pub fn htr(v: &Value, t: &Ty) -> H {
    match (v, t) {
        (_, Ty::Bool | Ty::U8 | Ty::U64 | Ty::U256) => {
            let b = encode(v, t);
            chunkify(&b)[0]
        }
        (Value::Bytes(b), Ty::Bytes(n)) => merkleize(chunkify(b), n.div_ceil(32)),
        (Value::Bytes(b), Ty::ByteList(n)) => mix_len(merkleize(chunkify(b), n.div_ceil(32)), b.len()),
        (Value::Seq(xs), Ty::Vector(e, n) | Ty::List(e, n)) => {
            let (chunks, lim) = if basic(e) {
                let sz = e.fixed().unwrap();
                let mut b = Vec::with_capacity(xs.len() * sz);
                for x in xs {
                    enc(x, e, &mut b);
                }
                // limit in chunks without overflow for huge limits
                (chunkify(&b), if sz == 32 { *n } else { n.div_ceil(32 / sz) })
            } else {
                (xs.iter().map(|x| htr(x, e)).collect(), *n)
            };
            let r = merkleize(chunks, lim);
            if matches!(t, Ty::List(..)) {
                mix_len(r, xs.len())
            } else {
                r
            }
        }
        (Value::Bits(b), Ty::Bitvector(n)) => {
            let bytes = encode(v, t);
            let _ = b;
            merkleize(chunkify(&bytes), n.div_ceil(256))
        }
        (Value::Bits(b), Ty::Bitlist(n)) => {
            let mut out = vec![0u8; b.len().div_ceil(8)];
            for (i, x) in b.iter().enumerate() {
                if *x {
                    out[i / 8] |= 1 << (i % 8);
                }
            }
            mix_len(merkleize(chunkify(&out), n.div_ceil(256)), b.len())
        }
        (Value::Cont(fs), Ty::Cont(c)) => {
            merkleize(fs.iter().zip(c.fields.iter()).map(|(v, f)| htr(v, &f.1)).collect(), c.fields.len())
        }
        (v, t) => panic!("htr: value {v:?} does not fit {t:?}"),
    }
}

/// Merkle branch for leaf `index` among `leaves` padded to 2^d
pub fn branch(leaves: &[H], d: usize, index: usize) -> Vec<H> {
    let mut layer = leaves.to_vec();
    let mut out = vec![];
    let mut ix = index;
    for i in 0..d {
        if layer.len() % 2 == 1 {
            layer.push(zero_hash(i));
        }
        out.push(layer.get(ix ^ 1).copied().unwrap_or(zero_hash(i)));
        layer = layer.chunks(2).map(|c| hash2(&c[0], &c[1])).collect();
        ix /= 2;
    }
    out
}
pub fn verify_branch(leaf: H, branch: &[H], d: usize, index: u64, root: H) -> bool {
    let mut v = leaf;
    if branch.len() < d {
        return false;
    }
    for (i, b) in branch.iter().enumerate().take(d) {
        v = if i < 64 && index >> i & 1 == 1 { hash2(b, &v) } else { hash2(&v, b) };
    }
    v == root
}

impl Value {
    pub fn u(&self) -> u64 {
        match self {
            Value::U(x) => *x,
            _ => panic!("not a number"),
        }
    }
    pub fn seq(&self) -> &[Value] {
        match self {
            Value::Seq(x) => x,
            _ => panic!("not a sequence"),
        }
    }
    pub fn fields(&self) -> &[Value] {
        match self {
            Value::Cont(x) => x,
            _ => panic!("not a container"),
        }
    }
    pub fn get<'a>(&'a self, t: &Ty, name: &str) -> &'a Value {
        &self.fields()[t.field(name).unwrap_or_else(|| panic!("no field {name}")).0]
    }
    pub fn get_mut<'a>(&'a mut self, t: &Ty, name: &str) -> &'a mut Value {
        let i = t.field(name).unwrap_or_else(|| panic!("no field {name}")).0;
        match self {
            Value::Cont(x) => &mut x[i],
            _ => panic!("not a container"),
        }
    }
}

/// First differing leaf between two encodings, as a readable path.
pub fn diff(a: &Value, b: &Value, t: &Ty, path: &str, out: &mut Vec<String>) {
    if out.len() >= 12 || a == b {
        return;
    }
    match (a, b, t) {
        (Value::Cont(x), Value::Cont(y), Ty::Cont(c)) => {
            for ((x, y), f) in x.iter().zip(y.iter()).zip(c.fields.iter()) {
                diff(x, y, &f.1, &format!("{path}.{}", f.0), out);
            }
        }
        (Value::Seq(x), Value::Seq(y), _) => {
            if x.len() != y.len() {
                out.push(format!("{path}: length {} vs {}", x.len(), y.len()));
            }
            for (i, (x, y)) in x.iter().zip(y.iter()).enumerate() {
                diff(x, y, t.elem(), &format!("{path}[{i}]"), out);
            }
        }
        _ => {
            let s = |v: &Value| match v {
                Value::Bytes(b) => hex(b),
                Value::U256(b) => hex(b),
                Value::Bits(b) => b.iter().map(|x| if *x { '1' } else { '0' }).collect(),
                v => format!("{v:?}"),
            };
            out.push(format!("{path}: {} vs {}", s(a), s(b)));
        }
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// default value of a type
pub fn zero(t: &Ty) -> Value {
    match t {
        Ty::Bool => Value::Bool(false),
        Ty::U8 | Ty::U64 => Value::U(0),
        Ty::U256 => Value::U256([0; 32]),
        Ty::Bytes(n) => Value::Bytes(vec![0; *n]),
        Ty::ByteList(_) => Value::Bytes(vec![]),
        Ty::Vector(e, n) => Value::Seq(vec![zero(e); *n]),
        Ty::List(..) => Value::Seq(vec![]),
        Ty::Bitvector(n) => Value::Bits(vec![false; *n]),
        Ty::Bitlist(_) => Value::Bits(vec![]),
        Ty::Cont(c) => Value::Cont(c.fields.iter().map(|(_, t)| zero(t)).collect()),
    }
}
