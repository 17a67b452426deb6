//! C29: blobs of the `ec` tool
use c_kzg::{Blob as KBlob, Bytes48};
use ecbin::blobs::{
    bundler, decode, encode,
    framing::{payload_from_sized, sized_header, Mode},
};
use pbt::*;
use std::io::{self, Read, Write};

const N: usize = 4096;
const BLOB: usize = 32 * N;
const BITS: usize = 254;
/// payload bytes one blob holds
const CAP: usize = N * BITS / 8;
const R: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4,
    0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];
fn mode(sized: bool) -> Mode {
    if sized {
        Mode::Sized
    } else {
        Mode::Raw
    }
}
/// the bits of the stream in order, 254 to a field element, below its two top bits
fn model_pack(stream: &[u8]) -> Vec<u8> {
    let blobs = stream.len().div_ceil(CAP).max(1);
    let mut out = vec![0u8; blobs * BLOB];
    for (i, b) in stream.iter().enumerate() {
        for k in 0..8 {
            if b >> (7 - k) & 1 == 1 {
                let bit = 8 * i + k;
                let at = 256 * (bit / BITS) + 2 + bit % BITS;
                out[at / 8] |= 0x80 >> (at % 8);
            }
        }
    }
    out
}
fn model_unpack(blobs: &[u8]) -> Vec<u8> {
    let mut out = vec![0u8; blobs.len() / BLOB * CAP];
    for bit in 0..8 * out.len() {
        let at = 256 * (bit / BITS) + 2 + bit % BITS;
        if blobs[at / 8] & (0x80 >> (at % 8)) != 0 {
            out[bit / 8] |= 0x80 >> (bit % 8);
        }
    }
    out
}
fn header(n: usize) -> [u8; 5] {
    let s = (n as u32).to_be_bytes();
    [0, s[0], s[1], s[2], s[3]]
}
/// a reader of short pieces, now and then interrupted
struct Pieces<'a>(&'a [u8], usize, u32);
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.2 = self.2.wrapping_mul(1664525).wrapping_add(1013904223);
        if self.2 >> 28 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = self.0.len().min(buf.len()).min(1 + (self.2 >> 8) as usize % self.1);
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// a writer of short pieces that fails when `left` is used up
struct Sink(Vec<u8>, usize, usize);
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = buf.len().min(self.1).min(self.2);
        if n == 0 && !buf.is_empty() {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        self.0.extend_from_slice(&buf[..n]);
        self.2 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn attempt<T, E: std::fmt::Display>(what: &str, f: impl FnOnce() -> Result<T, E>) -> Result<Result<T, String>, Failure> {
    match guard(f) {
        Ok(r) => Ok(r.map_err(|e| e.to_string())),
        Err(p) => fail(format!("{what}-panic"), format!("{what} panics: {p}")),
    }
}
fn to_json(blobs: &[u8]) -> String {
    let v: Vec<String> = blobs.chunks(BLOB).map(|b| format!("\"0x{}\"", hex::encode(b))).collect();
    format!("[{}]", v.join(","))
}
fn fill(src: &mut Src, n: usize) -> (Vec<u8>, &'static str) {
    match src.below(5) {
        0 => (vec![0xff; n], "ones"),
        1 => (vec![0; n], "zeros"),
        2 => {
            let mut v = vec![0; n];
            if let Some(l) = v.last_mut() {
                *l = 1;
            }
            (v, "last-bit")
        }
        _ => (expand(src.u64(), n), "random"),
    }
}
fn length(src: &mut Src, sized: bool) -> usize {
    let h = if sized { 5 } else { 0 };
    match src.below(16) {
        0 => 0,
        1..=6 => src.usize(1, 400),
        7..=8 => (src.usize(1, 40) * 254 / 8 + src.usize(0, 3)).saturating_sub(h),
        9 | 10 => CAP - h + src.usize(0, 70) - 35,
        11 => 2 * CAP - h + src.usize(0, 70) - 35,
        12 => src.usize(1, 2) * CAP - h,
        13 => src.usize(0, CAP),
        14 => src.usize(CAP, 3 * CAP),
        _ => src.usize(1, 7) * CAP - h + *src.pick(&[0, 1, 31, 32]),
    }
}
fn compare(got: &[u8], want: &[u8], sig: &str, what: &str) -> CaseResult {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b);
    fail(sig, format!("{what}: {} bytes instead of {}, first difference at {at:?}", got.len(), want.len()))
}
fn pack(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let sized = src.bool();
    let n = length(src, sized);
    let (data, kind) = fill(src, n);
    obs.label(if sized { "sized" } else { "raw" });
    obs.label(kind);
    let mut stream = if sized { header(n).to_vec() } else { vec![] };
    stream.extend_from_slice(&data);
    let over = stream.len() % CAP;
    obs.label(match over {
        0 if stream.is_empty() => "empty",
        0 => "exact multiple",
        1..=31 if stream.len() > CAP => "just over a multiple",
        _ if stream.len() > CAP => "several blobs",
        _ => "one blob",
    });
    obs.hit(&[&[sized as u8][..], &data].concat());
    obs.sample(|| format!("{} payload of {n} bytes ({kind})", if sized { "sized" } else { "raw" }));
    let piece = *src.pick(&[1usize << 20, 4096, 1000]);
    let seed = src.u64() as u32;
    let blobs = match attempt("pack", || encode::from_reader(Pieces(&data, piece, seed), mode(sized)))? {
        Ok(b) => b,
        Err(e) => return fail("pack-refused", format!("{n} bytes sized={sized}: {e}")),
    };
    let flat: Vec<u8> = blobs.iter().flat_map(|b| b.as_ref().to_vec()).collect();
    ensure!(blobs.iter().all(|b| b.as_ref().len() == BLOB), "blob-size", "a blob is not of the exact size");
    ensure!(flat.chunks(32).all(|c| c < &R[..]), "blob-canonical", "{n} bytes: not a field element");
    compare(&flat, &model_pack(&stream), "pack", &format!("blobs of {n} bytes {kind} sized={sized}"))?;
    let json = serde_json::to_string(&blobs).unwrap();
    compare(json.as_bytes(), to_json(&flat).as_bytes(), "pack-json", "JSON of the blobs")?;
    // back
    let mut out = Sink(vec![], *src.pick(&[usize::MAX, 700]), usize::MAX);
    if let Err(e) = attempt("unpack", || decode::to_writer_from_json(Pieces(json.as_bytes(), piece, seed), &mut out, mode(sized)))? {
        return fail("unpack-refused", format!("{n} bytes sized={sized}: {e}"));
    }
    if sized {
        compare(&out.0, &data, "round-trip", &format!("payload of {n} bytes"))
    } else {
        ensure!(
            out.0.len() >= n && out.0[..n] == data && out.0[n..].iter().all(|b| *b == 0),
            "round-trip",
            "raw payload of {n} bytes ({kind}) unpacks to other bytes"
        );
        Ok(())
    }
}
/// streams with a header of any kind
fn framing(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = match src.below(8) {
        0 => src.usize(0, 6),
        7 => src.usize(0, 5000),
        _ => src.usize(5, 60),
    };
    let mut s = src.bytes(n);
    if n >= 5 {
        if src.chance(7, 8) {
            s[0] = 0;
        }
        let p = (n - 5) as u32;
        let size = match src.below(8) {
            0 => p,
            1 => p + src.below(8) as u32,
            2 => p.saturating_sub(src.below(8) as u32),
            3 => n as u32,
            4 => *src.pick(&[u32::MAX, u32::MAX - 5, 1 << 31, 0]),
            5 => src.below(p as u64 + 1) as u32,
            6 => src.edgy() as u32,
            _ => u32::from_be_bytes(s[1..5].try_into().unwrap()),
        };
        s[1..5].copy_from_slice(&size.to_be_bytes());
    }
    obs.hit(&s);
    obs.sample(|| format!("stream of {n} bytes, header {:02x?}", &s[..n.min(5)]));
    let want = if n < 5 || s[0] != 0 {
        None
    } else {
        s[5..].get(..u32::from_be_bytes(s[1..5].try_into().unwrap()) as usize)
    };
    obs.label(match want {
        None if n < 5 => "no header",
        None if s[0] != 0 => "version",
        None => "too long",
        Some(_) => "fits",
    });
    match (attempt("framing", || payload_from_sized(&s).map(|p| p.to_vec()))?, want) {
        (Ok(g), Some(w)) => compare(&g, w, "framing", "payload of a stream"),
        (Err(_), None) => Ok(()),
        (Ok(g), None) => fail("framing-accepts", format!("stream of {n} bytes with header {:02x?} yields {} bytes", &s[..n.min(5)], g.len())),
        (Err(e), Some(_)) => fail("framing-refuses", format!("stream of {n} bytes with header {:02x?}: {e}", &s[..5])),
    }?;
    // and the header of a payload of some length
    let l = match src.below(3) {
        0 => src.usize(0, 100000),
        1 => u32::MAX as usize + src.usize(0, 4) - 2,
        _ => src.edgy() as usize,
    };
    match attempt("header", || sized_header(l))? {
        Ok(h) => ensure!(l <= u32::MAX as usize && h == header(l), "header", "header of {l} bytes: {h:02x?}"),
        Err(_) => ensure!(l > u32::MAX as usize, "header-refused", "header of {l} bytes is refused"),
    }
    Ok(())
}
/// blobs that need not come from packing
fn unpack(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = src.weighted(&[1, 6, 2]);
    let mut flat = expand(src.u64(), n * BLOB);
    let canonical = src.chance(3, 4);
    if canonical {
        flat.chunks_mut(32).for_each(|c| c[0] &= 0x3f);
    }
    let sized = src.chance(2, 3);
    let cap = n * CAP;
    let room = n * BLOB;
    if sized && n > 0 && src.chance(7, 8) {
        let size = match src.below(7) {
            0 => cap - 5,
            1 => cap - 5 - src.usize(0, 40),
            2 => src.usize(0, cap - 5),
            3 => room - 5 + src.usize(1, 8),
            4 => *src.pick(&[u32::MAX as usize, room, room - 4, room + 1]),
            5 => src.usize(0, 300),
            _ => src.usize(cap - 4, room - 5),
        };
        let h = header(size);
        // header bits sit below the top two bits of the first element
        for bit in 0..40 {
            let (at, v) = (bit + 2, h[bit / 8] >> (7 - bit % 8) & 1);
            flat[at / 8] = flat[at / 8] & !(0x80 >> (at % 8)) | (v << (7 - at % 8));
        }
    }
    let json = to_json(&flat);
    obs.hit(&[&[sized as u8], &flat[..flat.len().min(4096)]].concat());
    obs.sample(|| format!("{n} blobs, sized={sized}, canonical={canonical}"));
    let stream = model_unpack(&flat);
    let mut out = Sink(vec![], usize::MAX, usize::MAX);
    let got = attempt("unpack", || decode::to_writer_from_json(json.as_bytes(), &mut out, mode(sized)))?;
    if !canonical && got.is_err() {
        obs.label("refused as no field elements");
        return Ok(());
    }
    if !sized {
        obs.label("raw");
        ensure!(got.is_ok(), "unpack-refused", "raw blobs are refused: {got:?}");
        let k = stream.len();
        ensure!(
            out.0.len() >= k && out.0[..k] == stream && out.0[k..].iter().all(|b| *b == 0),
            "unpack",
            "{n} raw blobs unpack to other bytes"
        );
        return Ok(());
    }
    let bad = n == 0 || stream[0] != 0;
    let size = if n == 0 { 0 } else { u32::from_be_bytes(stream[1..5].try_into().unwrap()) as usize };
    if bad || size > room - 5 {
        obs.label("malformed");
        ensure!(got.is_err(), "unpack-accepts", "{n} blobs with header {:02x?} unpack to {} bytes", stream.get(..5), out.0.len());
    } else if size > cap - 5 {
        obs.label("longer than the blobs hold");
        if got.is_ok() {
            let mut w = stream[5..].to_vec();
            w.resize(size, 0);
            compare(&out.0, &w, "unpack", "sized blobs")?;
        }
    } else {
        obs.label("sized");
        ensure!(got.is_ok(), "unpack-refused", "{n} blobs with a payload of {size} bytes are refused: {got:?}");
        compare(&out.0, &stream[5..5 + size], "unpack", "sized blobs")?;
        // a writer that fails
        if size > 0 {
            let mut out = Sink(vec![], 1000, src.usize(0, size - 1));
            let r = attempt("unpack", || decode::to_writer_from_json(json.as_bytes(), &mut out, mode(true)))?;
            ensure!(r.is_err(), "writer-error", "a failing writer goes unnoticed");
        }
    }
    Ok(())
}
/// text that is no list of blobs
fn text(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = src.usize(1, 2);
    let mut flat = expand(src.u64(), n * BLOB);
    flat.chunks_mut(32).for_each(|c| c[0] &= 0x3f);
    flat[0] = 0;
    let mut s = to_json(&flat).into_bytes();
    let l = s.len();
    let kind = src.below(9);
    match kind {
        0 => s.truncate(src.usize(0, l - 1)),
        1 => s.insert(src.usize(3, 200), *src.pick(b"g x0\"")),
        2 => drop(s.remove(src.usize(4, l - 3))),
        3 => s[src.usize(4, 2 * BLOB)] = *src.pick(b"gG-_ \xff"),
        4 => s.extend_from_slice(b" ]"),
        5 => s = b"[\"0x\"]".to_vec(),
        6 => s = serde_json::to_vec(&vec![format!("0x{}", hex::encode(&flat[..BLOB - 1]))]).unwrap(),
        7 => s = serde_json::to_vec(&vec![format!("0x{}00", hex::encode(&flat[..BLOB]))]).unwrap(),
        _ => s = src.pick(&["", "null", "{}", "[1]", "[null]", "\"0x00\"", "[[]]", "[\"\"]"]).as_bytes().to_vec(),
    }
    obs.label(format!("kind {kind}"));
    obs.hit(&s);
    obs.sample(|| format!("{} bytes of text: {:?}", s.len(), String::from_utf8_lossy(&s[..s.len().min(40)])));
    let mut out = Sink(vec![], usize::MAX, usize::MAX);
    let sized = src.bool();
    let got = attempt("unpack", || decode::to_writer_from_json(&s[..], &mut out, mode(sized)))?;
    ensure!(got.is_err(), "text-accepted", "text of kind {kind} unpacks to {} bytes", out.0.len());
    let got = attempt("bundle", || bundler::from_reader(&s[..]).map(|_| ()))?;
    ensure!(got.is_err(), "text-bundled", "text of kind {kind} is bundled");
    Ok(())
}
fn bundle(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = src.usize(0, 3);
    let mut flat = vec![];
    for _ in 0..n {
        let mut b = expand(src.u64(), BLOB);
        b.chunks_mut(32).for_each(|c| c[0] &= 0x3f);
        match src.below(6) {
            0 => b = vec![0; BLOB],
            1 if !flat.is_empty() => b = flat[..BLOB].to_vec(),
            2 => b[32..].fill(0),
            _ => (),
        }
        flat.extend_from_slice(&b);
    }
    let mut valid = true;
    if n > 0 && src.chance(1, 3) {
        let at = 32 * src.idx(n * N);
        let mut e = R;
        match src.below(3) {
            0 => (),
            1 => {
                e[31] = 0;
            }
            _ => e = [0xff; 32],
        }
        valid = e < R;
        flat[at..at + 32].copy_from_slice(&e);
        obs.label(if valid { "largest element" } else { "no field element" });
    }
    obs.label(format!("{n} blobs"));
    obs.hit(&flat);
    obs.sample(|| format!("bundle of {n} blobs, valid={valid}"));
    let json = to_json(&flat);
    match attempt("bundle", || bundler::from_reader(json.as_bytes()))? {
        Ok(b) => {
            ensure!(valid, "bundle-accepts", "a bundle with a blob that is not made of field elements");
            ensure_eq!(b.blobs.len(), n, "bundle-blobs", "number of blobs");
            ensure_eq!(b.commitments.len(), n, "bundle-commitments", "number of commitments");
            ensure_eq!(b.proofs.len(), n, "bundle-proofs", "number of proofs");
            let k = c_kzg::ethereum_kzg_settings(0);
            for i in 0..n {
                let raw = &flat[i * BLOB..(i + 1) * BLOB];
                compare(b.blobs[i].as_ref(), raw, "bundle-blob", &format!("blob {i} of {n}"))?;
                let kb = KBlob::from_bytes(raw).unwrap();
                let c = k.blob_to_kzg_commitment(&kb).unwrap().to_bytes();
                ensure!(b.commitments[i].as_ref() == c.as_slice(), "bundle-commitment", "commitment {i} of {n}");
                let p = Bytes48::from_bytes(b.proofs[i].as_ref()).unwrap();
                ensure!(k.verify_blob_kzg_proof(&kb, &c, &p).unwrap_or(false), "bundle-proof", "proof {i} of {n}");
            }
            let v = serde_json::to_value(&b).unwrap();
            for (name, xs) in [
                ("blobs", b.blobs.iter().map(|x| hex::encode(x.as_ref())).collect::<Vec<_>>()),
                ("commitments", b.commitments.iter().map(|x| hex::encode(x.as_ref() as &[u8])).collect()),
                ("proofs", b.proofs.iter().map(|x| hex::encode(x.as_ref() as &[u8])).collect()),
            ] {
                let w: Vec<String> = xs.iter().map(|x| format!("0x{x}")).collect();
                ensure!(v[name] == serde_json::json!(w), "bundle-json", "{name} of the bundle's JSON");
            }
            Ok(())
        }
        Err(e) => {
            ensure!(!valid, "bundle-refused", "{n} blobs: {e}");
            Ok(())
        }
    }
}
fn tool(args: &[&str], input: &[u8]) -> (bool, Vec<u8>) {
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("VERIF_EC_TOOL", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let (mut i, input) = (c.stdin.take().unwrap(), input.to_vec());
    let t = std::thread::spawn(move || {
        let _ = i.write_all(&input);
    });
    let o = c.wait_with_output().unwrap();
    let _ = t.join();
    (o.status.success(), o.stdout)
}
/// the command line: encode, decode (sized unless told otherwise) and bundle
fn command(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let framing = src.idx(3);
    let arg: &[&str] = &[&[][..], &["raw"][..], &["sized"][..]][framing];
    let sized = framing != 1;
    let n = if src.chance(1, 4) { CAP + src.usize(0, 64) - 32 } else { src.usize(0, 3000) };
    let data = expand(src.u64(), n);
    obs.label(format!("{arg:?}"));
    obs.hit(&data);
    obs.sample(|| format!("ec blobs encode {arg:?} of {n} bytes, decode, bundle"));
    let (ok, json) = tool(&[&["blobs", "encode"], arg].concat(), &data);
    ensure!(ok, "tool-encode", "ec blobs encode fails on {n} bytes");
    let blobs: Vec<String> = match serde_json::from_slice(&json) {
        Ok(v) => v,
        Err(e) => return fail("tool-encode", format!("output is no JSON list: {e}")),
    };
    let mut stream = if sized { header(n).to_vec() } else { vec![] };
    stream.extend_from_slice(&data);
    let flat = model_pack(&stream);
    let want: Vec<String> = flat.chunks(BLOB).map(|b| format!("0x{}", hex::encode(b))).collect();
    ensure!(blobs == want, "tool-blobs", "ec blobs encode {arg:?} of {n} bytes prints other blobs");
    let (ok, back) = tool(&[&["blobs", "decode"], arg].concat(), &json);
    ensure!(ok, "tool-decode", "ec blobs decode {arg:?} fails");
    ensure!(
        back.len() >= n && back[..n] == data && back[n..].iter().all(|b| *b == 0) && (!sized || back.len() == n),
        "tool-round-trip",
        "ec blobs decode {arg:?} of {n} bytes"
    );
    if src.chance(1, 3) {
        let (ok, out) = tool(&["blobs", "bundle"], &json);
        ensure!(ok, "tool-bundle", "ec blobs bundle fails");
        let v: serde_json::Value = serde_json::from_slice(&out).unwrap_or_default();
        ensure!(v["blobs"] == serde_json::json!(want), "tool-bundle", "blobs of the bundle");
        ensure!(v["commitments"].as_array().map(|a| a.len()) == Some(want.len()), "tool-bundle", "commitments of the bundle");
    }
    let (ok, out) = tool(&[&["blobs", "decode"], arg].concat(), &json[..json.len() / 2]);
    ensure!(!ok && out.is_empty(), "tool-malformed", "ec blobs decode of half a list succeeds");
    Ok(())
}
fn main() {
    if std::env::var("VERIF_EC_TOOL").is_ok() {
        if ecbin::main().is_err() {
            std::process::exit(1);
        }
        return;
    }
    pbt::main(Check {
        property: "C29",
        rule: "A case is a payload (lengths around every boundary of field elements and blobs, short reads), a length-framed stream, blobs with any header, a text that is no list of blobs, a set of blobs to bundle, or a run of the command line. It counts once per distinct input.",
        assumptions: &["KZG is the stand-in described in DESIGN.md", "a declared size between what the blobs hold and their raw size may be refused or read as zeros; blobs that are not field elements may be refused or their top bits ignored"],
        subs: vec![
            Sub { name: "pack", quick: 2500, thorough: 20000, f: pack },
            Sub { name: "framing", quick: 100000, thorough: 5000000, f: framing },
            Sub { name: "unpack", quick: 2500, thorough: 10000, f: unpack },
            Sub { name: "text", quick: 1500, thorough: 8000, f: text },
            Sub { name: "bundle", quick: 400, thorough: 1500, f: bundle },
            Sub { name: "command", quick: 60, thorough: 600, f: command },
        ],
    })
}
