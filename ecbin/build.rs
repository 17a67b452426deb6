//! Copies the sources of the `ec` binary so that they compile as a library: its root module becomes
//! `root.rs`, module declarations and crate-visible items become public. A probe that writes a
//! keystore for a given password is appended to keystores.rs unless ECBIN_NOPROBE is set.
use std::{env, fs, path::Path};
const SRC: &str = "/repo/ethereum-consensus/src/bin/ec";

fn publish(s: &str, dir: Option<&Path>) -> String {
    let mut out = String::new();
    for line in s.lines() {
        let t = line.trim();
        if t.starts_with("#![") || t.starts_with("//!") {
            continue;
        }
        let bare = t.strip_prefix("pub(crate) ").or(t.strip_prefix("pub ")).unwrap_or(t);
        match bare.strip_prefix("mod ").and_then(|r| r.strip_suffix(';')) {
            Some(m) if line.starts_with(|c: char| !c.is_whitespace()) => {
                if let Some(d) = dir {
                    let file = d.join(format!("{m}.rs"));
                    let file = if file.exists() { file } else { d.join(m).join("mod.rs") };
                    out += &format!("#[path = {:?}]\n", file);
                }
                out += &format!("pub mod {m};\n");
            }
            _ => {
                let line = line.replace("pub(crate) ", "pub ").replace("pub(super) ", "pub ");
                out += &if line.starts_with("fn main(") { format!("pub {line}") } else { line };
                out.push('\n');
            }
        }
    }
    out
}
fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let q = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &q);
        } else if p.extension().is_some_and(|e| e == "rs") {
            let mut s = publish(&fs::read_to_string(&p).unwrap(), None);
            if p.ends_with("validator/keystores.rs") {
                s += "\npub fn verif_probe(key: crate::validator::keys::KeyPair, password: &str) -> Option<String> {\n";
                s += if env::var("ECBIN_NOPROBE").is_ok() {
                    "    let _ = (key, password);\n    None\n}\n"
                } else {
                    "    Some(serde_json::to_string(&Keystore::new(key, &password.to_string())).unwrap())\n}\n"
                };
            }
            fs::write(q, s).unwrap();
        }
    }
}
fn main() {
    println!("cargo:rerun-if-changed={SRC}");
    println!("cargo:rerun-if-env-changed=ECBIN_NOPROBE");
    let out = env::var("OUT_DIR").unwrap();
    let dir = Path::new(&out).join("ec");
    let _ = fs::remove_dir_all(&dir);
    copy(Path::new(SRC), &dir);
    let root = fs::read_to_string(Path::new(SRC).join("main.rs")).unwrap();
    fs::write(Path::new(&out).join("root.rs"), publish(&root, Some(&dir))).unwrap();
}
