//! The JSON the API prescribes for a value
use refmodel::ssz::{self, Ty, Value};
use serde_json::{json, Map, Value as Json};

fn cut(s: &str) -> String {
    s.chars().take(90).collect()
}
pub fn decimal(le: &[u8; 32]) -> String {
    let mut d = vec![0u8];
    for b in le.iter().rev() {
        let mut carry = *b as u32;
        for x in d.iter_mut() {
            let y = *x as u32 * 256 + carry;
            *x = (y % 10) as u8;
            carry = y / 10;
        }
        while carry > 0 {
            d.push((carry % 10) as u8);
            carry /= 10;
        }
    }
    while d.len() > 1 && d[d.len() - 1] == 0 {
        d.pop();
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
/// the JSON the API prescribes for a value
pub fn tree(v: &Value, t: &Ty) -> Json {
    match (v, t) {
        (Value::Bool(b), _) => json!(b),
        (Value::U(x), _) => json!(x.to_string()),
        (Value::U256(x), _) => json!(decimal(x)),
        (Value::Bytes(b), _) => json!(ssz::hex(b)),
        (Value::Bits(_), _) => json!(ssz::hex(&ssz::encode(v, t))),
        (Value::Seq(x), _) => Json::Array(x.iter().map(|x| tree(x, t.elem())).collect()),
        (Value::Cont(x), Ty::Cont(c)) => {
            let mut m = Map::new();
            for (x, (n, t)) in x.iter().zip(&c.fields) {
                // the API of this draft names the field in two ways
                let n = if c.name == "ExecutionLayerWithdrawalRequest" && n == "validator_pubkey" { "pubkey" } else { n };
                m.insert(n.into(), tree(x, t));
            }
            Json::Object(m)
        }
        _ => unreachable!(),
    }
}
/// the first place where two trees differ
pub fn differ(a: &Json, b: &Json, at: &str) -> Option<String> {
    match (a, b) {
        (Json::Object(x), Json::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                match (x.get(k), y.get(k)) {
                    (Some(x), Some(y)) => {
                        if let Some(d) = differ(x, y, &format!("{at}.{k}")) {
                            return Some(d);
                        }
                    }
                    (Some(_), None) => return Some(format!("{at}: field {k} should not be there")),
                    _ => return Some(format!("{at}: field {k} is missing")),
                }
            }
            None
        }
        (Json::Array(x), Json::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (x, y))| differ(x, y, &format!("{at}[{i}]"))),
        _ if a == b => None,
        _ => Some(format!("{at}: {} rather than {}", cut(&a.to_string()), cut(&b.to_string()))),
    }
}
