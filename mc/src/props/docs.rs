//! Documents: reference serialization, version strings and self-addressing identifiers on
//! serde_json values (which keep key order).
use crate::spec;
use cesride::data::Value;
use serde_json::{json, Map, Value as J};

pub fn val(j: &J) -> Value {
    Value::from(j)
}

/// content of a library value, read through its own JSON text
pub fn back(v: &Value) -> Result<J, String> {
    let t = v.to_json().map_err(|e| e.to_string())?;
    serde_json::from_str(&t).map_err(|e| format!("{e} in {t}"))
}

pub fn dump(j: &J) -> String {
    serde_json::to_string(j).unwrap()
}

pub fn version(ident: &str, major: u8, minor: u8, kind: &str, size: usize) -> String {
    format!("{ident}{major:x}{minor:x}{kind}{size:06x}_")
}

/// (ident, major, minor, kind, size) at the start of a text
pub fn rever(b: &[u8]) -> Option<(String, u8, u8, String, u32)> {
    let b = b.get(..17)?;
    let up = |r: &[u8]| r.iter().all(|c| c.is_ascii_uppercase());
    let hx = |r: &[u8]| r.iter().all(|c| matches!(c, b'0'..=b'9' | b'a'..=b'f'));
    if !(up(&b[..4]) && hx(&b[4..6]) && up(&b[6..10]) && hx(&b[10..16]) && b[16] == b'_') {
        return None;
    }
    let t = std::str::from_utf8(b).unwrap();
    Some((
        t[..4].into(),
        u8::from_str_radix(&t[4..5], 16).unwrap(),
        u8::from_str_radix(&t[5..6], 16).unwrap(),
        t[6..10].into(),
        u32::from_str_radix(&t[10..16], 16).unwrap(),
    ))
}

/// a whole version string of a known identity, kind and the supported version
pub fn supported(v: &str) -> Option<String> {
    if v.len() != 17 {
        return None;
    }
    let (i, a, b, k, _) = rever(v.as_bytes())?;
    if !["KERI", "ACDC"].contains(&i.as_str()) || k != "JSON" || (a, b) != (1, 0) {
        return None;
    }
    Some(i)
}

/// the document with the true size in its version string
pub fn sized(doc: &Map<String, J>) -> Option<Map<String, J>> {
    let v = doc.get("v")?.as_str()?;
    let ident = supported(v)?;
    let n = dump(&J::Object(doc.clone())).len();
    if n > 0xffffff {
        return None;
    }
    let mut d = doc.clone();
    d.insert("v".into(), json!(version(&ident, 1, 0, "JSON", n)));
    // the version string must be the first thing that looks like one, early enough
    let t = dump(&J::Object(d.clone()));
    let at = (0..t.len()).find(|k| rever(&t.as_bytes()[*k..]).is_some())?;
    let own = t.find("\"v\":\"")? + 5;
    if at > 12 || at != own {
        return None;
    }
    Some(d)
}

/// what is digested, and the document with placeholder and true size
fn prepare(doc: &Map<String, J>, code: &str, label: &str, ignore: &[&str]) -> Option<(String, Map<String, J>)> {
    let fs = spec::mc(code)?.fs;
    let mut d = doc.clone();
    d.insert(label.into(), json!("#".repeat(fs)));
    if d.contains_key("v") {
        d = sized(&d)?;
    }
    let mut e = d.clone();
    for k in ignore {
        e.shift_remove(*k);
    }
    Some((dump(&J::Object(e)), d))
}

/// the SAID of a document and the document carrying it
pub fn saidify(doc: &Map<String, J>, code: &str, label: &str, ignore: &[&str]) -> Option<(String, Map<String, J>)> {
    let (ser, mut d) = prepare(doc, code, label, ignore)?;
    let dig = spec::digest(code, ser.as_bytes())?;
    let said = spec::m_encode(code, &dig)?.1;
    d.insert(label.into(), json!(said));
    Some((said, d))
}

pub fn obj(j: &J) -> Map<String, J> {
    j.as_object().unwrap().clone()
}

/// every document that differs from `j` in one place: a value, a key, an order, a removal, an addition.
/// `skip` names top-level keys left alone.
pub fn mutants(j: &J, skip: &[&str]) -> Vec<(String, J)> {
    fn go(j: &J, path: &str, skip: &[&str], out: &mut Vec<(String, J)>) {
        let others = |j: &J| -> Vec<J> {
            let mut v = vec![json!(null), json!(true), json!(0), json!(1.5), json!(""), json!("x"), json!([]), json!({})];
            match j {
                J::Bool(b) => v.push(json!(!b)),
                J::Number(n) => {
                    if let Some(i) = n.as_i64() {
                        v.push(json!(i.wrapping_add(1)));
                        v.push(json!(i as f64));
                        v.push(json!(i.to_string()));
                        v.push(json!(i.wrapping_neg()));
                    } else if let Some(f) = n.as_f64() {
                        v.push(json!(f + 0.5));
                        v.push(json!(f as i64));
                    }
                }
                J::String(s) => {
                    v.push(json!(format!("{s} ")));
                    v.push(json!(format!(" {s}")));
                    v.push(json!(s.to_uppercase()));
                    v.push(json!(s.to_lowercase()));
                    v.push(json!(s.chars().rev().collect::<String>()));
                    if let Some((i, c)) = s.char_indices().last() {
                        v.push(json!(&s[..i]));
                        v.push(json!(format!("{}{}", &s[..i], if c == 'y' { 'z' } else { 'y' })));
                    }
                    // a version string of the same layout
                    if s.len() == 17 && s.is_ascii() && s.ends_with('_') {
                        for at in 4..16 {
                            for c in ["0", "1", "f"] {
                                v.push(json!(format!("{}{c}{}", &s[..at], &s[at + 1..])));
                            }
                        }
                        v.push(json!(s.replace("KERI", "ACDC")));
                        v.push(json!(s.replace("ACDC", "KERI")));
                        v.push(json!(s.replace("JSON", "CBOR")));
                    }
                    if let Some(c) = s.chars().next() {
                        v.push(json!(format!("{}{}", if c == 'y' { 'z' } else { 'y' }, &s[c.len_utf8()..])));
                    }
                }
                J::Array(a) => {
                    let mut b = a.clone();
                    b.push(json!(null));
                    v.push(J::Array(b));
                    v.push(json!([j]));
                    for i in 0..a.len() {
                        let mut b = a.clone();
                        b.remove(i);
                        v.push(J::Array(b));
                        if i > 0 {
                            let mut b = a.clone();
                            b.swap(i - 1, i);
                            v.push(J::Array(b));
                        }
                    }
                }
                J::Object(o) => {
                    let mut b = o.clone();
                    b.insert("extra".into(), json!(null));
                    v.push(J::Object(b));
                }
                _ => {}
            }
            v
        };
        if !path.is_empty() {
            for o in others(j) {
                if dump(&o) != dump(j) {
                    out.push((format!("{path}={}", dump(&o)), o));
                }
            }
        }
        match j {
            J::Array(a) => {
                for (i, e) in a.iter().enumerate() {
                    let mut sub = vec![];
                    go(e, &format!("{path}/{i}"), &[], &mut sub);
                    for (p, m) in sub {
                        let mut b = a.clone();
                        b[i] = m;
                        out.push((p, J::Array(b)));
                    }
                }
            }
            J::Object(o) => {
                let keys: Vec<&String> = o.keys().collect();
                for (i, k) in keys.iter().enumerate() {
                    if skip.contains(&k.as_str()) {
                        continue;
                    }
                    let mut sub = vec![];
                    go(&o[*k], &format!("{path}/{k}"), &[], &mut sub);
                    for (p, m) in sub {
                        let mut b = o.clone();
                        b.insert((*k).clone(), m);
                        out.push((p, J::Object(b)));
                    }
                    // renamed
                    for new in [format!("{k}x"), k.to_uppercase(), String::new()] {
                        if !o.contains_key(&new) {
                            let b: Map<String, J> = o
                                .iter()
                                .map(|(a, v)| (if a == *k { new.clone() } else { a.clone() }, v.clone()))
                                .collect();
                            out.push((format!("{path}/{k} renamed {new:?}"), J::Object(b)));
                        }
                    }
                    // removed
                    let mut b = o.clone();
                    b.shift_remove(*k);
                    out.push((format!("{path}/{k} removed"), J::Object(b)));
                    // swapped with the next
                    if i + 1 < keys.len() && !skip.contains(&keys[i + 1].as_str()) {
                        let mut e: Vec<(String, J)> = o.iter().map(|(a, v)| (a.clone(), v.clone())).collect();
                        e.swap(i, i + 1);
                        out.push((format!("{path}/{k} swapped"), J::Object(e.into_iter().collect())));
                    }
                }
                if path.is_empty() {
                    let mut b = o.clone();
                    b.insert("extra".into(), json!(null));
                    out.push(("extra".into(), J::Object(b)));
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    go(j, "", skip, &mut out);
    let own = dump(j);
    out.retain(|(_, m)| dump(m) != own);
    out
}
