pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
#[cfg(feature = "wasm")]
pub mod c26;
pub mod c27;
pub mod docs;
pub mod kel;
pub mod objects;
pub mod ops;
pub mod types;

use crate::ctx::Ctx;

pub fn run(ctx: &'static Ctx) -> bool {
    match ctx.id.as_str() {
        "C01" => c01::run(ctx),
        "C02" => c02::run(ctx),
        "C03" => c03::run(ctx),
        "C04" => c04::run(ctx),
        "C05" => c05::run(ctx),
        "C06" => c06::run(ctx),
        "C07" => c07::run(ctx),
        "C08" => c08::run(ctx),
        "C09" => c09::run(ctx),
        "C10" => c10::run(ctx),
        "C11" => c11::run(ctx),
        "C12" => c12::run(ctx),
        "C13" => c13::run(ctx),
        "C14" => c14::run(ctx),
        "C15" => c15::run(ctx),
        "C16" => c16::run(ctx),
        "C17" => c17::run(ctx),
        "C18" => c18::run(ctx),
        "C19" => c19::run(ctx),
        "C20" => c20::run(ctx),
        "C21" => c21::run(ctx),
        "C22" => c22::run(ctx),
        "C23" => c23::run(ctx),
        "C24" => c24::run(ctx),
        "C25" => c25::run(ctx),
        #[cfg(feature = "wasm")]
        "C26" => c26::run(ctx),
        "C27" => c27::run(ctx),
        _ => return false,
    }
    true
}

/// raw patterns that hit every bit position, plus the uniform ones
pub fn patterns(n: usize, bits: bool) -> Vec<Vec<u8>> {
    let mut v = vec![vec![0u8; n], vec![0xff; n], (0..n).map(|i| i as u8).collect()];
    v.push(crate::spec::filler(n, 7));
    v.push(crate::spec::filler(n, 8));
    if bits {
        for b in 0..8 * n {
            let mut r = vec![0u8; n];
            r[b / 8] = 0x80 >> (b % 8);
            v.push(r.clone());
            for x in r.iter_mut() {
                *x = !*x;
            }
            v.push(r);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// is this raw acceptable secret material for the type?
pub fn legal(ty: &str, code: &str, raw: &[u8]) -> bool {
    if !ty.starts_with("Signer") || code == "A" {
        return true;
    }
    let n: [u8; 32] = if code == "J" {
        hex32("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
    } else {
        hex32("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551")
    };
    raw.len() >= 32 && raw[..32].iter().any(|b| *b != 0) && raw[..32] < n[..]
}

pub fn hex32(s: &str) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..32 {
        out[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    out
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 96 {
        return format!("{}..[{} bytes, h={:016x}]", hex(&b[..32]), b.len(), crate::ctx::h64(&b));
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// text for labels: long texts shortened, distinctly
pub fn sh(s: &str) -> String {
    if s.len() > 300 {
        let mut n = 200;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        return format!("{:?}..[{} bytes, h={:016x}]", &s[..n], s.len(), crate::ctx::h64(&s));
    }
    format!("{s:?}")
}

/// the names the library publishes stand for what the specification says
macro_rules! names {
    ($o:expr, $m:path, $($n:ident $c:expr),* $(,)?) => {{
        use $m as names;
        $( $crate::same!(names::$n, $c, "{}::{}", stringify!($m), stringify!($n)); $o.step(); )*
    }};
}
pub(crate) use names;
