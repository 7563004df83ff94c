//! C16: version strings.
use super::docs::{rever, version};
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same};
use cesride::common::{deversify, sniff, versify, Version};

fn parts(ident: &str, v: (u8, u8), kind: &str, size: u32) -> (String, u8, u8, String, u32) {
    (ident.into(), v.0, v.1, kind.into(), size)
}

fn known(p: &(String, u8, u8, String, u32)) -> bool {
    ["KERI", "ACDC"].contains(&p.0.as_str()) && p.3 == "JSON"
}

fn de(vs: &str) -> Result<(String, u8, u8, String, u32), String> {
    es(deversify(vs)).map(|r| (r.ident, r.version.major, r.version.minor, r.kind, r.size))
}

fn sn(raw: &[u8]) -> Result<(String, u8, u8, String, u32), String> {
    es(sniff(raw)).map(|r| (r.ident, r.version.major, r.version.minor, r.kind, r.size))
}

fn format_parse(ident: &str, v: (u8, u8), size: u32, o: &mut Obs) -> R {
    let got = versify(Some(ident), Some(&Version { major: v.0, minor: v.1 }), Some("JSON"), Some(size));
    o.step();
    if v.0 > 15 || v.1 > 15 || size > 0xffffff {
        ensure!(got.is_err(), "formatted as {:?}", got.ok());
        return Ok(());
    }
    let vs = es(got)?;
    same!(vs, version(ident, v.0, v.1, "JSON", size as usize), "version string");
    same!(de(&vs), Ok(parts(ident, v, "JSON", size)), "parsed");
    o.step();
    Ok(())
}

/// the reference reading of a text handed as version string
fn parse_ref(vs: &str) -> Option<(String, u8, u8, String, u32)> {
    if vs.len() != 17 {
        return None;
    }
    rever(vs.as_bytes()).filter(known)
}

fn parse(vs: &str, o: &mut Obs) -> R {
    o.step();
    let got = de(vs);
    match parse_ref(vs) {
        Some(p) => same!(got, Ok(p), "parsed"),
        None => ensure!(got.is_err(), "accepted as {got:?}"),
    }
    o.state(vs);
    Ok(())
}

fn sniff_ref(raw: &[u8]) -> Option<(String, u8, u8, String, u32)> {
    if raw.len() < 29 {
        return None;
    }
    let at = (0..raw.len()).find(|k| rever(&raw[*k..]).is_some())?;
    if at > 12 {
        return None;
    }
    rever(&raw[at..]).filter(|p| p.3 == "JSON")
}

fn look(raw: &[u8], o: &mut Obs) -> R {
    o.step();
    let got = sn(raw);
    match sniff_ref(raw) {
        Some(p) if known(&p) => same!(got, Ok(p), "sniffed"),
        // unknown identities may be left to the reader to refuse
        Some(p) => ensure!(got.is_err() || got == Ok(p), "sniffed {got:?}"),
        None => ensure!(got.is_err(), "sniffed {got:?}"),
    }
    o.state(raw);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    // all versions, sizes on a lattice; all sizes
    let mut sizes: Vec<u32> = (0..300).collect();
    for p in 0..32 {
        for d in [-2i64, -1, 0, 1, 2] {
            let x = (1i64 << p) + d;
            if (0..1 << 32).contains(&x) {
                sizes.push(x as u32);
            }
        }
    }
    for d in 0..16u32 {
        for s in 0..6 {
            for e in 0..16u32 {
                sizes.push(d << (4 * s) | e << (20 - 4 * s));
            }
        }
    }
    sizes.extend([u32::MAX, 0x1000000, 0xffffff, 0xfffffe, 0xabcdef]);
    sizes.sort();
    sizes.dedup();
    ctx.par(18 * 18, |i| {
        let vals = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 255];
        let v = (vals[i % 18], vals[i / 18]);
        for ident in ["KERI", "ACDC"] {
            for s in &sizes {
                ctx.case(|| format!("version string {ident} {}.{} size {s}", v.0, v.1), |o| {
                    o.state((ident, v, s));
                    format_parse(ident, v, *s, o)
                });
            }
        }
    });
    ctx.section("versions and sizes");
    let blocks = ctx.pick(1usize << 8, 1 << 12);
    ctx.par(blocks, |b| {
        ctx.case(
            || format!("all sizes of block {b} of {blocks}"),
            |o| {
                for k in 0..1u32 << 12 {
                    format_parse("KERI", (1, 0), (b as u32) << 12 | k, o)?;
                    o.state(b << 12 | k as usize);
                }
                Ok(())
            },
        );
    });
    ctx.section("consecutive sizes");
    ctx.case(
        || "defaults".into(),
        |o| {
            same!(es(versify(None, None, None, None)), Ok("KERI10JSON000000_".to_string()), "version string");
            same!(es(versify(None, None, None, Some(65))), Ok("KERI10JSON000041_".to_string()), "version string");
            same!(es(versify(Some("ACDC"), None, None, None)), Ok("ACDC10JSON000000_".to_string()), "version string");
            same!(es(versify(None, Some(&Version { major: 10, minor: 15 }), None, None)), Ok("KERIafJSON000000_".to_string()), "version string");
            o.steps(4);
            Ok(())
        },
    );
    let bad = ["", "KER", "KERIX", "keri", "Keri", "XXXX", "ACDD", "JSON", "KERI ", " KERI", "KÉRI", "KER\n", "CBOR", "MGPK", "json", "JSO", "JSONX"];
    for b in bad {
        ctx.case(
            || format!("identity or kind {b:?}"),
            |o| {
                ensure!(versify(Some(b), None, None, None).is_err(), "identity accepted");
                if b != "JSON" {
                    ensure!(versify(None, None, Some(b), None).is_err(), "kind accepted");
                }
                o.steps(2);
                Ok(())
            },
        );
    }
    ctx.section("identities and kinds");

    // every deviation from the layout
    let base = ["KERI10JSON000000_", "ACDC10JSON0001ff_", "KERIafJSONabcdef_", "KERI10JSON123456_"];
    let mut chars: Vec<char> = (0..=127u8).map(|c| c as char).collect();
    chars.extend(['é', 'Ａ', '０', '😀', '\u{ff}', '\u{130}', '٣', 'ſ', 'K']);
    ctx.par(base.len() * 17, |i| {
        let (b, at) = (base[i / 17], i % 17);
        for c in &chars {
            for how in 0..2 {
                let mut t: String = b[..at].into();
                t.push(*c);
                t.push_str(&b[at + 1 - how..]);
                ctx.case(|| format!("version string {t:?}"), |o| parse(&t, o));
            }
            for at2 in 0..if ctx.thorough { 17 } else { 0 } {
                for d in "0afgAFJKNZ_# ".chars() {
                    let mut t: Vec<char> = b.chars().collect();
                    t[at] = *c;
                    t[at2] = d;
                    let t: String = t.into_iter().collect();
                    ctx.case(|| format!("version string {t:?}"), |o| parse(&t, o));
                }
            }
        }
        for cut in 0..17 - at {
            let t = format!("{}{}", &b[..at], &b[at + cut..]);
            ctx.case(|| format!("version string {t:?}"), |o| parse(&t, o));
        }
    });
    let mut more: Vec<String> = vec![];
    for b in base {
        for x in ["", " ", "\n", "_", "0", "K", "\"", "KERI", "KERI10JSON000000_", "{\"v\":\"", "\0", "é", "#"] {
            more.push(format!("{x}{b}"));
            more.push(format!("{b}{x}"));
            more.push(format!("{x}{b}{x}"));
        }
        more.push(b.to_lowercase());
        more.push(b.to_uppercase());
        for i in ["KERI", "ACDC", "XXXX", "JSON"] {
            for k in ["JSON", "CBOR", "MGPK", "CESR", "KERI"] {
                more.push(format!("{i}{}{k}{}", &b[4..6], &b[10..]));
            }
        }
    }
    for t in &more {
        ctx.case(|| format!("version string {t:?}"), |o| parse(t, o));
    }
    ctx.section("deviations");

    // sniffing: every start, every kind of surroundings
    let fillers: Vec<&[u8]> = vec![b"x", b"{\"v\":\"", b" ", b"\0", &[0xff], &[0xc3, 0xa9], b"K", b"KERI", b"KERI10JSON00000", b"KERI10JSON000000", b"A", b"0", b"_", &[0x80, 0xf0]];
    let tails: Vec<Vec<u8>> = vec![
        vec![],
        b"\"}".to_vec(),
        vec![b'x'; 11],
        vec![b'x'; 12],
        vec![b'x'; 13],
        vec![0xff; 40],
        vec![0; 29],
        b"\",\"d\":\"KERI10JSON0000aa_\"}".to_vec(),
        b"KERI10JSON0000aa_ACDC10JSON0000bb_".to_vec(),
        [&[0xc3u8, 0x28, 0xf8, 0x80][..], b"-AABAA", &[0xfe; 20]].concat(),
        "é😀".repeat(8).into_bytes(),
    ];
    let inner = ["KERI10JSON000041_", "ACDC10JSONffffff_", "KERI20JSON000041_", "KERIffJSON000000_", "KERI10CBOR000041_", "XXXX10JSON000041_", "KERI10JSON00004G_", "KERI1GJSON000041_", "keri10JSON000041_", "KERI10JSON000041-", "KERI10JSON000041", "KERI10JSON00004F_", "KERI10json000041_"];
    ctx.par(inner.len() * 40, |i| {
        let (v, at) = (inner[i % inner.len()], i / inner.len());
        for f in &fillers {
            let pre: Vec<u8> = f.iter().cycle().take(at).cloned().collect();
            for t in &tails {
                let raw = [&pre[..], v.as_bytes(), &t[..]].concat();
                ctx.case(|| format!("sniff {}", hex(&raw)), |o| look(&raw, o));
            }
        }
    });
    // every length, and a second version string at every distance
    for (k, v) in inner.iter().enumerate() {
        ctx.par(48 * 16, |i| {
            let (gap, at) = (i % 48, i / 48);
            for w in [inner[(k + 1) % inner.len()], "KERI10JSON000041_"] {
                let mut raw = vec![b'{'; at];
                raw.extend_from_slice(v.as_bytes());
                raw.extend(vec![b' '; gap]);
                ctx.case(|| format!("sniff {}", hex(&raw)), |o| look(&raw, o));
                raw.extend_from_slice(w.as_bytes());
                ctx.case(|| format!("sniff {}", hex(&raw)), |o| look(&raw, o));
                // overlapping
                if gap < 17 {
                    let mut raw = vec![b'{'; at];
                    raw.extend_from_slice(&v.as_bytes()[..gap.min(v.len())]);
                    raw.extend_from_slice(w.as_bytes());
                    raw.extend_from_slice(&[b'}'; 12]);
                    ctx.case(|| format!("sniff {}", hex(&raw)), |o| look(&raw, o));
                }
            }
        });
    }
    // one byte of an otherwise good serialization replaced by anything
    let good = b"{\"v\":\"KERI10JSON000041_\",\"d\":\"\"}\xff\x00-AAB";
    ctx.par(good.len() * 256, |i| {
        let mut raw = good.to_vec();
        raw[i / 256] = i as u8;
        ctx.case(|| format!("sniff {}", hex(&raw)), |o| look(&raw, o));
    });
    ctx.par(good.len(), |n| {
        ctx.case(|| format!("sniff {}", hex(&good[..n])), |o| look(&good[..n], o));
        ctx.case(|| format!("sniff {}", hex(&good[n..])), |o| look(&good[n..], o));
    });
    ctx.section("sniffing");
}
