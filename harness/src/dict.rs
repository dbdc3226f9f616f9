//! Numbers written in the crate's sources. They only bias the generators (a threshold on a size or a value
//! shows near it); nothing is judged by them, and any text of the sources, or none, will do.
use crate::rng::G;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<usize>,
    pub floats: Vec<f64>,
}

/// numbers in a piece of Rust source, comments and strings left out
fn scan(src: &str, d: &mut Dict) {
    let b = src.as_bytes();
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut i = 0;
    while i < b.len() {
        if at(i) == b'/' && at(i + 1) == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if at(i) == b'"' {
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
        } else if at(i).is_ascii_digit() {
            let s = i;
            let mut float = false;
            while i < b.len() {
                let c = b[i];
                let exp = (c == b'-' || c == b'+') && matches!(b[i - 1], b'e' | b'E') && at(i + 1).is_ascii_digit();
                let dot = c == b'.' && !float && at(i + 1) != b'.' && !at(i + 1).is_ascii_alphabetic();
                if !(word(c) || exp || dot) {
                    break;
                }
                float |= dot || exp;
                i += 1;
            }
            let t: String = src[s..i].chars().filter(|&c| c != '_').collect();
            let t = t.trim_end_matches("f64").trim_end_matches("f32").trim_end_matches("usize").trim_end_matches('.');
            if let Ok(v) = t.parse::<usize>() {
                d.ints.push(v);
                d.floats.push(v as f64);
            } else if let Ok(v) = t.parse::<f64>() {
                d.floats.push(v);
            }
        } else if word(at(i)) {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn walk(dir: &std::path::Path, d: &mut Dict) {
    let mut es: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, d);
        } else if p.extension().is_some_and(|e| e == "rs") && !p.file_name().is_some_and(|f| f == "tests.rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                scan(&s, d);
            }
        }
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        walk(&std::path::Path::new(&root).join("src"), &mut d);
        d.ints.retain(|&v| (2..=100_000).contains(&v));
        d.ints.sort_unstable();
        d.ints.dedup();
        d.floats.retain(|v| v.is_finite() && *v > 0.0 && *v != 1.0 && *v < 1e12);
        d.floats.sort_by(|a, b| a.total_cmp(b));
        d.floats.dedup();
        d
    })
}

/// a number of the sources within [lo, hi], or next to one
pub fn near_int(g: &mut G, lo: usize, hi: usize) -> Option<usize> {
    let c: Vec<usize> = dict().ints.iter().flat_map(|&v| [v - 1, v, v + 1]).filter(|v| (lo..=hi).contains(v)).collect();
    if c.is_empty() {
        None
    } else {
        Some(g.pick(&c))
    }
}

/// a number of the sources within [lo, hi], exactly or on either side of it
pub fn near_float(g: &mut G, lo: f64, hi: f64) -> Option<f64> {
    let c: Vec<f64> = dict().floats.iter().copied().filter(|v| (lo..=hi).contains(v)).collect();
    if c.is_empty() {
        return None;
    }
    let v = g.pick(&c) * g.pick(&[1.0, 1.0, 0.99, 1.01, 0.5, 2.0]);
    (lo..=hi).contains(&v).then_some(v)
}
