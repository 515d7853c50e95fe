//! Words and numbers to put into generated inputs: a vocabulary of Compose files together with the
//! literals written in the library's own sources, as a fuzzer's dictionary has them. Literals that
//! the committed list `dict.base` does not have are drawn much more often, so that the inputs go
//! where a change is. They only steer generation: no check compares anything with them.
use crate::rng::Rng;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

const VOCABULARY: &[&str] = &[
    "min", "max", "zstd", "gzip", "estargz", "uncompressed", "latest", "stable", "default", "local", "bridge", "overlay", "macvlan", "ipvlan", "host",
    "none", "nfs", "cifs", "tmpfs", "bind", "volume", "true", "false", "yes", "no", "on", "off", "null", "root", "nobody", "docker.io", "localhost",
    "localhost:5000", "ghcr.io", "library", "docker", "podman", "scratch", "Dockerfile", "Containerfile", "compose.yaml", ".env", ".dockerignore", "..",
    ".", "/", "//", "/dev", "/dev/null", "/tmp", "/var/run/docker.sock", "~", "~/", "$", "$$", "${", "}", "%", "http://", "https://", "ssh://", "git://",
    "git@", "file://", "docker-image://", "oci-layout://", "service:", "container:", "target:", "sha256:", "sha512:", "x-", "tcp", "udp", "sctp", "http",
    "json-file", "journald", "syslog", "SIGTERM", "SIGKILL", "NET_ADMIN", "ALL", "seccomp", "unconfined", "label", "disable", "nofile", "nproc", "memlock",
    "127.0.0.1", "0.0.0.0", "::1", "::", "255.255.255.255", "ff:ff:ff:ff:ff:ff", "00:00:00:00:00:00", "kib", "KiB", "mib", "gib", "tb", "TB", "kB", "Kb",
    "bytes", "ib", "i", "p", "min", "d", "ns", "µs", "hr", "sec", "uid=", "mode=", "ro", "rw", "z", "Z", "nocopy", "consistent", "cached", "delegated",
    "rprivate", "index", "size", "version", "3.8", "1e3", "0x10", "0o17", "-0", "+1", "1_000", "inf", "nan", "<<", "*", "&", "!",
];
const NUMBERS: &[u64] = &[
    2, 3, 7, 8, 9, 10, 11, 12, 16, 20, 22, 31, 32, 33, 60, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 443, 500, 512, 999, 1000,
    1001, 1023, 1024, 1025, 2048, 3600, 4095, 4096, 8080, 9999, 10_000, 32_767, 32_768, 49_152, 65_534, 65_535, 65_536, 86_400, 100_000, 999_999,
    1_000_000, 1_048_576, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296, 1_000_000_000, 9_007_199_254_740_992, 9_007_199_254_740_993,
    9_223_372_036_854_775_807, 9_223_372_036_854_775_808,
];

#[derive(Default)]
pub struct Dict {
    words: Vec<String>,
    numbers: Vec<u64>,
    floats: Vec<f64>,
    hot_words: Vec<String>,
    hot_numbers: Vec<u64>,
    hot_floats: Vec<f64>,
}

/// The literals of a source text outside of comments and of its test module.
fn literals(src: &str, out: &mut BTreeSet<String>) {
    let src = src.split("#[cfg(test)]\n#[allow").next().unwrap_or(src).split("#[cfg(test)]\nmod").next().unwrap_or(src);
    let c: Vec<char> = src.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < c.len() {
        let next = |k: usize| c.get(i + k).copied().unwrap_or('\0');
        if c[i] == '/' && next(1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && next(1) == '*' {
            while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) {
                i += 1;
            }
            i += 2;
        } else if c[i] == 'r' && (next(1) == '"' || (next(1) == '#' && next(2) == '"')) && (i == 0 || !word(c[i - 1])) {
            let hash = next(1) == '#';
            i += if hash { 3 } else { 2 };
            let from = i;
            while i < c.len() && !(c[i] == '"' && (!hash || c.get(i + 1) == Some(&'#'))) {
                i += 1;
            }
            out.insert(c[from..i.min(c.len())].iter().collect());
            i += 1;
        } else if c[i] == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                i = escaped(&c, i, &mut s);
            }
            i += 1;
            // what stands around the holes of a format string
            let mut part = String::new();
            let mut depth = 0;
            for ch in s.chars() {
                match ch {
                    '{' => {
                        depth += 1;
                        out.insert(std::mem::take(&mut part));
                    }
                    '}' if depth > 0 => depth -= 1,
                    _ if depth == 0 => part.push(ch),
                    _ => {}
                }
            }
            out.insert(part);
            out.insert(s);
        } else if c[i] == '\'' {
            // a character, or a lifetime
            if next(1) == '\\' || next(2) == '\'' {
                let mut s = String::new();
                i = escaped(&c, i + 1, &mut s);
                if c.get(i) == Some(&'\'') {
                    i += 1;
                }
                out.insert(s);
            } else {
                i += 1;
            }
        } else if c[i].is_ascii_digit() && (i == 0 || !word(c[i - 1])) {
            let from = i;
            while i < c.len() && (word(c[i]) || (c[i] == '.' && c.get(i + 1).is_some_and(char::is_ascii_digit))) {
                i += 1;
            }
            let t: String = c[from..i].iter().filter(|c| **c != '_').collect();
            if let Some(n) = number(&t) {
                out.insert(format!("#{n}"));
            } else if t.contains('.') {
                if let Ok(f) = t.trim_end_matches("f64").trim_end_matches("f32").parse::<f64>() {
                    out.insert(format!("#.{f}"));
                }
            }
        } else {
            i += 1;
        }
    }
}
fn escaped(c: &[char], i: usize, out: &mut String) -> usize {
    if c[i] != '\\' {
        out.push(c[i]);
        return i + 1;
    }
    let at = |k: usize| c.get(i + k).copied().unwrap_or('\0');
    match at(1) {
        'n' => out.push('\n'),
        't' => out.push('\t'),
        'r' => out.push('\r'),
        '0' => out.push('\0'),
        'x' => {
            let h: String = [at(2), at(3)].iter().collect();
            out.extend(u8::from_str_radix(&h, 16).ok().map(char::from));
            return i + 4;
        }
        'u' => {
            let mut k = 3;
            let mut h = String::new();
            while i + k < c.len() && at(k) != '}' && k < 12 {
                h.push(at(k));
                k += 1;
            }
            out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            return i + k + 1;
        }
        '\n' => {
            let mut k = 2;
            while i + k < c.len() && at(k).is_whitespace() {
                k += 1;
            }
            return i + k;
        }
        other => out.push(other),
    }
    i + 2
}
fn number(t: &str) -> Option<u64> {
    let t = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].iter().find_map(|s| t.strip_suffix(s)).unwrap_or(t);
    if let Some(h) = t.strip_prefix("0x") {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(b) = t.strip_prefix("0b") {
        u64::from_str_radix(b, 2).ok()
    } else if let Some(o) = t.strip_prefix("0o") {
        u64::from_str_radix(o, 8).ok()
    } else {
        t.parse().ok()
    }
}
fn walk(dir: &Path, out: &mut BTreeSet<String>) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                literals(&s, out);
            }
        }
    }
}
/// All literals of the sources, one per line, as `dict.base` lists them.
pub fn listing() -> Vec<String> {
    let mut all = BTreeSet::new();
    let root = Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo"));
    walk(&root.join("src"), &mut all);
    walk(&root.join("compose_spec_macros/src"), &mut all);
    all.into_iter().filter(|w| !w.is_empty() && w.chars().count() <= 40).map(|w| format!("{w:?}")).collect()
}
fn load() -> Dict {
    let base: BTreeSet<&str> = include_str!("../dict.base").lines().collect();
    let mut d = Dict { words: VOCABULARY.iter().map(|w| (*w).to_owned()).collect(), numbers: NUMBERS.to_vec(), ..Dict::default() };
    let mut all = listing();
    if let Ok(extra) = std::env::var("CS_HOT") {
        all.extend(extra.split('|').map(|w| format!("{w:?}")));
    }
    for line in all {
        let Ok(w) = serde_json_like(&line) else { continue };
        let hot = !base.contains(line.as_str());
        if let Some(f) = w.strip_prefix("#.").and_then(|f| f.parse().ok()) {
            if hot { &mut d.hot_floats } else { &mut d.floats }.push(f);
        } else if let Some(n) = w.strip_prefix('#').and_then(|n| n.parse().ok()) {
            if hot { &mut d.hot_numbers } else { &mut d.numbers }.push(n);
        } else if hot {
            d.hot_words.push(w);
        } else if !w.contains(' ') {
            d.words.push(w);
        }
    }
    d
}
/// Undoes `{:?}` of a string.
fn serde_json_like(line: &str) -> Result<String, ()> {
    let inner: Vec<char> = line.strip_prefix('"').and_then(|l| l.strip_suffix('"')).ok_or(())?.chars().collect();
    let mut s = String::new();
    let mut i = 0;
    while i < inner.len() {
        i = escaped(&inner, i, &mut s);
    }
    Ok(s)
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(load)
}
impl Dict {
    /// How many entries there are, and how many of them are new.
    pub fn sizes(&self) -> (usize, usize) {
        let hot = self.hot_words.len() + self.hot_numbers.len() + self.hot_floats.len();
        (self.words.len() + self.numbers.len() + self.floats.len() + hot, hot)
    }
}
fn from<'a, T>(r: &mut Rng, hot: &'a [T], all: &'a [T]) -> &'a T {
    if !hot.is_empty() && r.chance(4, 5) { r.pick(hot) } else { r.pick(all) }
}
/// True one time in `cold`, or one time in `warm` when there are new words.
pub fn word_now(r: &mut Rng, cold: u64, warm: u64) -> bool {
    r.chance(1, if dict().hot_words.is_empty() { cold } else { warm })
}
pub fn number_now(r: &mut Rng, cold: u64, warm: u64) -> bool {
    r.chance(1, if dict().hot_numbers.is_empty() { cold } else { warm })
}
/// Every word, the new ones first.
pub fn all() -> &'static [String] {
    static A: OnceLock<Vec<String>> = OnceLock::new();
    A.get_or_init(|| {
        let d = dict();
        let mut seen = BTreeSet::new();
        d.hot_words.iter().chain(&d.words).filter(|w| seen.insert(w.as_str())).cloned().collect()
    })
}
pub fn word(r: &mut Rng) -> &'static str {
    let d = dict();
    from(r, &d.hot_words, &d.words)
}
/// A number of the dictionary or one next to it.
pub fn number_near(r: &mut Rng) -> u64 {
    let d = dict();
    let n = *from(r, &d.hot_numbers, &d.numbers);
    match r.below(5) {
        0 => n.saturating_sub(1),
        1 => n.saturating_add(1),
        _ => n,
    }
}
pub fn float(r: &mut Rng) -> Option<f64> {
    let d = dict();
    let v = if d.hot_floats.is_empty() { &d.floats } else { &d.hot_floats };
    (!v.is_empty()).then(|| *r.pick(v))
}
/// A small number of the dictionary to use as a length, when there is a new one.
pub fn length(r: &mut Rng, max: u64) -> Option<usize> {
    let small: Vec<u64> = dict().hot_numbers.iter().copied().filter(|n| *n > 1 && *n <= max).collect();
    if small.is_empty() {
        return None;
    }
    let n = *r.pick(&small) as usize;
    Some(match r.below(4) {
        0 => n - 1,
        1 => n + 1,
        _ => n,
    })
}
/// A text with a word of the dictionary in it: in place of it or of a part of it, or next to one.
pub fn splice(r: &mut Rng, s: &str) -> String {
    let w = word(r);
    let v: Vec<char> = s.chars().collect();
    let put = |a: usize, b: usize| v[..a].iter().copied().chain(w.chars()).chain(v[b..].iter().copied()).collect::<String>();
    let n = v.len();
    match r.below(7) {
        0 => w.to_owned(),
        1 => put(0, 0),
        2 => put(n, n),
        3 => {
            let i = r.below(n + 1);
            put(i, i)
        }
        _ => {
            // a run of letters and digits, or what stands between two of them
            let mut cuts: Vec<usize> = (1..n).filter(|i| v[*i].is_alphanumeric() != v[*i - 1].is_alphanumeric()).collect();
            cuts.insert(0, 0);
            cuts.push(n);
            let k = r.below(cuts.len() - 1);
            if r.chance(1, 4) { put(cuts[k], cuts[k]) } else { put(cuts[k], cuts[k + 1]) }
        }
    }
}
/// A text with a run of digits replaced by a number of the dictionary, or drawn out to such a length.
pub fn renumber(r: &mut Rng, s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    let n = v.len();
    let starts: Vec<usize> = (0..n).filter(|i| v[*i].is_ascii_digit() && (*i == 0 || !v[*i - 1].is_ascii_digit())).collect();
    if starts.is_empty() || r.chance(1, 3) {
        let Some(want) = length(r, 300) else { return s.to_owned() };
        if n == 0 {
            return "a".repeat(want);
        }
        // repeat one character, or the whole text
        if n < want {
            let i = r.below(n);
            return v[..i].iter().copied().chain(std::iter::repeat(v[i]).take(want - n)).chain(v[i..].iter().copied()).collect();
        }
        return v[..want].iter().collect();
    }
    let a = *r.pick(&starts);
    let b = (a..n).find(|i| !v[*i].is_ascii_digit()).unwrap_or(n);
    let num = number_near(r).to_string();
    v[..a].iter().copied().chain(num.chars()).chain(v[b..].iter().copied()).collect()
}
