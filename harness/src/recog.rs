//! Reference recognizers: for each textual type an independent reading of the documented rule.
//! `A` = must be accepted, `R` = must be rejected, `U` = the documentation does not say.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rec {
    A,
    R,
    U,
}
use Rec::{A, R, U};

pub fn and(xs: &[Rec]) -> Rec {
    if xs.contains(&R) {
        R
    } else if xs.contains(&U) {
        U
    } else {
        A
    }
}
fn b(ok: bool) -> Rec {
    if ok {
        A
    } else {
        R
    }
}
fn lower(c: char) -> bool {
    ('a'..='z').contains(&c)
}
fn upper(c: char) -> bool {
    ('A'..='Z').contains(&c)
}
fn digit(c: char) -> bool {
    ('0'..='9').contains(&c)
}
fn alnum(c: char) -> bool {
    lower(c) || upper(c) || digit(c)
}

/// Unsigned decimal integer no larger than `max`. `+`-prefixed numbers are unspecified.
pub fn uint(s: &str, max: u128) -> (Rec, u128) {
    let (plus, d) = match s.strip_prefix('+') {
        Some(d) => (true, d),
        None => (false, s),
    };
    if d.is_empty() || !d.chars().all(digit) {
        return (R, 0);
    }
    let mut v: u128 = 0;
    for c in d.chars() {
        v = v.saturating_mul(10).saturating_add(c as u128 - '0' as u128);
    }
    if v > max {
        return (R, v);
    }
    (if plus { U } else { A }, v)
}

pub fn identifier(s: &str) -> Rec {
    let mut it = s.chars();
    match it.next() {
        Some(c) if alnum(c) => b(it.all(|c| alnum(c) || c == '.' || c == '_' || c == '-')),
        _ => R,
    }
}
pub fn map_key(s: &str) -> Rec {
    b(!s.is_empty() && !s.chars().any(|c| c == '\n'))
}
pub fn extension_key(s: &str) -> Rec {
    b(s.as_bytes().starts_with(b"x-") && !s.bytes().any(|c| c == b'\n'))
}
pub fn project_name(s: &str) -> Rec {
    let mut it = s.chars();
    match it.next() {
        Some(c) if lower(c) || digit(c) => b(it.all(|c| lower(c) || digit(c) || c == '_' || c == '-')),
        _ => R,
    }
}
pub fn hostname(s: &str) -> Rec {
    b(s.split('.').all(|l| {
        let v: Vec<char> = l.chars().collect();
        !v.is_empty()
            && v.iter().all(|&c| alnum(c) || c == '-')
            && v[0] != '-'
            && v[v.len() - 1] != '-'
    }))
}
pub fn user_name(s: &str) -> Rec {
    let v: Vec<char> = s.chars().collect();
    if v.is_empty() || v.len() > 32 {
        return R;
    }
    for (i, &c) in v.iter().enumerate() {
        if !(alnum(c) || c == '_' || c == '-' || (c == '$' && i + 1 == v.len())) {
            return R;
        }
    }
    if v[0] == '-' || v.iter().all(|&c| digit(c)) {
        return R;
    }
    if s == "$" {
        return U;
    }
    A
}
pub fn id_or_name(s: &str) -> Rec {
    match uint(s, u32::MAX as u128).0 {
        R => user_name(s),
        r => r,
    }
}
pub fn user(s: &str) -> Rec {
    match s.find(':') {
        Some(i) => and(&[id_or_name(&s[..i]), id_or_name(&s[i + 1..])]),
        None => id_or_name(s),
    }
}
pub fn ulimit_resource(s: &str) -> Rec {
    b(!s.is_empty() && s.chars().all(lower))
}
pub fn tag(s: &str) -> Rec {
    let n = s.chars().count();
    b((1..=128).contains(&n) && s.chars().all(|c| alnum(c) || c == '.' || c == '_' || c == '-'))
}
pub fn digest(s: &str) -> Rec {
    let Some(i) = s.find(':') else { return R };
    let (alg, enc) = (&s[..i], &s[i + 1..]);
    let ok_alg = alg
        .split(['+', '.', '_', '-'])
        .all(|c| !c.is_empty() && c.chars().all(|c| lower(c) || digit(c)));
    b(ok_alg
        && !enc.is_empty()
        && enc.chars().all(|c| alnum(c) || c == '=' || c == '_' || c == '-'))
}
fn name_part(s: &str) -> bool {
    // alnum+ (sep alnum+)*, sep = '.' | '_' | '__' | '-'+
    let v: Vec<char> = s.chars().collect();
    let an = |c: char| lower(c) || digit(c);
    let mut i = 0;
    let n = v.len();
    loop {
        let st = i;
        while i < n && an(v[i]) {
            i += 1;
        }
        if i == st {
            return false;
        }
        if i == n {
            return true;
        }
        match v[i] {
            '.' => i += 1,
            '_' => {
                i += 1;
                if i < n && v[i] == '_' {
                    i += 1;
                }
            }
            '-' => {
                while i < n && v[i] == '-' {
                    i += 1;
                }
            }
            _ => return false,
        }
    }
}
/// Returns the verdict and the end of the registry part.
pub fn image_name_reg(s: &str) -> (Rec, Option<usize>) {
    let mut parts = s.split('/');
    let first = parts.next().unwrap_or("");
    let mut reg = None;
    let mut r = A;
    if first.contains('.') {
        reg = Some(first.len());
        if let Some(i) = first.find(':') {
            r = and(&[
                b(name_part(&first[..i])),
                uint(&first[i + 1..], u16::MAX as u128).0,
            ]);
        } else {
            r = b(name_part(first));
        }
    } else {
        r = and(&[r, b(name_part(first))]);
    }
    for p in parts {
        r = and(&[r, b(name_part(p))]);
    }
    (r, reg)
}
pub fn image_name(s: &str) -> Rec {
    image_name_reg(s).0
}
/// The parts of an image reference: (name end, tag, digest).
pub fn image_split(s: &str) -> (&str, Option<&str>, Option<&str>) {
    let (rest, dig) = match s.find('@') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    match rest.rfind(':') {
        Some(i) if !rest[i + 1..].contains('/') => (&rest[..i], Some(&rest[i + 1..]), dig),
        _ => (rest, None, dig),
    }
}
pub fn image(s: &str) -> Rec {
    let (name, t, d) = image_split(s);
    if t.is_some() && d.is_some() {
        return R;
    }
    let mut r = image_name(name);
    if let Some(t) = t {
        r = and(&[r, tag(t)]);
    }
    if let Some(d) = d {
        r = and(&[r, digest(d)]);
    }
    r
}
pub fn cache_option(s: &str) -> Rec {
    b(!s.is_empty() && !s.chars().any(char::is_whitespace))
}
pub fn cache_parts(s: &str) -> Option<(String, Vec<(String, String)>)> {
    let rest = s.strip_prefix("type=")?;
    let mut it = rest.split(',');
    let ty = it.next()?.to_owned();
    Some((
        ty,
        it.map(|o| match o.find('=') {
            Some(i) => (o[..i].to_owned(), o[i + 1..].to_owned()),
            None => (o.to_owned(), String::new()),
        })
        .collect(),
    ))
}
pub fn cache(s: &str) -> Rec {
    if !s.contains(',') && !s.starts_with("type=") {
        return image(s);
    }
    let Some((ty, opts)) = cache_parts(s) else { return R };
    let mut r = A;
    for (k, v) in &opts {
        r = and(&[r, cache_option(k), cache_option(v)]);
    }
    let mut keys: Vec<&String> = opts.iter().map(|o| &o.0).collect();
    keys.sort();
    keys.dedup();
    if keys.len() != opts.len() || keys.iter().any(|k| *k == "type") {
        r = and(&[r, U]);
    }
    if ty == "registry" {
        match opts.iter().filter(|o| o.0 == "ref").last() {
            Some((_, i)) => and(&[r, image(i)]),
            None => R,
        }
    } else {
        and(&[r, cache_option(&ty)])
    }
}
pub fn ssh_id(s: &str) -> Rec {
    match s.find('=') {
        Some(i) => b(i > 0 && i + 1 < s.len()),
        None => R,
    }
}
pub fn ssh_auth(s: &str) -> Rec {
    if s == "default" {
        A
    } else {
        ssh_id(s)
    }
}
pub fn any(_: &str) -> Rec {
    A
}
pub fn absolute_path(s: &str) -> Rec {
    b(s.starts_with('/'))
}
pub fn host_path(s: &str) -> Rec {
    b(s.starts_with('/')
        || s == "."
        || s == ".."
        || s.starts_with("./")
        || s.starts_with("../"))
}
pub fn source(s: &str) -> Rec {
    if s.starts_with('/') {
        A
    } else if s.starts_with('.') {
        match host_path(s) {
            A => A,
            _ => R,
        }
    } else {
        identifier(s)
    }
}
pub fn permissions(s: &str) -> Rec {
    b(s.chars().all(|c| c == 'r' || c == 'w' || c == 'm'))
}
pub fn device(s: &str) -> Rec {
    let v: Vec<&str> = s.splitn(3, ':').collect();
    if v.len() < 2 {
        return R;
    }
    let r = and(&[
        absolute_path(v[1]),
        if v.len() == 3 { permissions(v[2]) } else { A },
    ]);
    // An empty host path or an empty permission part is not described.
    if r == A && (v[0].is_empty() || (v.len() == 3 && v[2].is_empty())) {
        U
    } else {
        r
    }
}
pub fn device_kind(s: &str) -> Rec {
    b(s == "a" || s == "b" || s == "c")
}
pub fn major_minor(s: &str) -> Rec {
    if s == "*" {
        A
    } else if s.is_empty() {
        U
    } else {
        uint(s, u16::MAX as u128).0
    }
}
pub fn cgroup_rule(s: &str) -> Rec {
    let v: Vec<&str> = s.splitn(3, ' ').collect();
    if v.len() < 2 {
        return R;
    }
    let Some(i) = v[1].find(':') else { return R };
    let r = and(&[
        device_kind(v[0]),
        major_minor(&v[1][..i]),
        major_minor(&v[1][i + 1..]),
        if v.len() == 3 { permissions(v[2]) } else { A },
    ]);
    if r == A && v.len() == 3 && v[2].is_empty() {
        U
    } else {
        r
    }
}
pub fn range_vals(s: &str) -> (Rec, u16, u16) {
    let m = u16::MAX as u128;
    match s.find('-') {
        None => {
            let (r, v) = uint(s, m);
            (r, v as u16, v as u16)
        }
        Some(i) => {
            let (r1, a) = uint(&s[..i], m);
            let (r2, c) = uint(&s[i + 1..], m);
            let r = and(&[r1, r2]);
            if r != R && a > c {
                return (R, 0, 0);
            }
            (r, a as u16, c as u16)
        }
    }
}
pub fn range(s: &str) -> Rec {
    range_vals(s).0
}
pub fn short_ranges_vals(s: &str) -> (Rec, Option<(u16, u16)>, (u16, u16)) {
    match s.find(':') {
        None => {
            let (r, a, c) = range_vals(s);
            (r, None, (a, c))
        }
        Some(0) => {
            let (r, a, c) = range_vals(&s[1..]);
            (r, None, (a, c))
        }
        Some(i) => {
            let (r1, a, c) = range_vals(&s[..i]);
            let (r2, d, e) = range_vals(&s[i + 1..]);
            let r = and(&[r1, r2]);
            if r != R && c - a != e - d {
                return (R, None, (0, 0));
            }
            (r, Some((a, c)), (d, e))
        }
    }
}
pub fn short_ranges(s: &str) -> Rec {
    short_ranges_vals(s).0
}
pub struct PortVals {
    pub rec: Rec,
    pub ip: Option<std::net::IpAddr>,
    pub host: Option<(u16, u16)>,
    pub container: (u16, u16),
    pub protocol: Option<String>,
}
pub fn short_port_vals(s: &str) -> PortVals {
    let (s, protocol) = match s.find('/') {
        Some(i) => (&s[..i], Some(s[i + 1..].to_owned())),
        None => (s, None),
    };
    let mut rec = A;
    if protocol.as_deref() == Some("") {
        rec = U;
    }
    let colons: Vec<usize> = s.match_indices(':').map(|x| x.0).collect();
    let mut ip = None;
    let rest = if colons.len() >= 2 {
        let i = colons[colons.len() - 2];
        let t = &s[..i];
        let bracketed = t.len() >= 2 && t.starts_with('[') && t.ends_with(']');
        let inner = if bracketed { &t[1..t.len() - 1] } else { t };
        match inner.parse::<std::net::IpAddr>() {
            Ok(a) => {
                if bracketed && a.is_ipv4() {
                    rec = and(&[rec, U]);
                }
                ip = Some(a);
            }
            Err(_) => rec = R,
        }
        &s[i + 1..]
    } else {
        s
    };
    let (r, host, container) = short_ranges_vals(rest);
    // ":80" without a host ip is an unusual spelling of "80".
    PortVals {
        rec: and(&[rec, r]),
        ip,
        host,
        container,
        protocol,
    }
}
pub fn short_port(s: &str) -> Rec {
    short_port_vals(s).rec
}
pub fn expose(s: &str) -> Rec {
    match s.find('/') {
        Some(i) => and(&[range(&s[..i]), if i + 1 == s.len() { U } else { A }]),
        None => range(s),
    }
}
pub fn mac(s: &str) -> Rec {
    let v: Vec<&str> = s.split(':').collect();
    if v.len() != 6 {
        return R;
    }
    let mut r = A;
    for p in v {
        let hex = !p.is_empty() && p.chars().all(|c| c.is_ascii_hexdigit());
        let one = if hex && p.len() == 2 {
            A
        } else if let Some(q) = p.strip_prefix('+') {
            if !q.is_empty() && q.chars().all(|c| c.is_ascii_hexdigit()) {
                U
            } else {
                R
            }
        } else if !hex {
            R
        } else if p.len() == 1 {
            U
        } else if p.trim_start_matches('0').len() <= 2 {
            U
        } else {
            R
        };
        r = and(&[r, one]);
    }
    r
}
pub fn network_mode(s: &str) -> Rec {
    if let Some(i) = s.strip_prefix("service:") {
        identifier(i)
    } else if let Some(i) = s.strip_prefix("container:") {
        identifier(i)
    } else {
        A
    }
}
pub fn ipc(s: &str) -> Rec {
    match s.strip_prefix("service:") {
        Some(i) => identifier(i),
        None => A,
    }
}
pub fn link(s: &str) -> Rec {
    match s.find(':') {
        Some(i) => {
            let r = identifier(&s[..i]);
            if r == A && i + 1 == s.len() {
                U
            } else {
                r
            }
        }
        None => identifier(s),
    }
}
pub fn volumes_from_source(s: &str) -> Rec {
    identifier(s.strip_prefix("container:").unwrap_or(s))
}
pub fn volumes_from(s: &str) -> Rec {
    let s = s
        .strip_suffix(":ro")
        .or_else(|| s.strip_suffix(":rw"))
        .unwrap_or(s);
    volumes_from_source(s)
}
pub fn short_volume(s: &str) -> Rec {
    let v: Vec<&str> = s.splitn(3, ':').collect();
    if v.len() == 1 {
        return absolute_path(v[0]);
    }
    let mut r = and(&[source(v[0]), absolute_path(v[1])]);
    if v.len() == 3 {
        let (mut access, mut se) = (0, 0);
        for o in v[2].split(',') {
            match o {
                "rw" | "ro" => access += 1,
                "z" | "Z" => se += 1,
                _ => r = R,
            }
        }
        if access > 1 || se > 1 {
            r = R;
        }
    }
    r
}
/// Elements listed by a cpuset; the second value is the total span of its ranges.
pub fn cpuset_vals(s: &str) -> (Rec, u128, std::collections::BTreeSet<u64>) {
    let mut set = std::collections::BTreeSet::new();
    let mut span = 0u128;
    if s.is_empty() {
        return (A, 0, set);
    }
    let (body, trailing) = match s.strip_suffix(',') {
        Some(x) => (x, true),
        None => (s, false),
    };
    let mut r = if trailing { U } else { A };
    let m = u64::MAX as u128;
    for p in body.split(',') {
        let (a, c, rr) = match p.find('-') {
            None => {
                let (r1, v) = uint(p, m);
                (v, v, r1)
            }
            Some(i) => {
                let (r1, a) = uint(&p[..i], m);
                let (r2, c) = uint(&p[i + 1..], m);
                (a, c, and(&[r1, r2]))
            }
        };
        if rr == R || a > c {
            r = R;
            // The code may already have built the elements listed before the error.
            continue;
        }
        r = and(&[r, rr]);
        span += c - a + 1;
        if span <= 200_000 {
            set.extend(a as u64..=c as u64);
        }
    }
    (r, span, set)
}
pub fn cpuset(s: &str) -> Rec {
    cpuset_vals(s).0
}
pub fn byte_value_vals(s: &str) -> (Rec, u64, &'static str) {
    let m = u64::MAX as u128;
    let (num, unit) = if let Some(n) = s.strip_suffix("kb").or(s.strip_suffix('k')).or(s.strip_suffix('K')) {
        (n, "kb")
    } else if let Some(n) = s.strip_suffix("mb").or(s.strip_suffix('m')).or(s.strip_suffix('M')) {
        (n, "mb")
    } else if let Some(n) = s.strip_suffix("gb").or(s.strip_suffix('g')).or(s.strip_suffix('G')) {
        (n, "gb")
    } else if let Some(n) = s.strip_suffix('b').or(s.strip_suffix('B')) {
        (n, "b")
    } else {
        (s, "b")
    };
    let (r, v) = uint(num, m);
    (r, v as u64, unit)
}
pub fn byte_value(s: &str) -> Rec {
    byte_value_vals(s).0
}
pub fn limit_u32(s: &str) -> Rec {
    if s == "-1" { A } else { uint(s, u32::MAX as u128).0 }
}
pub fn limit_u64(s: &str) -> Rec {
    if s == "-1" { A } else { uint(s, u64::MAX as u128).0 }
}
pub fn limit_bytes(s: &str) -> Rec {
    if s == "-1" { A } else { byte_value(s) }
}
pub fn count(s: &str) -> Rec {
    if s == "all" { A } else { uint(s, u64::MAX as u128).0 }
}

pub const PLATFORMS: &[(&str, &[&str])] = &[
    ("aix", &["ppc64"]),
    ("android", &["386", "amd64", "arm", "arm64"]),
    ("darwin", &["amd64", "arm64"]),
    ("dragonfly", &["amd64"]),
    ("freebsd", &["386", "amd64", "arm"]),
    ("illumos", &["amd64"]),
    ("ios", &["arm64"]),
    ("js", &["wasm"]),
    (
        "linux",
        &[
            "386", "amd64", "arm", "arm64", "loong64", "mips", "mipsle", "mips64", "mips64le",
            "ppc64", "ppc64le", "riscv64", "s390x",
        ],
    ),
    ("netbsd", &["386", "amd64", "arm"]),
    ("openbsd", &["386", "amd64", "arm", "arm64"]),
    ("plan9", &["386", "amd64", "arm"]),
    ("solaris", &["amd64"]),
    ("wasip1", &["wasm"]),
    ("windows", &["386", "amd64", "arm", "arm64"]),
];
pub const ARCHES: &[&str] = &[
    "386", "amd64", "arm", "arm64", "loong64", "mips", "mipsle", "mips64", "mips64le", "ppc64",
    "ppc64le", "riscv64", "s390x", "wasm",
];
pub fn variants(arch: &str) -> &'static [&'static str] {
    match arch {
        "arm" => &["v6", "v7", "v8"],
        "arm64" => &["v8"],
        _ => &[],
    }
}
pub fn arch(s: &str) -> Rec {
    let (a, v) = match s.find('/') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    b(ARCHES.contains(&a) && v.map_or(true, |v| variants(a).contains(&v)))
}
pub fn os(s: &str) -> Rec {
    b(PLATFORMS.iter().any(|p| p.0 == s))
}
pub fn platform(s: &str) -> Rec {
    let (o, rest) = match s.find('/') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let Some(p) = PLATFORMS.iter().find(|p| p.0 == o) else { return R };
    match rest {
        None => A,
        Some(r) => {
            let a = r.split('/').next().unwrap_or("");
            b(p.1.contains(&a) && arch(r) == A)
        }
    }
}
