//! Document generator: for every part of the model a table of its fields, each with a generator
//! that produces an input tree together with the tree a compose file written back must have.
//! The tables are written from the documentation of the format, not from the implementation.
use crate::dict;
use crate::recog::{self, Rec};
use crate::rng::Rng;
use crate::strs as t;
use serde_yaml::{Mapping, Value as V};
use std::collections::HashMap;

/// Input tree.
#[derive(Clone, Debug)]
pub enum N {
    Leaf(V),
    Seq(Vec<N>),
    /// A struct: keys are fields, their order means nothing.
    Struct(&'static S, Vec<(String, N)>),
    /// A map with user chosen keys.
    Map(Vec<(String, N)>),
}
/// Expected output tree.
#[derive(Clone, Debug, PartialEq)]
pub enum X {
    Leaf(V),
    Seq(Vec<X>),
    /// Keys in any order, except that extension keys keep their relative order.
    Struct(Vec<(String, X)>),
    /// Keys in this order.
    Map(Vec<(String, X)>),
}
/// Input and expected output; `None` when nothing is to be written.
pub type Out = (N, Option<X>);
pub type Gen = fn(&mut G) -> Out;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Null {
    /// `key: null` means the key is not there.
    Omits,
    /// Not specified.
    Unknown,
}
pub struct F {
    pub key: &'static str,
    pub gen: Gen,
    pub null: Null,
    pub req: bool,
    /// At most one field of a group may be given.
    pub group: u8,
}
pub struct S {
    pub name: &'static str,
    pub fields: &'static [F],
    /// Takes `x-` keys and rejects other unknown keys; otherwise unknown keys are ignored.
    pub ext: bool,
    /// Groups of which exactly one field is required.
    pub one_of: &'static [u8],
}
/// optional
const fn o(key: &'static str, gen: Gen) -> F {
    F { key, gen, null: Null::Omits, req: false, group: 0 }
}
/// collection or boolean with a default
const fn c(key: &'static str, gen: Gen) -> F {
    F { key, gen, null: Null::Unknown, req: false, group: 0 }
}
/// required
const fn q(key: &'static str, gen: Gen) -> F {
    F { key, gen, null: Null::Unknown, req: true, group: 0 }
}
/// member of an exclusive group
const fn e(key: &'static str, group: u8, gen: Gen) -> F {
    F { key, gen, null: Null::Omits, req: false, group }
}
const fn s(name: &'static str, ext: bool, fields: &'static [F]) -> S {
    S { name, fields, ext, one_of: &[] }
}

pub struct G {
    pub r: Rng,
    /// Percentage of fields in nested structs.
    pub density: u64,
    pub ext_pct: u64,
    /// Spell out defaults and empty collections.
    pub spell: bool,
    /// Allow an empty map where the absence of the field is an empty list.
    pub empty_maps: bool,
    /// Add `key: null` for omitted optional fields.
    pub nulls: bool,
    /// Only texts that survive every representation.
    pub depth: u32,
}
impl G {
    pub fn new(r: Rng) -> Self {
        let mut r = r;
        let density = *r.pick(&[5, 15, 30, 60]);
        let ext_pct = *r.pick(&[0, 10, 40]);
        let spell = r.bool();
        let nulls = r.chance(1, 4);
        G { r, density, ext_pct, spell, empty_maps: false, nulls, depth: 0 }
    }
    fn n(&mut self, hi: u64) -> u64 {
        let lo = u64::from(!self.spell);
        if hi > 1 && dict::number_now(&mut self.r, 1000, 60) {
            if let Some(n) = dict::length(&mut self.r, 24) {
                return n as u64;
            }
        }
        self.r.range(lo, hi)
    }
}

pub fn key(k: &str) -> V {
    V::String(k.to_owned())
}
pub fn to_value(n: &N) -> V {
    match n {
        N::Leaf(v) => v.clone(),
        N::Seq(v) => V::Sequence(v.iter().map(to_value).collect()),
        N::Struct(_, m) | N::Map(m) => {
            let mut out = Mapping::new();
            for (k, v) in m {
                out.insert(key(k), to_value(v));
            }
            V::Mapping(out)
        }
    }
}
pub fn x_to_value(x: &X) -> V {
    match x {
        X::Leaf(v) => v.clone(),
        X::Seq(v) => V::Sequence(v.iter().map(x_to_value).collect()),
        X::Struct(m) | X::Map(m) => V::Mapping(m.iter().map(|(k, v)| (key(k), x_to_value(v))).collect()),
    }
}
/// Every struct of an input tree, outermost first.
pub fn structs<'a>(n: &'a N, out: &mut Vec<(&'static S, &'a Vec<(String, N)>)>) {
    match n {
        N::Leaf(_) => {}
        N::Seq(v) => v.iter().for_each(|x| structs(x, out)),
        N::Struct(s, m) => {
            out.push((*s, m));
            m.iter().for_each(|x| structs(&x.1, out));
        }
        N::Map(m) => m.iter().for_each(|x| structs(&x.1, out)),
    }
}
pub fn count_structs(n: &N) -> usize {
    let mut v = Vec::new();
    structs(n, &mut v);
    v.len()
}
/// Calls `f` on the k-th struct.
pub fn with_struct(n: &mut N, k: &mut usize, f: &mut dyn FnMut(&'static S, &mut Vec<(String, N)>)) -> bool {
    match n {
        N::Leaf(_) => false,
        N::Seq(v) => v.iter_mut().any(|x| with_struct(x, k, f)),
        N::Struct(s, m) => {
            if *k == 0 {
                f(s, m);
                return true;
            }
            *k -= 1;
            m.iter_mut().any(|x| with_struct(&mut x.1, k, f))
        }
        N::Map(m) => m.iter_mut().any(|x| with_struct(&mut x.1, k, f)),
    }
}
/// Shuffles the fields of every struct, keeping the relative order of extension keys.
pub fn permute(n: &mut N, r: &mut Rng) {
    match n {
        N::Leaf(_) => {}
        N::Seq(v) => v.iter_mut().for_each(|x| permute(x, r)),
        N::Map(m) => m.iter_mut().for_each(|x| permute(&mut x.1, r)),
        N::Struct(_, m) => {
            m.iter_mut().for_each(|x| permute(&mut x.1, r));
            let exts: Vec<(String, N)> = m.iter().filter(|x| x.0.starts_with("x-")).cloned().collect();
            r.shuffle(m);
            let mut it = exts.into_iter();
            for f in m.iter_mut() {
                if f.0.starts_with("x-") {
                    *f = it.next().unwrap();
                }
            }
        }
    }
}
/// Deep equality that is strict about number kinds and map order.
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Mapping(a), V::Mapping(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| same(k, l) && same(v, w)),
        (V::Sequence(a), V::Sequence(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, w)| same(v, w)),
        (V::Tagged(a), V::Tagged(b)) => a.tag == b.tag && same(&a.value, &b.value),
        (V::Number(a), V::Number(b)) => a.is_f64() == b.is_f64() && a == b,
        _ => a == b,
    }
}
/// Compares a written tree with the expectation; the error says where they differ.
pub fn diff(v: &V, x: &X, at: &str) -> Result<(), (String, String)> {
    let bad = |what: String| Err((at.to_owned(), what));
    match (v, x) {
        (_, X::Leaf(l)) => {
            if same(v, l) {
                Ok(())
            } else {
                bad(format!("expected {l:?}, written {v:?}"))
            }
        }
        (V::Sequence(a), X::Seq(b)) => {
            if a.len() != b.len() {
                return bad(format!("expected {} items, written {}: {v:?}", b.len(), a.len()));
            }
            a.iter().zip(b).try_for_each(|(a, b)| diff(a, b, &format!("{at}[]")))
        }
        (V::Mapping(a), X::Struct(b)) => {
            for (k, x) in b {
                match a.get(k.as_str()) {
                    None => return bad(format!("`{k}` is not written (expected {:?})", x_to_value(x))),
                    Some(v) => diff(v, x, &format!("{at}.{}", if k.starts_with("x-") { "x-" } else { k.as_str() }))?,
                }
            }
            if let Some((k, v)) = a.iter().find(|(k, _)| k.as_str().map_or(true, |k| !b.iter().any(|f| f.0 == k))) {
                return bad(format!("`{k:?}: {v:?}` is written, expected nothing"));
            }
            let ka: Vec<&str> = a.keys().filter_map(|k| k.as_str()).filter(|k| k.starts_with("x-")).collect();
            let kb: Vec<&str> = b.iter().map(|f| f.0.as_str()).filter(|k| k.starts_with("x-")).collect();
            if ka != kb {
                return bad(format!("extension order {ka:?}, expected {kb:?}"));
            }
            Ok(())
        }
        (V::Mapping(a), X::Map(b)) => {
            let ka: Vec<_> = a.keys().map(|k| k.as_str().unwrap_or("?")).collect();
            let kb: Vec<_> = b.iter().map(|f| f.0.as_str()).collect();
            if ka != kb {
                return bad(format!("keys {ka:?}, expected {kb:?}"));
            }
            a.iter().zip(b).try_for_each(|((_, v), (_, x))| diff(v, x, &format!("{at}.*")))
        }
        _ => bad(format!("expected {:?}, written {v:?}", x_to_value(x))),
    }
}

// ---- leaves --------------------------------------------------------------------------------
fn leaf(v: V) -> Out {
    (N::Leaf(v.clone()), Some(X::Leaf(v)))
}
fn leaf2(v: V, w: V) -> Out {
    (N::Leaf(v), Some(X::Leaf(w)))
}
fn st(v: impl Into<String>) -> Out {
    leaf(V::String(v.into()))
}
fn valid(r: &mut Rng, g: fn(&mut Rng) -> String, ok: fn(&str) -> Rec) -> String {
    if dict::word_now(r, 24, 6) {
        // with a word of the dictionary, if there is room for it
        for _ in 0..4 {
            let s = g(r);
            let s = dict::splice(r, &s);
            if ok(&s) == Rec::A && s.len() < 400 {
                return s;
            }
        }
    }
    if dict::number_now(r, 24, 6) {
        for _ in 0..4 {
            let s = g(r);
            let s = dict::renumber(r, &s);
            if ok(&s) == Rec::A && s.len() < 400 {
                return s;
            }
        }
    }
    for _ in 0..200 {
        let s = g(r);
        if ok(&s) == Rec::A {
            return s;
        }
    }
    panic!("generator of valid texts failed")
}
macro_rules! text {
    ($($name:ident = $g:path, $rec:path $(=> $canon:path)?;)*) => {
        $(pub fn $name(g: &mut G) -> Out {
            let s = if stringify!($rec).ends_with("any") { $g(&mut g.r) } else { valid(&mut g.r, $g, $rec) };
            #[allow(unused_mut, unused_assignments)]
            let mut w = s.clone();
            $( w = match $canon(&s) { Some(w) => w, None => return $name(g) }; )?
            leaf2(V::String(s), V::String(w))
        })*
    };
}
text! {
    identifier = t::g_identifier, recog::identifier;
    hostname = t::g_hostname, recog::hostname;
    image = t::g_image, recog::image;
    abs_path = t::g_abs_path, recog::absolute_path;
    device = t::g_device, recog::device => t::canon_device;
    cgroup_rule = t::g_cgroup_rule, recog::cgroup_rule => t::canon_cgroup_rule;
    link = t::g_link, recog::link;
    volumes_from = t::g_volumes_from, recog::volumes_from => t::canon_volumes_from;
    mac = t::g_mac, recog::mac => t::canon_mac;
    platform = t::g_platform, recog::platform;
    id_or_name = t::g_id_or_name, recog::id_or_name => t::canon_id_or_name;
    user = t::g_user, recog::user => t::canon_user;
    ssh = t::g_ssh, recog::ssh_auth;
    cache = t::g_cache, recog::cache => t::canon_cache;
    ipc = t::g_ipc, recog::ipc;
    network_mode = t::g_network_mode, recog::network_mode;
    short_volume = t::g_short_volume, recog::short_volume => t::canon_short_volume;
    project = t::g_project, recog::project_name;
    context = t::g_context, t::recog_context => t::canon_context;
    ip = t::g_ip, recog::any;
    ipv4 = t::g_ipv4, recog::any;
    ipv6 = t::g_ipv6, recog::any;
    rel_path = t::g_rel_path, recog::any;
    free = t::g_free, recog::any;
    host_path = t::g_host_path, recog::host_path;
    protocol = t::g_protocol, recog::any;
    ulimit_name = t::g_ulimit, recog::ulimit_resource;
    map_key = t::g_map_key, recog::map_key;
    ext_key = t::g_ext_key, recog::extension_key;
}
fn item(o: Out) -> (N, X) {
    (o.0, o.1.expect("always written"))
}
fn text_of(n: &N) -> String {
    match n {
        N::Leaf(V::String(s)) => s.clone(),
        _ => panic!("text expected"),
    }
}
impl std::fmt::Debug for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}
/// A text of the given generator.
pub fn txt(g: &mut G, f: Gen) -> String {
    text_of(&f(g).0)
}
fn bool_f(g: &mut G) -> Out {
    // false is the default
    if g.spell && g.r.bool() {
        (N::Leaf(V::Bool(false)), None)
    } else {
        leaf(V::Bool(true))
    }
}
fn bool_t(g: &mut G) -> Out {
    if g.spell && g.r.bool() {
        (N::Leaf(V::Bool(true)), None)
    } else {
        leaf(V::Bool(false))
    }
}
fn bool_any(g: &mut G) -> Out {
    leaf(V::Bool(g.r.bool()))
}
fn uint64(g: &mut G) -> Out {
    leaf(V::from(g.r.int_u64()))
}
fn uint32(g: &mut G) -> Out {
    leaf(V::from(t::g_u32(&mut g.r)))
}
fn port16(g: &mut G) -> Out {
    leaf(V::from(t::g_port16(&mut g.r)))
}
/// An integer written as text of an integer.
fn uint32_text(g: &mut G) -> Out {
    st(t::g_u32(&mut g.r).to_string())
}
fn percent(g: &mut G) -> Out {
    leaf(V::from(*g.r.pick(&[0u8, 1, 50, 60, 99, 100])))
}
fn oom_score(g: &mut G) -> Out {
    leaf(V::from(*g.r.pick(&[-1000i64, -999, -1, 0, 1, 999, 1000])))
}
fn weight(g: &mut G) -> Out {
    leaf(V::from(*g.r.pick(&[10u64, 11, 500, 999, 1000])))
}
fn cpus(g: &mut G) -> Out {
    match g.r.below(4) {
        0 => {
            let n = t::g_u32(&mut g.r);
            leaf2(V::from(n), V::from(f64::from(n)))
        }
        1 => {
            let f = *g.r.pick(&[0.5, 1.25, 0.1, 1e-3]);
            leaf2(V::String(format!("{f}")), V::from(f))
        }
        _ => {
            let f = *g.r.pick(&[0.0, 0.5, 1.0, 1.5, 2.25, 0.001, 128.0, 1e10]);
            leaf(V::from(f))
        }
    }
}
fn byte_value(g: &mut G) -> Out {
    if g.r.chance(1, 4) {
        let n = g.r.int_u64();
        return leaf2(V::from(n), V::String(format!("{n}b")));
    }
    let s = valid(&mut g.r, t::g_byte_value, recog::byte_value);
    let w = t::canon_byte_value(&s).unwrap();
    leaf2(V::String(s), V::String(w))
}
fn minus_one(g: &mut G) -> Out {
    let v = if g.r.bool() { V::from(-1) } else { V::String("-1".into()) };
    leaf2(v, V::from(-1))
}
fn limit_bytes(g: &mut G) -> Out {
    if g.r.chance(1, 4) { minus_one(g) } else { byte_value(g) }
}
fn limit_u32(g: &mut G) -> Out {
    if g.r.chance(1, 4) {
        return minus_one(g);
    }
    leaf(V::from(t::g_u32(&mut g.r)))
}
fn limit_u64(g: &mut G) -> Out {
    if g.r.chance(1, 4) {
        return minus_one(g);
    }
    leaf(V::from(g.r.int_u64()))
}
fn cpuset(g: &mut G) -> Out {
    let s = valid(&mut g.r, t::g_cpuset, recog::cpuset);
    let w = t::canon_cpuset(&s).unwrap_or_default();
    if w.is_empty() {
        (N::Leaf(V::String(String::new())), None)
    } else {
        leaf2(V::String(s), V::String(w))
    }
}
const UNITS: [(&str, u64); 5] = [("h", 3_600_000_000), ("m", 60_000_000), ("s", 1_000_000), ("ms", 1_000), ("us", 1)];
/// The text a duration of so many microseconds is written as.
pub fn duration_text(mut us: u64) -> String {
    if us == 0 {
        return "0s".to_owned();
    }
    let mut out = String::new();
    for (u, n) in UNITS {
        if us / n > 0 {
            out += &format!("{}{u}", us / n);
        }
        us %= n;
    }
    out
}
fn duration(g: &mut G) -> Out {
    // a number of microseconds
    if g.r.below(4) == 0 {
        let us = if g.r.below(8) == 0 { g.r.int_u64() } else { g.r.range(0, 10_000_000_000) };
        return leaf2(V::from(us), V::String(duration_text(us)));
    }
    let mut total = 0u64;
    let mut s = String::new();
    for _ in 0..g.r.range(1, 4) {
        let (u, n) = *g.r.pick(&UNITS);
        let k = match g.r.below(4) {
            0 => 0,
            1 => g.r.range(0, 3000),
            _ => g.r.range(1, 60),
        };
        s += &format!("{k}{u}");
        total += k * n;
    }
    leaf2(V::String(s), V::String(duration_text(total)))
}
fn duration_us(g: &mut G) -> Out {
    leaf(V::from(match g.r.below(3) {
        0 => g.r.range(0, 10),
        1 => g.r.range(0, 1_000_000_000),
        _ => g.r.int_u64(),
    }))
}
macro_rules! choice {
    ($($name:ident: [$($a:literal),*] $(, $alias:literal => $to:literal)*;)*) => {
        $(fn $name(g: &mut G) -> Out {
            let all: &[(&str, &str)] = &[$(($a, $a),)* $(($alias, $to),)*];
            let (a, b) = *g.r.pick(all);
            leaf2(V::String(a.to_owned()), V::String(b.to_owned()))
        })*
    };
}
choice! {
    cgroup: ["host", "private"];
    uts: ["host"];
    pull_policy: ["always", "never", "missing", "build"], "if_not_present" => "missing";
    restart: ["no", "always", "on-failure", "unless-stopped"];
    condition: ["service_started", "service_healthy", "service_completed_successfully"];
    deploy_mode: ["global", "replicated"];
    endpoint_mode: ["vip", "dnsrr", "other"];
    restart_condition: ["none", "on-failure", "any"];
    failure_action: ["continue", "pause"];
    order: ["stop-first", "start-first"];
    watch_action: ["rebuild", "sync", "sync+restart"];
    propagation: ["private", "rprivate", "shared", "rshared", "slave", "rslave", "unbindable", "runbindable"];
    selinux: ["z", "Z"];
    port_mode: ["host", "ingress"];
    capability: ["gpu", "tpu", "utility", "compute", "x"];
    network_driver: ["host", "none", "bridge", "overlay", "Host"];
    build_network: ["none", "host", "bridge"];
}

// ---- collections ---------------------------------------------------------------------------
fn list_of(g: &mut G, lo: u64, hi: u64, f: Gen) -> (Vec<N>, Vec<X>) {
    (0..g.r.range(lo, hi)).map(|_| item(f(g))).unzip()
}
/// A list that is not written when empty.
fn vec_of(g: &mut G, f: Gen) -> Out {
    let lo = u64::from(!g.spell);
    let (n, x) = list_of(g, lo, 3, f);
    (N::Seq(n), (!x.is_empty()).then_some(X::Seq(x)))
}
/// Items of a set: repeated items count once; items that could be equal in spite of different
/// spellings (paths) are left out.
fn set_items(g: &mut G, lo: u64, hi: u64, f: Gen) -> (Vec<N>, Vec<X>) {
    let (mut ns, mut xs): (Vec<N>, Vec<X>) = (Vec::new(), Vec::new());
    let mut seen: HashMap<String, String> = HashMap::new();
    for _ in 0..g.r.range(lo, hi) {
        if !ns.is_empty() && g.spell && g.r.chance(1, 6) {
            let d = g.r.pick(&ns).clone();
            ns.push(d);
            continue;
        }
        let (n, x) = item(f(g));
        let raw = format!("{x:?}");
        let norm: String = raw.chars().filter(|c| !matches!(c, '/' | '.')).collect();
        match seen.get(&norm) {
            None => {
                seen.insert(norm, raw);
                ns.push(n);
                xs.push(x);
            }
            Some(r) if *r == raw => ns.push(n),
            Some(_) => {}
        }
    }
    (ns, xs)
}
fn set_of(g: &mut G, f: Gen) -> Out {
    let lo = u64::from(!g.spell);
    let (n, x) = set_items(g, lo, 4, f);
    (N::Seq(n), (!x.is_empty()).then_some(X::Seq(x)))
}
/// One item, or a list that is kept even when empty.
fn item_or_list(g: &mut G, f: Gen) -> Out {
    if g.r.bool() {
        return f(g);
    }
    let lo = u64::from(!g.spell);
    let (n, x) = set_items(g, lo, 3, f);
    (N::Seq(n), Some(X::Seq(x)))
}
fn keyed(g: &mut G, lo: u64, hi: u64, k: Gen, f: Gen) -> (Vec<(String, N)>, Vec<(String, X)>) {
    let (mut ns, mut xs): (Vec<(String, N)>, Vec<(String, X)>) = (Vec::new(), Vec::new());
    for _ in 0..g.r.range(lo, hi) {
        let key = txt(g, k);
        if ns.iter().any(|x| x.0 == key) {
            continue;
        }
        let (n, x) = item(f(g));
        ns.push((key.clone(), n));
        xs.push((key, x));
    }
    (ns, xs)
}
/// A map that is not written when empty.
fn map_of(g: &mut G, k: Gen, f: Gen) -> Out {
    let lo = u64::from(!g.spell);
    let (n, x) = keyed(g, lo, 3, k, f);
    (N::Map(n), (!x.is_empty()).then_some(X::Map(x)))
}
fn number(g: &mut G) -> V {
    match g.r.below(4) {
        0 => V::from(g.r.int_u64()),
        1 => V::from(-(g.r.range(1, 1 << 62) as i64)),
        _ => V::from(*g.r.pick(&[0.5f64, 1.0, -2.25, 1e300, 1e-7, 123456.789, 0.0])),
    }
}
fn string_or_number(g: &mut G) -> Out {
    if g.r.bool() { free(g) } else { leaf(number(g)) }
}
fn opt_string_or_number(g: &mut G) -> Out {
    if g.r.chance(1, 4) { leaf(V::Null) } else { string_or_number(g) }
}
fn opt_value(g: &mut G) -> Out {
    match g.r.below(5) {
        0 => leaf(V::Null),
        1 => leaf(V::Bool(g.r.bool())),
        2 => leaf(number(g)),
        _ => free(g),
    }
}
fn value_map(g: &mut G) -> Out {
    map_of(g, map_key, opt_value)
}
fn string_map(g: &mut G) -> Out {
    map_of(g, map_key, free)
}
fn number_map(g: &mut G) -> Out {
    map_of(g, map_key, string_or_number)
}
fn opt_number_map(g: &mut G) -> Out {
    map_of(g, map_key, opt_string_or_number)
}
fn env_item(g: &mut G) -> Out {
    let mut s = txt(g, map_key);
    if g.r.chance(3, 4) {
        s = s + "=" + &txt(g, free);
    }
    st(s)
}
fn list_or_map(g: &mut G) -> Out {
    if g.r.bool() {
        set_of(g, env_item)
    } else {
        let lo = u64::from(!(g.spell && g.empty_maps));
        let (n, x) = keyed(g, lo, 3, map_key, opt_value);
        (N::Map(n), (!x.is_empty()).then_some(X::Map(x)))
    }
}
fn extra_hosts(g: &mut G) -> Out {
    let lo = u64::from(!g.spell);
    let (n, x) = keyed(g, lo, 3, hostname, ip);
    let w = (!x.is_empty()).then(|| X::Map(x.clone()));
    let brackets = |g: &mut G, ip: &str| if ip.contains(':') && g.r.bool() { format!("[{ip}]") } else { ip.to_owned() };
    if g.r.bool() {
        let n = n.into_iter().map(|(k, v)| {
            let ip = brackets(g, &text_of(&v));
            (k, N::Leaf(V::String(ip)))
        });
        (N::Map(n.collect()), w)
    } else {
        let n = n.into_iter().map(|(k, v)| {
            let ip = brackets(g, &text_of(&v));
            N::Leaf(V::String(format!("{k}{}{ip}", g.r.pick(&["=", ":"]))))
        });
        (N::Seq(n.collect()), w)
    }
}
fn additional_contexts(g: &mut G) -> Out {
    let lo = u64::from(!g.spell);
    let (mut n, mut x) = (Vec::new(), Vec::new());
    let list = g.r.bool();
    for _ in 0..g.r.range(lo, 3) {
        let key = txt(g, map_key);
        if (list && key.contains('=')) || x.iter().any(|f: &(String, X)| f.0 == key) {
            continue;
        }
        let (cn, cx) = item(context(g));
        n.push((key.clone(), cn));
        x.push((key, cx));
    }
    let w = (!x.is_empty()).then_some(X::Map(x));
    if list {
        (N::Seq(n.into_iter().map(|(k, v)| N::Leaf(V::String(format!("{k}={}", text_of(&v))))).collect()), w)
    } else {
        (N::Map(n), w)
    }
}
pub fn ext_value(g: &mut G) -> Out {
    let mut r = g.r.clone();
    let v = crate::checks::ext_value(&mut r, 0);
    g.r = r;
    leaf(v)
}

// ---- structs -------------------------------------------------------------------------------
pub fn structure(g: &mut G, s: &'static S) -> (N, X) {
    g.depth += 1;
    let p = if g.r.chance(1, 12) { 100 } else { g.density.min(if s.fields.len() > 20 { 100 } else { 4 * g.density + 10 }) };
    let (n, x) = structure_with(g, s, p);
    g.depth -= 1;
    (n, x)
}
pub fn structure_with(g: &mut G, s: &'static S, pct: u64) -> (N, X) {
    let mut ix: Vec<usize> = (0..s.fields.len()).collect();
    g.r.shuffle(&mut ix);
    let mut groups: Vec<u8> = Vec::new();
    let mut n: Vec<(String, N)> = Vec::new();
    let mut xs: Vec<(usize, X)> = Vec::new();
    for i in ix {
        let f = &s.fields[i];
        let must = f.req || (s.one_of.contains(&f.group) && !groups.contains(&f.group));
        if f.group != 0 && groups.contains(&f.group) {
            continue;
        }
        if must || g.r.chance(pct, 100) {
            let (fnode, fx) = (f.gen)(g);
            n.push((f.key.to_owned(), fnode));
            if let Some(x) = fx {
                xs.push((i, x));
            }
            if f.group != 0 {
                groups.push(f.group);
            }
        } else if g.nulls && f.null == Null::Omits && g.r.chance(1, 4) {
            n.push((f.key.to_owned(), N::Leaf(V::Null)));
        }
    }
    if s.ext && g.r.chance(g.ext_pct, 100) {
        for _ in 0..g.r.range(1, 3) {
            let k = txt(g, ext_key);
            if !n.iter().any(|f| f.0 == k) {
                let v = ext_value(g).0;
                n.push((k, v));
            }
        }
    }
    g.r.shuffle(&mut n);
    xs.sort_by_key(|f| f.0);
    let mut x: Vec<(String, X)> = xs.into_iter().map(|(i, x)| (s.fields[i].key.to_owned(), x)).collect();
    for (k, v) in &n {
        if k.starts_with("x-") {
            x.push((k.clone(), X::Leaf(to_value(v))));
        }
    }
    (N::Struct(s, n), X::Struct(x))
}
macro_rules! st_fn {
    ($($name:ident = $s:ident;)*) => { $(pub fn $name(g: &mut G) -> Out { let (n, x) = structure(g, &$s); (n, Some(x)) })* };
}
st_fn! {
    blkio = BLKIO; bps = BPS; iops = IOPS; weight_device = WEIGHT_DEVICE; dependency = DEPENDENCY; extends = EXTENDS;
    logging = LOGGING; credential_spec = CREDENTIAL; build_long = BUILD; config_or_secret_long = CONFIG_OR_SECRET;
    deploy = DEPLOY; placement = PLACEMENT; preference = PREFERENCE; resources = RESOURCES; limits = LIMITS;
    reservations = RESERVATIONS; deploy_device = DEPLOY_DEVICE; generic_resource = GENERIC; discrete = DISCRETE;
    restart_policy = RESTART_POLICY; update_config = UPDATE; develop = DEVELOP; watch_rule = WATCH;
    ulimit_long = ULIMIT; env_file_long = ENV_FILE; service_network_some = SERVICE_NETWORK; port_long = PORT;
    volume_options = VOLUME_OPTIONS; bind_options = BIND_OPTIONS; tmpfs_options = TMPFS_OPTIONS;
    include_long = INCLUDE; ipam = IPAM; ipam_config = IPAM_CONFIG;
    service = SERVICE; compose = COMPOSE; network_bare = NETWORK; volume_bare = VOLUME; config_bare = CONFIG; secret_bare = SECRET;
    bare_volume = BARE_VOLUME; bare_bind = BARE_BIND; bare_tmpfs = BARE_TMPFS; bare_npipe = BARE_PIPE; bare_cluster = BARE_CLUSTER;
    common = COMMON; config_source = CONFIG_SOURCE; secret_source = SECRET_SOURCE;
    health_command = HEALTH; network_config = NETWORK_CONFIG; dockerfile = DOCKERFILE;
}

macro_rules! lists {
    ($($name:ident = $how:ident($f:ident);)*) => { $(fn $name(g: &mut G) -> Out { $how(g, $f) })* };
}
lists! {
    bps_list = vec_of(bps); iops_list = vec_of(iops); weight_devices = vec_of(weight_device);
    free_set = set_of(free); free_list = vec_of(free); cgroup_rules = set_of(cgroup_rule); devices = set_of(device);
    ip_items = item_or_list(ip); host_items = item_or_list(hostname); abs_items = item_or_list(abs_path);
    path_items = item_or_list(rel_path);
    exposes = set_of(expose); links = set_of(link); group_add = set_of(group_item); profiles = set_of(identifier);
    volumes_from_set = set_of(volumes_from); ports = set_of(port); volumes = set_of(volume);
    ssh_set = set_of(ssh); caches = vec_of(cache); config_refs = vec_of(config_or_secret); images = vec_of(image);
    platforms = vec_of(platform); preferences = vec_of(preference); deploy_devices = vec_of(deploy_device);
    generic_resources = vec_of(generic_resource); watch_rules = vec_of(watch_rule); paths = vec_of(rel_path);
    hostnames = set_of(hostname); ips = set_of(ip); ipam_configs = vec_of(ipam_config); includes = vec_of(include);
}
fn expose(g: &mut G) -> Out {
    let s = valid(&mut g.r, t::g_expose, recog::expose);
    if s.ends_with('/') {
        return expose(g);
    }
    let Some(w) = t::canon_expose(&s) else { return expose(g) };
    number_or_text(g, s, w)
}
/// Texts which are plain port numbers are written as numbers and may be read as numbers.
fn number_or_text(g: &mut G, s: String, w: String) -> Out {
    let num = |s: &str| s.parse::<u16>().ok().filter(|_| s.bytes().all(|b| b.is_ascii_digit())).map(V::from);
    let out = num(&w).unwrap_or(V::String(w));
    let inp = match num(&s) {
        Some(n) if g.r.bool() => n,
        _ => V::String(s),
    };
    leaf2(inp, out)
}
fn group_item(g: &mut G) -> Out {
    let s = valid(&mut g.r, t::g_id_or_name, recog::id_or_name);
    let Some(w) = t::canon_id_or_name(&s) else { return group_item(g) };
    let num = |s: &str| s.parse::<u32>().ok().map(V::from);
    let out = num(&w).unwrap_or(V::String(w));
    let inp = match num(&s) {
        Some(n) if g.r.bool() => n,
        _ => V::String(s),
    };
    leaf2(inp, out)
}
fn short_port(g: &mut G) -> Out {
    let s = valid(&mut g.r, t::g_short_port, recog::short_port);
    if s.ends_with('/') {
        return short_port(g);
    }
    let Some(w) = t::canon_short_port(&s) else { return short_port(g) };
    number_or_text(g, s, w)
}
fn port(g: &mut G) -> Out {
    if g.r.chance(2, 3) { short_port(g) } else { port_long(g) }
}
fn published(g: &mut G) -> Out {
    let s = valid(&mut g.r, t::g_range, recog::range);
    let w = t::canon_range(&s).unwrap();
    number_or_text(g, s, w)
}
pub fn mount(g: &mut G) -> Out {
    let s: &'static S = *g.r.pick(&[&MOUNT_VOLUME, &MOUNT_BIND, &MOUNT_TMPFS, &MOUNT_PIPE, &MOUNT_CLUSTER]);
    let (n, x) = structure(g, s);
    (n, Some(x))
}
fn volume(g: &mut G) -> Out {
    if g.r.chance(2, 3) { short_volume(g) } else { mount(g) }
}
fn k_volume(_: &mut G) -> Out { st("volume") }
fn k_bind(_: &mut G) -> Out { st("bind") }
fn k_tmpfs(_: &mut G) -> Out { st("tmpfs") }
fn k_npipe(_: &mut G) -> Out { st("npipe") }
fn k_cluster(_: &mut G) -> Out { st("cluster") }
fn build(g: &mut G) -> Out {
    if g.r.bool() { context(g) } else { build_long(g) }
}
fn config_or_secret(g: &mut G) -> Out {
    if g.r.bool() { identifier(g) } else { config_or_secret_long(g) }
}
fn command(g: &mut G) -> Out {
    if g.r.bool() {
        free(g)
    } else {
        // kept even when empty
        let lo = u64::from(!g.spell);
        let (n, x) = list_of(g, lo, 3, free);
        (N::Seq(n), Some(X::Seq(x)))
    }
}
fn env_file(g: &mut G) -> Out {
    if g.r.bool() {
        rel_path(g)
    } else {
        let lo = u64::from(!g.spell);
        let (n, x) = list_of(g, lo, 3, env_file_item);
        (N::Seq(n), Some(X::Seq(x)))
    }
}
fn env_file_item(g: &mut G) -> Out {
    if g.r.bool() { rel_path(g) } else { env_file_long(g) }
}
fn include(g: &mut G) -> Out {
    if g.r.bool() { rel_path(g) } else { include_long(g) }
}
fn depends_on(g: &mut G) -> Out {
    if g.r.bool() {
        set_of(g, identifier)
    } else {
        let lo = u64::from(!(g.spell && g.empty_maps));
        let (n, x) = keyed(g, lo, 3, identifier, dependency);
        (N::Map(n), (!x.is_empty()).then_some(X::Map(x)))
    }
}
fn service_network(g: &mut G) -> Out {
    if g.r.chance(1, 3) { leaf(V::Null) } else { service_network_some(g) }
}
fn service_networks(g: &mut G) -> Out {
    // kept even when empty
    let lo = u64::from(!g.spell);
    if g.r.bool() {
        let (n, x) = set_items(g, lo, 3, identifier);
        (N::Seq(n), Some(X::Seq(x)))
    } else {
        let (n, x) = keyed(g, lo, 3, identifier, service_network);
        (N::Map(n), Some(X::Map(x)))
    }
}
fn ulimit(g: &mut G) -> Out {
    if g.r.bool() { limit_u64(g) } else { ulimit_long(g) }
}
fn ulimits(g: &mut G) -> Out {
    map_of(g, ulimit_name, ulimit)
}
fn aux_addresses(g: &mut G) -> Out {
    map_of(g, hostname, ip)
}
fn ip_net(g: &mut G) -> Out {
    let ip = txt(g, self::ip);
    let max = if ip.contains(':') { 128 } else { 32 };
    st(format!("{ip}/{}", g.r.range(0, max)))
}
fn count(g: &mut G) -> Out {
    match g.r.below(3) {
        0 => st("all"),
        1 => {
            let n = g.r.int_u64();
            leaf2(V::String(n.to_string()), V::from(n))
        }
        _ => uint64(g),
    }
}
fn capabilities(g: &mut G) -> Out {
    let lo = u64::from(!g.spell);
    let (n, x) = set_items(g, lo, 3, capability);
    (N::Seq(n), Some(X::Seq(x)))
}
pub fn healthcheck(g: &mut G) -> Out {
    match g.r.below(6) {
        0 => {
            let mut f: Vec<(String, N)> = vec![("disable".into(), N::Leaf(V::Bool(true)))];
            if g.nulls && g.r.bool() {
                f.push(((*g.r.pick(&["interval", "timeout", "start_period", "start_interval"])).to_owned(), N::Leaf(V::Null)));
            }
            (N::Struct(&HEALTH_DISABLED, f), Some(X::Struct(vec![("disable".into(), X::Leaf(V::Bool(true)))])))
        }
        1 => {
            let mut f: Vec<(String, N)> = vec![("test".into(), N::Seq(vec![N::Leaf(V::String("NONE".into()))]))];
            if g.spell && g.r.bool() {
                f.push(("disable".into(), N::Leaf(V::Bool(false))));
            }
            g.r.shuffle(&mut f);
            (N::Struct(&HEALTH_DISABLED, f), Some(X::Struct(vec![("disable".into(), X::Leaf(V::Bool(true)))])))
        }
        _ => {
            let (n, x) = structure(g, &HEALTH);
            let N::Struct(s, mut f) = n else { unreachable!() };
            if g.spell && g.r.bool() {
                f.push(("disable".into(), N::Leaf(V::Bool(false))));
                g.r.shuffle(&mut f);
                // the order of extension keys is that of the input
                let X::Struct(mut xf) = x else { unreachable!() };
                let mut ext: Vec<(String, X)> = Vec::new();
                for (k, v) in &f {
                    if k.starts_with("x-") {
                        ext.push((k.clone(), X::Leaf(to_value(v))));
                    }
                }
                xf.retain(|f| !f.0.starts_with("x-"));
                xf.extend(ext);
                return (N::Struct(s, f), Some(X::Struct(xf)));
            }
            (N::Struct(s, f), Some(x))
        }
    }
}
fn health_test(g: &mut G) -> Out {
    match g.r.below(4) {
        0 | 1 => free(g),
        2 => {
            let s = txt(g, free);
            (N::Seq(vec![N::Leaf(V::String("CMD-SHELL".into())), N::Leaf(V::String(s.clone()))]), Some(X::Leaf(V::String(s))))
        }
        _ => {
            let (mut n, mut x) = list_of(g, 0, 3, free);
            n.insert(0, N::Leaf(V::String("CMD".into())));
            x.insert(0, X::Leaf(V::String("CMD".into())));
            (N::Seq(n), Some(X::Seq(x)))
        }
    }
}
pub fn external(g: &mut G) -> (N, X) {
    let mut n: Vec<(String, N)> = vec![("external".into(), N::Leaf(V::Bool(true)))];
    let mut x: Vec<(String, X)> = vec![("external".into(), X::Leaf(V::Bool(true)))];
    if g.r.bool() {
        let (a, b) = item(free(g));
        n.push(("name".into(), a));
        x.push(("name".into(), b));
    }
    g.r.shuffle(&mut n);
    (N::Struct(&EXTERNAL, n), X::Struct(x))
}
fn resource(g: &mut G, s: &'static S) -> Out {
    if g.r.chance(1, 4) {
        let (n, x) = external(g);
        return (n, Some(x));
    }
    let (n, x) = structure(g, s);
    if g.spell && g.r.chance(1, 4) {
        let N::Struct(s, mut f) = n else { unreachable!() };
        let at = g.r.below(f.len() + 1);
        f.insert(at, ("external".into(), N::Leaf(V::Bool(false))));
        return (N::Struct(s, f), Some(x));
    }
    (n, Some(x))
}
pub fn network(g: &mut G) -> Out { resource(g, &NETWORK) }
pub fn top_volume(g: &mut G) -> Out { resource(g, &VOLUME) }
pub fn config(g: &mut G) -> Out { resource(g, &CONFIG) }
pub fn secret(g: &mut G) -> Out { resource(g, &SECRET) }
fn opt_network(g: &mut G) -> Out {
    if g.r.chance(1, 4) { leaf(V::Null) } else { network(g) }
}
fn opt_volume(g: &mut G) -> Out {
    if g.r.chance(1, 4) { leaf(V::Null) } else { top_volume(g) }
}
fn networks(g: &mut G) -> Out { map_of(g, identifier, opt_network) }
fn top_volumes(g: &mut G) -> Out { map_of(g, identifier, opt_volume) }
fn configs(g: &mut G) -> Out { map_of(g, identifier, config) }
fn secrets(g: &mut G) -> Out { map_of(g, identifier, secret) }
fn services(g: &mut G) -> Out {
    let (n, x) = keyed(g, 0, 3, identifier, service);
    (N::Map(n), Some(X::Map(x)))
}

// ---- tables --------------------------------------------------------------------------------
pub static COMPOSE: S = s("compose", true, &[
    o("version", free), o("name", project), c("include", includes), q("services", services), c("networks", networks),
    c("volumes", top_volumes), c("configs", configs), c("secrets", secrets),
]);
pub static INCLUDE: S = s("include", false, &[q("path", path_items), o("project_directory", free), o("env_file", path_items)]);
pub static SERVICE: S = s("service", true, &[
    c("attach", bool_t), o("build", build), o("blkio_config", blkio), o("cpu_count", uint64), o("cpu_percent", percent),
    o("cpu_shares", uint64), o("cpu_period", duration_us), o("cpu_quota", duration_us), o("cpu_rt_runtime", duration),
    o("cpu_rt_period", duration), o("cpus", cpus), c("cpuset", cpuset), c("cap_add", free_set), c("cap_drop", free_set),
    o("cgroup", cgroup), o("cgroup_parent", free), o("command", command), c("configs", config_refs), o("container_name", identifier),
    o("credential_spec", credential_spec), c("depends_on", depends_on), o("deploy", deploy), o("develop", develop),
    c("device_cgroup_rules", cgroup_rules), c("devices", devices), o("dns", ip_items), c("dns_opt", free_set),
    o("dns_search", host_items), o("domainname", hostname), o("entrypoint", command), o("env_file", env_file),
    c("environment", list_or_map), c("expose", exposes), o("extends", extends), c("annotations", list_or_map),
    c("external_links", links), c("extra_hosts", extra_hosts), c("group_add", group_add), o("healthcheck", healthcheck),
    o("hostname", hostname), o("image", image), c("init", bool_f), o("ipc", ipc), o("uts", uts), o("isolation", free),
    c("labels", list_or_map), c("links", links), o("logging", logging), e("network_mode", 1, network_mode), e("networks", 1, service_networks),
    o("mac_address", mac), o("mem_limit", byte_value), o("mem_reservation", byte_value), o("mem_swappiness", percent),
    o("memswap_limit", limit_bytes), c("oom_kill_disable", bool_f), o("oom_score_adj", oom_score), o("pid", free),
    o("pids_limit", limit_u32), o("platform", platform), c("ports", ports), c("privileged", bool_f), c("profiles", profiles),
    o("pull_policy", pull_policy), c("read_only", bool_f), o("restart", restart), o("runtime", free), o("scale", uint64),
    c("secrets", config_refs), c("security_opt", free_set), o("shm_size", byte_value), c("stdin_open", bool_f),
    o("stop_grace_period", duration), o("stop_signal", free), c("storage_opt", value_map), c("sysctls", list_or_map),
    o("tmpfs", abs_items), c("tty", bool_f), c("ulimits", ulimits), o("user", user), o("userns_mode", free),
    c("volumes", volumes), c("volumes_from", volumes_from_set), o("working_dir", abs_path),
]);
pub static BLKIO: S = s("blkio_config", false, &[
    c("device_read_bps", bps_list), c("device_read_iops", iops_list), c("device_write_bps", bps_list), c("device_write_iops", iops_list),
    o("weight", weight), c("weight_device", weight_devices),
]);
pub static BPS: S = s("bps_limit", false, &[q("path", abs_path), q("rate", byte_value)]);
pub static IOPS: S = s("iops_limit", false, &[q("path", abs_path), q("rate", uint64)]);
pub static WEIGHT_DEVICE: S = s("weight_device", false, &[q("path", abs_path), q("weight", weight)]);
pub static DEPENDENCY: S = s("dependency", false, &[q("condition", condition), c("restart", bool_f), c("required", bool_t)]);
pub static EXTENDS: S = s("extends", false, &[q("service", identifier), o("file", rel_path)]);
pub static LOGGING: S = s("logging", true, &[o("driver", free), c("options", opt_number_map)]);
/// The two exclusive groups that are types of their own.
pub static NETWORK_CONFIG: S = S {
    name: "network_config",
    ext: false,
    one_of: &[1],
    fields: &[e("network_mode", 1, network_mode), e("networks", 1, service_networks)],
};
pub static DOCKERFILE: S = S {
    name: "dockerfile",
    ext: false,
    one_of: &[1],
    fields: &[e("dockerfile", 1, rel_path), e("dockerfile_inline", 1, free)],
};
pub static CREDENTIAL: S = S {
    name: "credential_spec",
    ext: true,
    one_of: &[1],
    fields: &[
        F { key: "config", gen: identifier, null: Null::Unknown, req: false, group: 1 },
        F { key: "file", gen: rel_path, null: Null::Unknown, req: false, group: 1 },
        F { key: "registry", gen: free, null: Null::Unknown, req: false, group: 1 },
    ],
};
pub static BUILD: S = s("build", true, &[
    o("context", context), e("dockerfile", 1, rel_path), e("dockerfile_inline", 1, free), c("args", list_or_map), c("ssh", ssh_set),
    c("cache_from", caches), c("cache_to", caches), c("additional_contexts", additional_contexts), c("entitlements", free_list),
    c("extra_hosts", extra_hosts), o("isolation", free), c("privileged", bool_f), c("labels", list_or_map), c("no_cache", bool_f),
    c("pull", bool_f), o("network", build_network), o("shm_size", byte_value), o("target", free), c("secrets", config_refs),
    c("tags", images), c("ulimits", ulimits), c("platforms", platforms),
]);
pub static CONFIG_OR_SECRET: S = s("config_or_secret", true, &[
    q("source", identifier), o("target", rel_path), o("uid", uint32_text), o("gid", uint32_text), o("mode", uint32),
]);
pub static DEPLOY: S = s("deploy", true, &[
    o("endpoint_mode", endpoint_mode), c("labels", list_or_map), o("mode", deploy_mode), o("placement", placement), o("replicas", uint64),
    o("resources", resources), o("restart_policy", restart_policy), o("rollback_config", update_config), o("update_config", update_config),
]);
pub static PLACEMENT: S = s("placement", true, &[c("constraints", free_list), c("preferences", preferences), o("max_replicas_per_node", uint64)]);
pub static PREFERENCE: S = s("preference", true, &[o("spread", free)]);
pub static RESOURCES: S = s("resources", true, &[o("limits", limits), o("reservations", reservations)]);
pub static LIMITS: S = s("limits", true, &[o("cpus", cpus), o("memory", byte_value), o("pids", limit_u32)]);
pub static RESERVATIONS: S = s("reservations", true, &[
    o("cpus", cpus), o("memory", byte_value), c("devices", deploy_devices), c("generic_resources", generic_resources),
]);
pub static DEPLOY_DEVICE: S = s("deploy_device", true, &[
    q("capabilities", capabilities), o("driver", free), o("count", count), c("device_ids", free_set), c("options", list_or_map),
]);
pub static GENERIC: S = s("generic_resource", true, &[o("discrete_resource_spec", discrete)]);
pub static DISCRETE: S = s("discrete_resource_spec", true, &[o("kind", free), o("value", uint64)]);
pub static RESTART_POLICY: S = s("restart_policy", true, &[
    o("condition", restart_condition), o("delay", duration), o("max_attempts", uint64), o("window", duration),
]);
pub static UPDATE: S = s("update_config", true, &[
    o("parallelism", uint64), o("delay", duration), o("failure_action", failure_action), o("monitor", duration),
    o("max_failure_ratio", uint64), o("order", order),
]);
pub static DEVELOP: S = s("develop", false, &[c("watch", watch_rules)]);
pub static WATCH: S = s("watch_rule", true, &[q("action", watch_action), c("ignore", paths), q("path", rel_path), o("target", abs_path)]);
pub static ULIMIT: S = s("ulimit", true, &[q("soft", limit_u64), q("hard", limit_u64)]);
pub static ENV_FILE: S = s("env_file", false, &[q("path", rel_path), c("required", bool_t)]);
pub static SERVICE_NETWORK: S = s("service_network", true, &[
    c("aliases", hostnames), o("ipv4_address", ipv4), o("ipv6_address", ipv6), c("link_local_ips", ips), o("mac_address", mac),
    c("driver_opts", number_map), o("priority", uint64),
]);
pub static PORT: S = s("port", true, &[
    o("name", free), q("target", port16), o("published", published), o("host_ip", ip), o("protocol", protocol), o("app_protocol", free),
    o("mode", port_mode),
]);
pub static MOUNT_VOLUME: S = s("mount_volume", true, &[
    q("type", k_volume), o("source", identifier), o("volume", volume_options), q("target", abs_path), c("read_only", bool_f), o("consistency", free),
]);
pub static MOUNT_BIND: S = s("mount_bind", true, &[
    q("type", k_bind), q("source", host_path), o("bind", bind_options), q("target", abs_path), c("read_only", bool_f), o("consistency", free),
]);
pub static MOUNT_TMPFS: S = s("mount_tmpfs", true, &[
    q("type", k_tmpfs), o("tmpfs", tmpfs_options), q("target", abs_path), c("read_only", bool_f), o("consistency", free),
]);
pub static MOUNT_PIPE: S = s("mount_npipe", true, &[
    q("type", k_npipe), q("source", host_path), q("target", abs_path), c("read_only", bool_f), o("consistency", free),
]);
pub static MOUNT_CLUSTER: S = s("mount_cluster", true, &[
    q("type", k_cluster), q("source", free), q("target", abs_path), c("read_only", bool_f), o("consistency", free),
]);
// the parts of mounts and sources, which are structures of their own
pub static BARE_VOLUME: S = s("bare_volume", true, &[
    o("source", identifier), o("volume", volume_options), q("target", abs_path), c("read_only", bool_f), o("consistency", free),
]);
pub static BARE_BIND: S = s("bare_bind", true, &[
    q("source", host_path), o("bind", bind_options), q("target", abs_path), c("read_only", bool_f), o("consistency", free),
]);
pub static BARE_TMPFS: S = s("bare_tmpfs", true, &[
    o("tmpfs", tmpfs_options), q("target", abs_path), c("read_only", bool_f), o("consistency", free),
]);
pub static BARE_PIPE: S = s("bare_npipe", true, &[
    q("source", host_path), q("target", abs_path), c("read_only", bool_f), o("consistency", free),
]);
pub static BARE_CLUSTER: S = s("bare_cluster", true, &[
    q("source", free), q("target", abs_path), c("read_only", bool_f), o("consistency", free),
]);
pub static COMMON: S = s("common", true, &[q("target", abs_path), c("read_only", bool_f), o("consistency", free)]);
pub static CONFIG_SOURCE: S = S {
    name: "config_source",
    ext: false,
    one_of: &[1],
    fields: &[e("file", 1, rel_path), e("environment", 1, free), e("content", 1, free)],
};
pub static SECRET_SOURCE: S = S { name: "secret_source", ext: false, one_of: &[1], fields: &[e("file", 1, rel_path), e("environment", 1, free)] };
pub static VOLUME_OPTIONS: S = s("volume_options", true, &[c("nocopy", bool_f), o("subpath", rel_path)]);
pub static BIND_OPTIONS: S = s("bind_options", true, &[o("propagation", propagation), c("create_host_path", bool_f), o("selinux", selinux)]);
pub static TMPFS_OPTIONS: S = s("tmpfs_options", true, &[o("size", byte_value), o("mode", uint32)]);
pub static HEALTH: S = s("healthcheck", true, &[
    c("test", health_test), o("interval", duration), o("timeout", duration), c("retries", uint64), o("start_period", duration),
    o("start_interval", duration),
]);
pub static HEALTH_DISABLED: S = s("healthcheck_disabled", false, &[]);
pub static EXTERNAL: S = s("external", false, &[]);
pub static NETWORK: S = s("network", true, &[
    o("driver", network_driver), c("driver_opts", number_map), c("attachable", bool_f), c("enable_ipv6", bool_f), o("ipam", ipam),
    c("internal", bool_f), c("labels", list_or_map), o("name", free),
]);
pub static IPAM: S = s("ipam", true, &[o("driver", free), c("config", ipam_configs), c("options", string_map)]);
pub static IPAM_CONFIG: S = s("ipam_config", true, &[o("subnet", ip_net), o("ip_range", ip_net), o("gateway", ip), c("aux_addresses", aux_addresses)]);
pub static VOLUME: S = s("volume", true, &[o("driver", free), c("driver_opts", number_map), c("labels", list_or_map), o("name", free)]);
pub static CONFIG: S = S {
    name: "config",
    ext: true,
    one_of: &[1],
    fields: &[e("file", 1, rel_path), e("environment", 1, free), e("content", 1, free), c("labels", list_or_map)],
};
pub static SECRET: S = S {
    name: "secret",
    ext: true,
    one_of: &[1],
    fields: &[e("file", 1, rel_path), e("environment", 1, free), c("labels", list_or_map), o("driver", free), c("driver_opts", number_map)],
};
