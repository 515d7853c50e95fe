//! Checks on whole documents and every structure they are made of.
use crate::docs::{self as d, diff, same, to_value, x_to_value, Null, G, N, S, X};
use crate::mon::{quiet_catch, Case};
use crate::rng::Rng;
use crate::types::{self, Ty, B};
use compose_spec::Compose;
use serde_yaml::{Mapping, Value as V};

pub fn show(v: &V) -> String {
    let mut s = serde_json::to_string(v).unwrap_or_else(|_| format!("{v:?}"));
    if s.len() > 3000 {
        let mut cut = 3000;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        s.truncate(cut);
    }
    s
}
fn hash_of(v: &V) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
pub fn g(c: &mut Case) -> G {
    let r = Rng::new(c.rng.u64());
    G::new(r)
}
/// A document of the type in the spelling of the generator.
pub fn gen(g: &mut G, ty: &Ty) -> (N, X) {
    let (n, x) = (ty.gen)(g);
    (n, x.expect("structure"))
}
/// Observe which fields the documents exercise.
fn note(c: &mut Case, ty: &Ty, n: &N, v: &V) {
    c.seen(&(ty.name, hash_of(v)));
    let mut all = Vec::new();
    d::structs(n, &mut all);
    c.event_n("structures", all.len() as u64);
    for (s, f) in all {
        c.event_n("fields", f.len() as u64);
        if !f.is_empty() {
            c.event(&format!("struct:{}", s.name));
        }
    }
}
/// Field-level site of a path for signatures: without the user-chosen parts.
fn site(ty: &Ty, at: &str) -> String {
    // the innermost two components say what is wrong, independent of where the structure was found
    let parts: Vec<&str> = at.split('.').filter(|p| !p.is_empty() && *p != "*").collect();
    let tail = parts[parts.len().saturating_sub(2)..].join(".");
    format!("{}:{}", ty.name, tail)
}

// ---- C01 -------------------------------------------------------------------------------------
/// Text of the tree, if the YAML library reproduces the tree from it.
fn yaml_safe(v: &V, text: &str) -> bool {
    serde_yaml::from_str::<V>(text).is_ok_and(|w| same(v, &w))
}
fn json_safe(v: &V, text: &str) -> bool {
    serde_json::from_str::<serde_json::Value>(text).ok().and_then(|j| serde_yaml::to_value(j).ok()).is_some_and(|w| same(v, &w))
}
fn round_trip(c: &mut Case, ty: &Ty, t: &B, src: &str) {
    let w = match quiet_catch(|| t.value()) {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return c.fail(format!("not-serializable:{}", ty.name), format!("{src}: {e}")),
        Err(p) => return c.fail(format!("panic:serialize:{}", ty.name), format!("{src}: {p}")),
    };
    c.event("round trip through a value");
    match (ty.from_value)(w.clone()) {
        Err(e) => c.fail(format!("value-rejected:{}", ty.name), format!("{src} -> {}: {e}", show(&w))),
        Ok(t2) => {
            if !t2.eq_dyn(&**t) {
                c.fail(format!("value-differs:{}", ty.name), format!("{src} -> {}: {} != {}", show(&w), t.dbg(), t2.dbg()));
            }
            let w2 = t2.value();
            if !w2.as_ref().is_ok_and(|x| same(x, &w)) {
                c.fail(format!("value-unstable:{}", ty.name), format!("{src} -> {} -> {w2:?}", show(&w)));
            }
        }
    }
    match t.yaml() {
        Err(e) => c.fail(format!("not-yaml:{}", ty.name), format!("{src}: {e}")),
        Ok(text) if !yaml_safe(&w, &text) => c.event("skipped: YAML text does not carry the tree"),
        Ok(text) => {
            c.event("round trip through YAML text");
            match (ty.from_str)(&text) {
                Err(e) => c.fail(format!("yaml-rejected:{}", ty.name), format!("{src} -> {text}: {e}")),
                Ok(t2) => {
                    if !t2.eq_dyn(&**t) {
                        c.fail(format!("yaml-differs:{}", ty.name), format!("{src} -> {text}: {} != {}", t.dbg(), t2.dbg()));
                    }
                    if t2.yaml().as_ref() != Ok(&text) {
                        c.fail(format!("yaml-unstable:{}", ty.name), format!("{src} -> {text} -> {:?}", t2.yaml()));
                    }
                }
            }
        }
    }
    match t.json() {
        Err(e) => c.fail(format!("not-json:{}", ty.name), format!("{src}: {e}")),
        Ok(text) if !json_safe(&w, &text) => c.event("skipped: JSON text does not carry the tree"),
        Ok(text) => {
            c.event("round trip through JSON");
            match (ty.from_json)(&text) {
                Err(e) => c.fail(format!("json-rejected:{}", ty.name), format!("{src} -> {text}: {e}")),
                Ok(t2) => {
                    if !t2.eq_dyn(&**t) {
                        c.fail(format!("json-differs:{}", ty.name), format!("{src} -> {text}: {} != {}", t.dbg(), t2.dbg()));
                    }
                    if t2.json().as_ref() != Ok(&text) {
                        c.fail(format!("json-unstable:{}", ty.name), format!("{src} -> {text} -> {:?}", t2.json()));
                    }
                }
            }
        }
    }
}
pub fn round_trips(c: &mut Case) {
    let mut g = g(c);
    let ty = types::pick(&mut g.r);
    let (n, _) = gen(&mut g, ty);
    let v = to_value(&n);
    let Ok(t) = (ty.from_value)(v.clone()) else {
        return c.event("skipped: rejected (decided by C02)");
    };
    note(c, ty, &n, &v);
    c.sample(|| format!("{} {}", ty.name, show(&v)));
    round_trip(c, ty, &t, &show(&v));
}
/// Removes empty mappings, whose meaning next to an absent key is not specified.
fn strip_empty(v: &mut V) {
    match v {
        V::Mapping(m) => {
            m.values_mut().for_each(strip_empty);
            m.retain(|_, v| !matches!(v, V::Mapping(m) if m.is_empty()));
        }
        V::Sequence(s) => s.iter_mut().for_each(strip_empty),
        _ => {}
    }
}
fn hostile_scalar(r: &mut Rng) -> V {
    match r.below(9) {
        0 => V::Null,
        1 => V::Bool(r.bool()),
        2 => V::from(r.int_u64()),
        3 => V::from(-((r.int_u64() >> 1) as i64)),
        4 => V::from(*r.pick(&[0.0, -0.0, 0.5, 1.0, -1.0, 1e300, 4294967296.0, 1.5e-9])),
        5 => V::String(r.int_u64().to_string()),
        6 => V::String(r.pick_str(&[
            "", "-1", "1.5", "true", "null", "none", "NONE", "host", "service:a", "container:b", "a:b", "a:b:c", "/a:/b:ro", "./x:/y", "80:80",
            "80-90:80-90", "127.0.0.1:80:80/udp", "::1", "[::1]:80:80", "1s", "1h2m3s4ms5us", "1kb", "1b", "10gb", "a=b", "a", "x-a", "external", "CMD", "CMD-SHELL",
            "0-3,7", "/dev/a:/dev/b:rw", "c 1:3 rmw", "b *:* m", "id=/path", "default", "type=local,dest=x", "user/app:tag@sha256:00", "linux/arm64/v8",
            "02:42:ac:11:00:02", "0", "0.0", "unlimited", "10.0.0.0/8", "2001::/16", "all", "~", ".", "/", "..", "a/b", "é", "on-failure", "shareable",
        ])),
        7 => V::String(r.string_of("abX09-_.:/=@, ", 0, 12)),
        _ => V::String(r.string_of("aé\n\t\u{0}'\"#&*!|>%`{}[]", 0, 6)),
    }
}
/// A random edit of a tree.
pub fn edit(v: &mut V, r: &mut Rng, pool: &[V]) {
    // walk down at random
    let mut at = v;
    let mut left = r.below(8);
    loop {
        let down = match at {
            V::Mapping(m) if !m.is_empty() && left > 0 => {
                let k = r.below(m.len());
                Some(k)
            }
            V::Sequence(s) if !s.is_empty() && left > 0 => Some(r.below(s.len())),
            _ => None,
        };
        let Some(k) = down else { break };
        left -= 1;
        at = match at {
            V::Mapping(m) => m.values_mut().nth(k).unwrap(),
            V::Sequence(s) => &mut s[k],
            _ => unreachable!(),
        };
    }
    match at {
        V::Mapping(m) if !m.is_empty() && r.chance(2, 3) => {
            let k = m.keys().nth(r.below(m.len())).unwrap().clone();
            match r.below(5) {
                0 => {
                    m.shift_remove(&k);
                }
                1 => {
                    m.insert(k, hostile_scalar(r));
                }
                2 => {
                    m.insert(k, r.pick(pool).clone());
                }
                3 => {
                    let x = m.shift_remove(&k).unwrap();
                    let n = V::String(r.pick_str(&["x-a", "source", "target", "path", "name", "type", "external", "a", "disable", "test", "networks", "network_mode", "<<"]));
                    m.insert(n, x);
                }
                _ => {
                    let l = m.keys().nth(r.below(m.len())).unwrap().clone();
                    let (a, b) = (m[&k].clone(), m[&l].clone());
                    m.insert(k, b);
                    m.insert(l, a);
                }
            }
        }
        V::Sequence(s) if r.chance(2, 3) => match r.below(5) {
            0 if !s.is_empty() => {
                s.remove(r.below(s.len()));
            }
            1 if !s.is_empty() => {
                let k = r.below(s.len());
                let x = s[k].clone();
                s.push(x);
            }
            2 if s.len() > 1 => {
                let (a, b) = (r.below(s.len()), r.below(s.len()));
                s.swap(a, b);
            }
            3 => s.push(hostile_scalar(r)),
            _ => s.push(r.pick(pool).clone()),
        },
        _ => match r.below(8) {
            0 => *at = V::Sequence(vec![at.clone()]),
            1 => *at = V::Mapping(std::iter::once((V::String("a".into()), at.clone())).collect()),
            2 => *at = r.pick(pool).clone(),
            3 => {
                if let V::String(s) = at {
                    let mut cs: Vec<char> = s.chars().collect();
                    for _ in 0..r.range(1, 2) {
                        let k = r.below(cs.len() + 1);
                        match r.below(3) {
                            0 if k < cs.len() => {
                                cs.remove(k);
                            }
                            1 => cs.insert(k, *r.pick(&[':', '/', '-', '=', '0', '9', 'a', 'A', '.', ',', ' ', 'é'])),
                            _ if k < cs.len() => cs[k] = *r.pick(&[':', '/', '-', '=', '0', '9', 'a', 'A', '.', ',', ' ']),
                            _ => {}
                        }
                    }
                    *s = cs.into_iter().collect();
                }
            }
            4 => {
                // scalars as text and texts as scalars
                *at = match &*at {
                    V::Number(n) => V::String(n.to_string()),
                    V::Bool(b) => V::String(b.to_string()),
                    V::String(s) => serde_yaml::from_str::<V>(s).ok().filter(|v| !matches!(v, V::Tagged(_) | V::Mapping(_))).unwrap_or(V::Null),
                    x => x.clone(),
                };
            }
            _ => *at = hostile_scalar(r),
        },
    }
}
/// Subtrees to paste elsewhere.
fn pool(v: &V, out: &mut Vec<V>) {
    if out.len() > 60 {
        return;
    }
    out.push(v.clone());
    match v {
        V::Mapping(m) => m.values().for_each(|v| pool(v, out)),
        V::Sequence(s) => s.iter().for_each(|v| pool(v, out)),
        _ => {}
    }
}
pub fn huge_cpuset_pub(v: &V) -> bool {
    huge_cpuset(v)
}
/// A CPU set whose ranges would be expanded into an enormous set (a listed finding).
pub fn huge_cpuset(v: &V) -> bool {
    match v {
        V::Mapping(m) => m.iter().any(|(k, v)| {
            (k.as_str() == Some("cpuset")
                && v.as_str().is_some_and(|s| {
                    s.split(',').any(|p| p.split_once('-').is_some_and(|(a, b)| {
                        let n = |s: &str| s.trim_start_matches('+').parse::<u128>();
                        matches!((n(a), n(b)), (Ok(a), Ok(b)) if b.saturating_sub(a) > 100_000)
                    }))
                }))
                || huge_cpuset(v)
        }),
        V::Sequence(s) => s.iter().any(huge_cpuset),
        V::Tagged(t) => huge_cpuset(&t.value),
        _ => false,
    }
}
fn edited(g: &mut G, ty: &Ty) -> V {
    let (n, _) = gen(g, ty);
    let mut v = to_value(&n);
    let mut p = Vec::new();
    pool(&v, &mut p);
    let donor = types::pick(&mut g.r);
    if donor.name != "compose" {
        let (m, _) = gen(g, donor);
        pool(&to_value(&m), &mut p);
    }
    for _ in 0..g.r.range(1, 3) {
        edit(&mut v, &mut g.r, &p);
    }
    v
}
pub fn round_trips_edited(c: &mut Case) {
    let mut g = g(c);
    let ty = types::pick(&mut g.r);
    let mut v = edited(&mut g, ty);
    strip_empty(&mut v);
    if huge_cpuset(&v) {
        return;
    }
    match quiet_catch(|| (ty.from_value)(v.clone())) {
        Err(_) => c.event("skipped: panic (decided by C03)"),
        Ok(Err(_)) => c.event("edited tree rejected"),
        Ok(Ok(t)) => {
            c.event("edited tree accepted");
            if unspecified(&t.dbg()) {
                return c.event("skipped: outside the claim");
            }
            c.seen(&(ty.name, hash_of(&v)));
            round_trip(c, ty, &t, &show(&v));
        }
    }
}
/// Accepted values whose texts have no canonical spelling: an empty protocol.
fn unspecified(dbg: &str) -> bool {
    dbg.contains("Other(\"\")") || dbg.contains("NaN")
}

// ---- C02 -------------------------------------------------------------------------------------
pub fn written(c: &mut Case) {
    let mut g = g(c);
    g.empty_maps = true;
    let ty = types::pick(&mut g.r);
    let (n, x) = gen(&mut g, ty);
    let v = to_value(&n);
    note(c, ty, &n, &v);
    c.sample(|| format!("{} {}", ty.name, show(&v)));
    check_written(c, ty, &v, &x, "written");
    // the canonical spelling is reproduced exactly
    check_written(c, ty, &x_to_value(&x), &x, "canonical");
}
fn check_written(c: &mut Case, ty: &Ty, v: &V, x: &X, how: &str) -> Option<B> {
    match quiet_catch(|| (ty.from_value)(v.clone())) {
        Err(p) => {
            c.fail(format!("panic:{}", ty.name), format!("{}: {p}", show(v)));
            None
        }
        Ok(Err(e)) => {
            let cause: String = e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
            c.fail(format!("{how}-rejected:{}:{cause}", ty.name), format!("{}: {e}", show(v)));
            None
        }
        Ok(Ok(t)) => {
            match t.value() {
                Err(e) => c.fail(format!("{how}-not-serializable:{}", ty.name), format!("{}: {e}", show(v))),
                Ok(w) => {
                    c.event("documents written back");
                    if let Err((at, what)) = diff(&w, x, "") {
                        c.fail(format!("{how}:{}", site(ty, &at)), format!("at {at}: {what}; document {}; written {}", show(v), show(&w)));
                    }
                }
            }
            Some(t)
        }
    }
}
/// Every field alone, in many spellings.
pub fn written_single(c: &mut Case) {
    let ix = c.index as usize;
    let all: Vec<(&Ty, usize)> = types::TYPES.iter().flat_map(|t| (0..t.spec.fields.len()).map(move |k| (t, k))).filter(|(t, _)| t.name != "mount").collect();
    let (ty, k) = all[ix % all.len()];
    let mut g = g(c);
    g.empty_maps = true;
    let (n, x) = single(&mut g, ty, k);
    let v = to_value(&n);
    note(c, ty, &n, &v);
    c.event(&format!("field:{}.{}", ty.name, ty.spec.fields[k].key));
    check_written(c, ty, &v, &x, "single");
}
pub fn single_count() -> u64 {
    types::TYPES.iter().filter(|t| t.name != "mount").map(|t| t.spec.fields.len() as u64).sum()
}
/// A structure with one field (and what it requires).
fn single(g: &mut G, ty: &Ty, k: usize) -> (N, X) {
    let s = ty.spec;
    let f = &s.fields[k];
    let mut n: Vec<(String, N)> = Vec::new();
    let mut x: Vec<(String, X)> = Vec::new();
    for (i, o) in s.fields.iter().enumerate() {
        let needed = o.req || (s.one_of.contains(&o.group) && f.group != o.group && !s.fields[..i].iter().any(|p| p.group == o.group));
        if i == k || needed {
            let (a, b) = (o.gen)(g);
            n.push((o.key.to_owned(), a));
            if let Some(b) = b {
                x.push((o.key.to_owned(), b));
            }
        }
    }
    g.r.shuffle(&mut n);
    (N::Struct(s, n), X::Struct(x))
}

// ---- C20 -------------------------------------------------------------------------------------
fn hollow(v: &V) -> bool {
    match v {
        V::Mapping(m) => m.iter().all(|(k, v)| !k.as_str().unwrap_or("").starts_with("x-") && hollow(v)),
        V::Sequence(s) => s.iter().all(hollow),
        _ => false,
    }
}
fn check_empty(c: &mut Case, ty: &Ty, t: &B, src: &V) {
    let (Some(empty), Ok(w)) = (ty.empty, t.value()) else { return };
    let e = empty(t.any());
    c.event(if e { "empty values" } else { "non-empty values" });
    if e != hollow(&w) {
        c.fail(format!("is_empty:{}", ty.name), format!("is_empty() is {e}, written as {}; document {}", show(&w), show(src)));
    }
}
pub fn defaults_spelled(c: &mut Case) {
    let mut g = g(c);
    g.spell = true;
    g.nulls = true;
    let ty = types::pick(&mut g.r);
    let (n, x) = gen(&mut g, ty);
    let (v, w) = (to_value(&n), x_to_value(&x));
    let (a, b) = ((ty.from_value)(v.clone()), (ty.from_value)(w.clone()));
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return c.event("skipped: rejected (decided by C02)"),
        (a, b) => {
            let e = a.err().or(b.err()).unwrap();
            return c.fail(format!("accepted-differently:{}", ty.name), format!("spelled out {}; omitted {}: {e}", show(&v), show(&w)));
        }
    };
    note(c, ty, &n, &v);
    c.sample(|| format!("{} {} | {}", ty.name, show(&v), show(&w)));
    if !a.eq_dyn(&*b) {
        let at = a.value().ok().and_then(|a| diff(&a, &x, "").err()).map_or(String::new(), |(at, _)| at);
        c.fail(format!("default:{}", site(ty, &at)), format!("spelled out {} is {}; omitted {} is {}", show(&v), a.dbg(), show(&w), b.dbg()));
    }
    check_empty(c, ty, &a, &v);
}
/// One field at a time: a default is as good as nothing, anything else is not empty and is written.
pub fn single_fields(c: &mut Case) {
    let all: Vec<(&Ty, usize)> = types::TYPES.iter().filter(|t| t.name != "mount").flat_map(|t| (0..t.spec.fields.len() + 1).map(move |k| (t, k))).collect();
    let (ty, k) = all[c.index as usize % all.len()];
    let mut g = g(c);
    g.spell = g.r.bool();
    let base = {
        let required: Vec<(String, N)> = Vec::new();
        N::Struct(ty.spec, required)
    };
    let minimal = ty.spec.fields.iter().all(|f| !f.req) && ty.spec.one_of.is_empty();
    let (n, x) = if k < ty.spec.fields.len() {
        single(&mut g, ty, k)
    } else if ty.spec.ext && minimal {
        let e = d::txt(&mut g, d::ext_key);
        let (a, b) = d::ext_value(&mut g);
        (N::Struct(ty.spec, vec![(e.clone(), a)]), X::Struct(vec![(e, b.unwrap())]))
    } else {
        (base.clone(), X::Struct(vec![]))
    };
    let v = to_value(&n);
    let Ok(t) = (ty.from_value)(v.clone()) else {
        return c.event("skipped: rejected");
    };
    note(c, ty, &n, &v);
    check_empty(c, ty, &t, &v);
    let Ok(w) = t.value() else { return };
    if minimal {
        let Ok(zero) = (ty.from_value)(to_value(&base)) else {
            return c.fail(format!("empty-rejected:{}", ty.name), "an empty mapping is rejected although nothing is required".to_owned());
        };
        c.event("empty structures");
        if let Some(def) = ty.default {
            let def = def();
            if !def.eq_dyn(&*zero) {
                c.fail(format!("Default:{}", ty.name), format!("Default {} but {{}} is read as {}", def.dbg(), zero.dbg()));
            }
            if !def.value().is_ok_and(|v| same(&v, &V::Mapping(Mapping::new())) || (ty.name == "compose" && v.as_mapping().is_some_and(|m| m.len() <= 1))) {
                c.fail(format!("default-written:{}", ty.name), format!("the default is written as {:?}", def.value()));
            }
        }
        let X::Struct(f) = &x else { unreachable!() };
        let k = if k < ty.spec.fields.len() { ty.spec.fields[k].key } else { "x-" };
        if f.is_empty() {
            c.event("fields at their default");
            if !t.eq_dyn(&*zero) {
                c.fail(format!("default:{}.{k}", ty.name), format!("{} is {} but omitted it is {}", show(&v), t.dbg(), zero.dbg()));
            }
        } else {
            c.event("fields off their default");
            if t.eq_dyn(&*zero) && !(w.as_mapping().is_some_and(|m| m.values().all(hollow)) ) {
                c.fail(format!("no-effect:{}.{k}", ty.name), format!("{} is equal to the default", show(&v)));
            }
            if !w.as_mapping().is_some_and(|m| !m.is_empty()) {
                c.fail(format!("not-written:{}.{k}", ty.name), format!("{} is written as {}", show(&v), show(&w)));
            }
        }
    }
}

/// The tree without its scalars, except for those numbered in `keep`.
fn hollow_out(v: &V, keep: &[usize], k: &mut usize) -> Option<V> {
    match v {
        V::Mapping(m) => {
            let m: Mapping = m.iter().filter(|(k, _)| !k.as_str().unwrap_or("").starts_with("x-")).filter_map(|(key, v)| Some((key.clone(), hollow_out(v, keep, k)?))).collect();
            Some(V::Mapping(m))
        }
        V::Sequence(s) => Some(V::Sequence(s.iter().filter_map(|v| hollow_out(v, keep, k)).collect())),
        v => {
            *k += 1;
            keep.contains(&(*k - 1)).then(|| v.clone())
        }
    }
}
/// Structures of nothing but empty structures, and the same with one value somewhere.
pub fn hollow_structures(c: &mut Case) {
    let all: Vec<&Ty> = types::TYPES.iter().filter(|t| t.empty.is_some()).collect();
    let ty = all[c.index as usize % all.len()];
    let mut g = g(c);
    g.density = 60;
    g.nulls = false;
    let (n, _) = gen(&mut g, ty);
    let v = to_value(&n);
    let mut count = 0;
    hollow_out(&v, &[], &mut count);
    for round in 0..6 {
        let keep: Vec<usize> = if round == 0 || count == 0 { vec![] } else { (0..g.r.range(1, 2)).map(|_| g.r.below(count)).collect() };
        let Some(mut w) = hollow_out(&v, &keep, &mut 0) else { return };
        // lists of different lengths
        if let V::Mapping(m) = &mut w {
            for v in m.values_mut() {
                if let V::Sequence(s) = v {
                    if !s.is_empty() && s.iter().all(V::is_mapping) {
                        for _ in 0..g.r.below(3) {
                            let at = g.r.below(s.len() + 1);
                            s.insert(at, V::Mapping(Mapping::new()));
                        }
                    }
                }
            }
        }
        let Ok(t) = (ty.from_value)(w.clone()) else {
            c.event("skipped: something required is missing");
            continue;
        };
        c.seen(&(ty.name, hash_of(&w)));
        c.sample(|| format!("{} {}", ty.name, show(&w)));
        check_empty(c, ty, &t, &w);
    }
}

// ---- C21 -------------------------------------------------------------------------------------
pub fn assigned_fields(c: &mut Case) {
    let all: Vec<(&Ty, usize)> = types::TYPES.iter().flat_map(|t| (0..t.set.len()).map(move |k| (t, k))).collect();
    let (ty, k) = all[c.index as usize % all.len()];
    let (key, set) = ty.set[k];
    if key.is_empty() {
        return;
    }
    let mut g = g(c);
    g.nulls = false;
    if ty.name == "compose" {
        g.density = 0;
    }
    let (n, x) = gen(&mut g, ty);
    let N::Struct(spec, mut f) = n else { panic!("structure") };
    let X::Struct(mut xf) = x else { panic!("structure") };
    if spec.name == "external" || spec.name == "healthcheck_disabled" {
        return c.event("skipped: form without fields");
    }
    // the value for the field
    if key == "x-" {
        if !spec.ext {
            return;
        }
        let e = d::txt(&mut g, d::ext_key);
        let (a, b) = d::ext_value(&mut g);
        if f.iter().any(|f| f.0 == e) {
            return;
        }
        let before = f.clone();
        f.push((e.clone(), a));
        xf.push((e.clone(), b.clone().unwrap()));
        let m: Mapping = std::iter::once((V::String(e), x_to_value(&b.unwrap()))).collect();
        return assign(c, ty, key, set, V::Mapping(m), &before, &f, X::Struct(xf));
    }
    let Some(fs) = spec.fields.iter().find(|f| f.key == key) else {
        return c.event("skipped: field of another form");
    };
    let (a, Some(b)) = (fs.gen)(&mut g) else {
        return c.event("skipped: default value");
    };
    let group = fs.group;
    let other = |k: &str| spec.fields.iter().any(|o| o.key == k && o.group == group && group != 0) && k != key;
    // the document before: without the field, or with another value when something is required
    let mut before = f.clone();
    let mut after = f;
    after.retain(|f| f.0 != key && !other(&f.0));
    xf.retain(|f| f.0 != key && !other(&f.0));
    if !(fs.req || spec.one_of.contains(&group)) {
        before.retain(|f| f.0 != key);
    }
    after.push((key.to_owned(), a));
    xf.push((key.to_owned(), b.clone()));
    assign(c, ty, key, set, x_to_value(&b), &before, &after, X::Struct(xf));
}
fn assign(c: &mut Case, ty: &Ty, key: &str, set: types::Setter, val: V, before: &[(String, N)], after: &[(String, N)], x: X) {
    let tree = |f: &[(String, N)]| V::Mapping(f.iter().map(|(k, v)| (V::String(k.clone()), to_value(v))).collect());
    let (b, a) = (tree(before), tree(after));
    let (Ok(mut t), Ok(want)) = ((ty.from_value)(b.clone()), (ty.from_value)(a.clone())) else {
        return c.event("skipped: rejected");
    };
    if let Err(e) = set((*t).any_mut(), val.clone()) {
        return c.fail(format!("not-assignable:{}.{key}", ty.name), format!("{}: {e}", show(&val)));
    }
    c.seen(&(ty.name, key, hash_of(&a)));
    c.event(&format!("assigned:{}.{key}", ty.name));
    c.sample(|| format!("{}: {} + {key} = {} vs {}", ty.name, show(&b), show(&val), show(&a)));
    if !t.eq_dyn(&*want) {
        c.fail(
            format!("read:{}.{key}", ty.name),
            format!("the field set to {} in {} gives {}; the document {} gives {}", show(&val), show(&b), t.dbg(), show(&a), want.dbg()),
        );
    }
    match t.value() {
        Err(e) => c.fail(format!("not-serializable:{}.{key}", ty.name), format!("{}: {e}", t.dbg())),
        Ok(w) => {
            if let Err((at, what)) = diff(&w, &x, "") {
                c.fail(format!("write:{}.{key}", ty.name), format!("at {at}: {what}; value {}", t.dbg()));
            }
            match (ty.from_value)(w.clone()) {
                Ok(u) if u.eq_dyn(&*t) => {}
                r => c.fail(format!("reread:{}.{key}", ty.name), format!("built {} written {} reads {:?}", t.dbg(), show(&w), r.map(|t| t.dbg()))),
            }
        }
    }
}

// ---- C12 -------------------------------------------------------------------------------------
const NEAR: &[&str] = &[
    "X-a", "x", "x_a", " x-a", "", "x.a", "extensions", "domain_name", "network_config", "common", "kind", "source", "options", "external", "external_",
    "Image", "IMAGE", "image ", "container-name", "containerName", "dependsOn", "cap-add", "dns-search", "start", "enabled", "capabilities_", "networks_", "net",
    "mem", "cpu", "volume_driver", "links_", "service", "services_", "build_", "context_", "dockerfile_path", "build_args", "test_", "comand", "envfile",
    "env-file", "xx-a", "y-a", "-x-a", "<<", "null", "true", "1", "é", "x–a", "inline", "mode_", "credentials", "disable_", "extension",
];
const OTHER_WORDS: &[(&str, &str)] = &[
    ("mem", "memory"), ("memory", "mem"), ("env", "environment"), ("environment", "env"), ("dir", "directory"), ("dir", "path"), ("directory", "dir"),
    ("config", "configuration"), ("configs", "config"), ("opts", "options"), ("opt", "options"), ("opts", "opt"), ("opt", "opts"), ("cpu", "cpus"),
    ("cpus", "cpu"), ("rt", "realtime"), ("realtime", "rt"), ("oom", "out_of_memory"), ("pid", "process"), ("pids", "pid"), ("grace_period", "timeout"),
    ("grace_period", "grace"), ("period", "timeout"), ("interval", "period"), ("period", "interval"), ("timeout", "deadline"), ("retries", "attempts"),
    ("attempts", "retries"), ("max", "maximum"), ("limit", "limits"), ("limits", "limit"), ("dockerfile", "containerfile"), ("size", "bytes"),
    ("user", "uid"), ("uid", "user"), ("gid", "group"), ("group", "gid"), ("cap", "capability"), ("cap", "capabilities"), ("security", "sec"),
    ("target", "destination"), ("target", "dst"), ("target", "dest"), ("target", "container_port"), ("target", "container"), ("source", "src"),
    ("source", "from"), ("read_only", "readonly"), ("read_only", "ro"), ("published", "host_port"), ("published", "host"), ("host_ip", "ip"),
    ("ip", "address"), ("address", "addr"), ("path", "file"), ("file", "path"), ("path", "source"), ("mac", "hw"), ("test", "cmd"), ("command", "cmd"),
    ("command", "args"), ("name", "id"), ("id", "name"), ("depends_on", "requires"), ("depends_on", "after"), ("replicas", "scale"), ("scale", "replicas"),
    ("replicas", "count"), ("aliases", "names"), ("aliases", "alias"), ("priority", "order"), ("order", "priority"), ("delay", "wait"), ("window", "period"),
    ("condition", "when"), ("labels", "label"), ("labels", "annotations"), ("annotations", "labels"), ("net", "network"), ("network", "net"),
    ("networks", "network"), ("mode", "permissions"), ("volumes", "volume"), ("volume", "mount"), ("ports", "port"), ("ports", "publish"), ("expose", "ports"),
    ("secrets", "secret"), ("tmpfs", "tmp"), ("bind", "mount"), ("subpath", "sub_path"), ("nocopy", "no_copy"), ("image", "img"), ("tags", "tag"),
    ("platforms", "platform"), ("platform", "arch"), ("cache", "caches"), ("build", "builds"), ("context", "dir"), ("context", "path"), ("args", "arg"),
    ("args", "build_args"), ("extra_hosts", "add_host"), ("hosts", "host"), ("hostname", "host"), ("domainname", "domain"), ("domainname", "domain_name"),
    ("dns", "nameserver"), ("dns", "nameservers"), ("search", "domain"), ("init", "tini"), ("tty", "terminal"), ("stdin_open", "interactive"),
    ("privileged", "privilege"), ("restart", "restart_policy"), ("restart_policy", "restart"), ("policy", "mode"), ("runtime", "oci_runtime"),
    ("stop", "kill"), ("signal", "sig"), ("sysctls", "sysctl"), ("ulimits", "ulimit"), ("userns", "user_ns"), ("userns_mode", "userns"), ("ipc", "ipc_mode"),
    ("working", "work"), ("working_dir", "workdir"), ("working_dir", "cwd"), ("logging", "log"), ("driver", "type"), ("type", "driver"), ("driver", "plugin"),
    ("devices", "device"), ("links", "link"), ("profiles", "profile"), ("healthcheck", "health_check"), ("entrypoint", "entry_point"), ("shm", "shared"),
    ("ipam", "ip_am"), ("subnet", "cidr"), ("gateway", "gw"), ("ipv4_address", "ip"), ("ipv4_address", "ipv4"), ("ipv6_address", "ipv6"), ("enable", "use"),
    ("attachable", "attach"), ("internal", "private"), ("external", "extern"), ("weight", "priority"), ("rate", "limit"), ("soft", "min"), ("hard", "max"),
    ("required", "require"), ("required", "optional"), ("parallelism", "parallel"), ("failure", "error"), ("action", "mode"), ("monitor", "watch"),
    ("watch", "monitor"), ("ignore", "exclude"), ("capabilities", "caps"), ("count", "number"), ("pull", "pull_policy"), ("pull_policy", "pull"),
    ("no_cache", "nocache"), ("disable", "disabled"), ("swap", "swp"), ("swappiness", "swap"), ("score_adj", "score"), ("start", "initial"), ("project", "proj"),
];
/// Keys which look like `key`.
fn nears(key: &str) -> Vec<String> {
    let parts: Vec<&str> = key.split('_').collect();
    let cap = |s: &str| s.chars().take(1).flat_map(char::to_uppercase).chain(s.chars().skip(1)).collect::<String>();
    let mut v = vec![
        key.replace('_', "-"),
        key.to_uppercase(),
        key[..key.len() - 1].to_owned(),
        format!("{key}s"),
        key.trim_end_matches('s').to_owned(),
        key.replace('_', ""),
        format!("{}{}", parts[0], parts[1..].iter().map(|p| cap(p)).collect::<String>()),
        parts.iter().map(|p| cap(p)).collect(),
        parts[1..].join("_"),
        parts[..parts.len() - 1].join("_"),
        parts.iter().map(|p| &p[..1]).collect(),
        parts.iter().rev().copied().collect::<Vec<_>>().join("_"),
        key[1..].to_owned(),
        cap(key),
    ];
    v.extend([" ", ".", "__", "/"].map(|x| key.replace('_', x)));
    v.extend(["_", " ", "no_", "is_", "default_", "service_", "container_", "compose_", "the_", "$", ".", "+", "\u{feff}"].map(|x| format!("{x}{key}")));
    v.extend(
        ["_", " ", "_list", "_file", "_mode", "_name", "_config", "[]", ":", "?", "+", "\n", "\0", "_v2", "es", "_options", "_path", "_policy", "_in_bytes", "_ns"].map(|x| format!("{key}{x}")),
    );
    // two neighbouring letters swapped, one left out, one doubled
    for i in 0..key.len() {
        let mut b = key.as_bytes().to_vec();
        if i + 1 < b.len() {
            b.swap(i, i + 1);
            v.push(String::from_utf8_lossy(&b).into_owned());
        }
        v.push(format!("{}{}", &key[..i], &key[i + 1..]));
        v.push(format!("{}{}", &key[..=i], &key[i..]));
    }
    for (from, to) in OTHER_WORDS {
        let (from, whole) = (format!("_{from}_"), format!("_{key}_"));
        if whole.contains(&from) {
            v.push(whole.replace(&from, &format!("_{to}_")).trim_matches('_').to_owned());
        }
    }
    v.retain(|k| k != key);
    v.sort();
    v.dedup();
    v
}
fn near(g: &mut G, key: &str) -> String {
    let v = nears(key);
    v[g.r.below(v.len())].clone()
}
/// Every key of every structure, misspelt in every way that `nears` and `NEAR` know, with a value that the key
/// itself would take and without that key next to it.
pub fn near_keys(c: &mut Case) {
    static ALL: std::sync::OnceLock<Vec<(&'static types::Ty, usize, String)>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| {
        let mut v = vec![];
        for ty in types::TYPES {
            for (i, f) in ty.spec.fields.iter().enumerate() {
                v.extend(nears(f.key).into_iter().map(|k| (ty, i, k)));
                v.extend(NEAR.iter().filter(|k| !k.is_empty()).map(|k| (ty, i, (*k).to_owned())));
            }
        }
        v
    });
    let (ty, i, key) = &all[c.index as usize % all.len()];
    let (s, f) = (ty.spec, &ty.spec.fields[*i]);
    let mount = s.name.starts_with("mount_");
    let exempt = matches!(s.name, "network" | "volume" | "config" | "secret") && key == "external"
        || s.name == "healthcheck" && key == "disable"
        || mount && ["type", "source", "volume", "bind", "tmpfs"].contains(&key.as_str())
        || key.starts_with("x-")
        || s.fields.iter().any(|f| f.key == key);
    if exempt {
        return c.event("skipped: known key");
    }
    let mut g = g(c);
    g.nulls = false;
    let (n, _) = (ty.gen)(&mut g);
    let N::Struct(_, m) = n else { return c.event("skipped: not a mapping") };
    // mostly without what is not required
    let bare = g.r.chance(7, 8);
    let optional = |k: &str| !s.fields.iter().any(|f| f.key == k && (f.req || s.one_of.contains(&f.group))) && !(mount && matches!(k, "type" | "source"));
    let without: Vec<(String, N)> = m.into_iter().filter(|(k, _)| k != f.key && !(bare && optional(k)) && !(f.group != 0 && s.fields.iter().any(|o| o.group == f.group && o.key == k))).collect();
    let mut with = without.clone();
    let at = g.r.below(with.len() + 1);
    let value = (f.gen)(&mut g).0;
    with.insert(at, (key.clone(), value));
    let (v0, v) = (to_value(&N::Struct(s, without)), to_value(&N::Struct(s, with)));
    c.seen(&(ty.name, f.key, key));
    c.sample(|| format!("{}: key {key:?} in {}", ty.name, show(&v)));
    let run = |v: &V| quiet_catch(|| (ty.from_value)(v.clone()));
    match (run(&v0), run(&v)) {
        (Err(p), _) | (_, Err(p)) => c.fail(format!("panic:{}", ty.name), format!("{}: {p}", show(&v))),
        (Ok(r0), Ok(r)) if s.ext => {
            c.event(if r0.is_ok() { "near key in a valid structure" } else { "near key in place of a required one" });
            if let Ok(t) = r {
                c.fail(format!("absorbed:{}", s.name), format!("unknown key {key:?} is accepted in a {} of {} as {:?}", s.name, show(&v), t.value()));
            }
            let text = serde_yaml::to_string(&v).unwrap_or_default();
            if yaml_safe(&v, &text) && (ty.from_str)(&text).is_ok() {
                c.fail(format!("absorbed-text:{}", s.name), format!("unknown key {key:?} is accepted in a {} of {text}", s.name));
            }
        }
        (Ok(r0), Ok(Ok(t))) => match r0 {
            Ok(t0) if t0.eq_dyn(&*t) => c.event("near key ignored"),
            Ok(t0) => c.fail(format!("reinterpreted:{}", s.name), format!("unknown key {key:?} in a {} of {} gives {}, without it {}", s.name, show(&v), t.dbg(), t0.dbg())),
            Err(e) => c.fail(format!("absorbed:{}", s.name), format!("unknown key {key:?} in a {} of {} gives {}, without it the error {e}", s.name, show(&v), t.dbg())),
        },
        (_, Ok(Err(_))) => c.event("near key rejected"),
    }
}
pub fn unknown_keys(c: &mut Case) {
    let mut g = g(c);
    g.nulls = false;
    let ty = types::pick(&mut g.r);
    let (mut n, mut x) = gen(&mut g, ty);
    if g.r.chance(1, 3) {
        // an explicit place for everything: several structures
        let (m, y) = gen(&mut g, ty);
        (n, x) = (m, y);
    }
    let v0 = to_value(&n);
    let Ok(t0) = (ty.from_value)(v0.clone()) else {
        return c.event("skipped: rejected");
    };
    let total = d::count_structs(&n);
    let at = g.r.below(total);
    let mut here: Option<&'static S> = None;
    d::with_struct(&mut n, &mut at.clone(), &mut |s, _| here = Some(s));
    let Some(here) = here else { return };
    let mut key = g.r.pick_str(NEAR);
    // what a key like it would be given
    let mut like: Option<&'static d::F> = (!here.fields.is_empty()).then(|| &here.fields[g.r.below(here.fields.len())]);
    match g.r.below(4) {
        0 => {}
        1 => {
            // a key of some other structure
            let o = types::TYPES[g.r.below(types::TYPES.len())].spec;
            let f = &o.fields[g.r.below(o.fields.len())];
            like = Some(f);
            key = if g.r.chance(1, 3) { f.key.to_owned() } else { near(&mut g, f.key) };
        }
        // a variation of a key of this one
        _ => {
            if let Some(f) = like {
                key = near(&mut g, f.key);
            }
        }
    }
    let val = match (g.r.below(6), like) {
        (0, _) => V::Null,
        (1, _) => V::String(d::txt(&mut g, d::free)),
        (2, _) | (_, None) => d::ext_value(&mut g).1.map(|x| x_to_value(&x)).unwrap(),
        (_, Some(f)) => to_value(&(f.gen)(&mut g).0),
    };
    let mut spec: Option<&'static S> = None;
    let mut skip = false;
    let pos = g.r.u64();
    let mut k = at;
    d::with_struct(&mut n, &mut k, &mut |s, f| {
        spec = Some(s);
        let exempt: &[&str] = match s.name {
            "network" | "volume" | "config" | "secret" => &["external"],
            "healthcheck" | "healthcheck_disabled" => &["disable"],
            _ => &[],
        };
        let known = match s.name {
            // the disabled form is that of the whole structure, the external form takes a name
            "healthcheck_disabled" => {
                if val.is_null() {
                    skip = true;
                }
                d::HEALTH.fields.iter().any(|f| f.key == key)
            }
            "external" => key == "name",
            n if n.starts_with("mount_") => ["type", "source", "volume", "bind", "tmpfs"].contains(&key.as_str()) || s.fields.iter().any(|f| f.key == key),
            _ => s.fields.iter().any(|f| f.key == key),
        };
        if known || exempt.contains(&key.as_str()) || f.iter().any(|f| f.0 == key) || key.starts_with("x-") {
            skip = true;
            return;
        }
        let p = (pos as usize) % (f.len() + 1);
        f.insert(p, (key.clone(), N::Leaf(val.clone())));
    });
    let Some(s) = spec else { return };
    if skip {
        return c.event("skipped: known key");
    }
    let v = to_value(&n);
    c.seen(&(ty.name, hash_of(&v)));
    c.sample(|| format!("{}: key {key:?} in a {} of {}", ty.name, s.name, show(&v)));
    let r = match quiet_catch(|| (ty.from_value)(v.clone())) {
        Ok(r) => r,
        Err(p) => return c.fail(format!("panic:{}", ty.name), format!("{}: {p}", show(&v))),
    };
    let strict = s.ext || matches!(s.name, "external" | "healthcheck_disabled");
    match (strict, r) {
        (true, Err(_)) => c.event(&format!("unknown key rejected:{}", s.name)),
        (true, Ok(t)) => c.fail(
            format!("absorbed:{}", s.name),
            format!("unknown key {key:?} with {} is accepted in a {} of {} as {:?}", show(&val), s.name, show(&v), t.value()),
        ),
        (false, Ok(t)) => {
            c.event(&format!("unknown key ignored:{}", s.name));
            if !t.eq_dyn(&*t0) {
                c.fail(format!("reinterpreted:{}", s.name), format!("unknown key {key:?} in a {} of {} gives {}, without it {}", s.name, show(&v), t.dbg(), t0.dbg()));
            }
        }
        (false, Err(_)) => c.event(&format!("unknown key rejected:{}", s.name)),
    }
    let _ = x;
    // as text the decision is the same
    let text = serde_yaml::to_string(&v).unwrap_or_default();
    if strict && yaml_safe(&v, &text) && (ty.from_str)(&text).is_ok() {
        c.fail(format!("absorbed-text:{}", s.name), format!("unknown key {key:?} is accepted in a {} of {text}", s.name));
    }
}
pub fn extension_values(c: &mut Case) {
    let mut g = g(c);
    let ty = types::pick(&mut g.r);
    g.ext_pct = 100;
    g.density = 15;
    let (n, x) = gen(&mut g, ty);
    let v = to_value(&n);
    note(c, ty, &n, &v);
    c.sample(|| format!("{} {}", ty.name, show(&v)));
    let Some(t) = check_written(c, ty, &v, &x, "extension") else { return };
    // extensions never matter to anything else: without them the other fields are the same
    fn strip(n: &mut N) {
        match n {
            N::Leaf(_) => {}
            N::Seq(s) => s.iter_mut().for_each(strip),
            N::Map(m) => m.iter_mut().for_each(|f| strip(&mut f.1)),
            N::Struct(_, f) => {
                f.retain(|f| !f.0.starts_with("x-"));
                f.iter_mut().for_each(|f| strip(&mut f.1));
            }
        }
    }
    let mut m = n.clone();
    strip(&mut m);
    let w = to_value(&m);
    match (ty.from_value)(w.clone()) {
        Err(e) => c.fail(format!("required-extension:{}", ty.name), format!("{} is rejected without its extensions: {e}", show(&w))),
        Ok(u) => {
            let mut a = t.value().unwrap_or_default();
            fn strip_v(v: &mut V, n: &N) {
                match (v, n) {
                    (V::Mapping(m), N::Struct(_, f)) => {
                        m.retain(|k, _| !k.as_str().is_some_and(|k| k.starts_with("x-")));
                        for (k, v) in m.iter_mut() {
                            if let Some(f) = f.iter().find(|f| Some(f.0.as_str()) == k.as_str()) {
                                strip_v(v, &f.1);
                            }
                        }
                    }
                    (V::Mapping(m), N::Map(f)) => {
                        for (k, v) in m.iter_mut() {
                            if let Some(f) = f.iter().find(|f| Some(f.0.as_str()) == k.as_str()) {
                                strip_v(v, &f.1);
                            }
                        }
                    }
                    (V::Sequence(s), N::Seq(t)) if s.len() == t.len() => s.iter_mut().zip(t).for_each(|(v, n)| strip_v(v, n)),
                    _ => {}
                }
            }
            // only where repeated items did not change the list lengths
            let (mut rep, b) = (false, u.value().unwrap_or_default());
            fn lens(n: &N, v: &V, rep: &mut bool) {
                match (n, v) {
                    (N::Seq(a), V::Sequence(b)) => {
                        if a.len() != b.len() {
                            *rep = true;
                        } else {
                            a.iter().zip(b).for_each(|(a, b)| lens(a, b, rep));
                        }
                    }
                    (N::Struct(_, f) | N::Map(f), V::Mapping(m)) => {
                        for (k, n) in f {
                            if let Some(v) = m.get(k.as_str()) {
                                lens(n, v, rep);
                            }
                        }
                    }
                    _ => {}
                }
            }
            lens(&n, &a, &mut rep);
            lens(&n, &b, &mut rep);
            if rep {
                return;
            }
            strip_v(&mut a, &n);
            c.event("documents compared without extensions");
            if !same(&a, &b) && a != b {
                c.fail(format!("extension-leak:{}", ty.name), format!("{}: without extensions {}; otherwise {}", show(&v), show(&b), show(&a)));
            }
        }
    }
}

// ---- C11 -------------------------------------------------------------------------------------
/// The texts of a tree, those that are not keys.
fn texts_of<'a>(n: &'a mut N, out: &mut Vec<&'a mut String>) {
    match n {
        N::Leaf(V::String(s)) => out.push(s),
        N::Leaf(_) => {}
        N::Seq(s) => s.iter_mut().for_each(|n| texts_of(n, out)),
        // these decide which structure it is
        N::Struct(s, f) => f.iter_mut().filter(|f| f.0 != "type" && s.name != "healthcheck_disabled").for_each(|f| texts_of(&mut f.1, out)),
        N::Map(f) => f.iter_mut().for_each(|f| texts_of(&mut f.1, out)),
    }
}
/// Structures with alternatives where one text is a word of the vocabulary, each word in turn.
pub fn word_alternatives(c: &mut Case) {
    let words = crate::dict::all();
    let focus = ["credential_spec", "network_config", "dockerfile", "config", "secret", "healthcheck", "mount", "network", "volume"];
    let ty = types::find(focus[(c.index as usize / words.len()) % focus.len()]);
    let word = &words[c.index as usize % words.len()];
    for _ in 0..2 {
        let mut g = g(c);
        g.nulls = false;
        g.density = 5;
        let (mut n, _) = gen(&mut g, ty);
        let mut texts = Vec::new();
        texts_of(&mut n, &mut texts);
        if texts.is_empty() {
            c.event("skipped: no text to replace");
            continue;
        }
        let i = g.r.below(texts.len());
        *texts[i] = word.clone();
        alternatives_of(c, g, ty, n, true);
    }
}
pub fn alternatives(c: &mut Case) {
    let mut g = g(c);
    g.nulls = false;
    // a document that contains a structure with alternatives
    let focus = ["service", "build", "credential_spec", "network_config", "dockerfile", "config", "secret", "network", "volume", "healthcheck", "mount", "config_bare", "secret_bare"];
    let ty = if g.r.chance(2, 3) { types::find(g.r.pick(&focus)) } else { types::pick(&mut g.r) };
    let (n, _) = gen(&mut g, ty);
    alternatives_of(c, g, ty, n, false);
}
fn alternatives_of(c: &mut Case, mut g: G, ty: &Ty, mut n: N, edited: bool) {
    let v0 = to_value(&n);
    if (ty.from_value)(v0.clone()).is_err() {
        if edited {
            return c.event("skipped: the word does not fit");
        }
        return c.fail(format!("alternative-rejected:{}", ty.name), format!("{} is rejected", show(&v0)));
    }
    c.event("documents with one alternative accepted");
    let total = d::count_structs(&n);
    // structures in which something can be broken
    let mut all = Vec::new();
    d::structs(&n, &mut all);
    let cands: Vec<usize> = (0..total)
        .filter(|k| {
            let s = all[*k].0;
            s.fields.iter().any(|f| f.req || f.group != 0) || s.name.starts_with("mount_") || matches!(s.name, "external" | "healthcheck_disabled" | "network" | "volume" | "config" | "secret")
        })
        .collect();
    drop(all);
    if cands.is_empty() {
        return c.event("skipped: nothing to break");
    }
    let mut k = *g.r.pick(&cands);
    let mut what = String::new();
    let mut gg = std::mem::replace(&mut g, G::new(Rng::new(0)));
    d::with_struct(&mut n, &mut k, &mut |s, f| what = break_rule(&mut gg, s, f));
    if what.is_empty() {
        return c.event("skipped: nothing to break");
    }
    // whatever the order of the keys
    d::permute(&mut n, &mut gg.r);
    let v = to_value(&n);
    c.seen(&(ty.name, hash_of(&v)));
    c.sample(|| format!("{}: {what}: {}", ty.name, show(&v)));
    match quiet_catch(|| (ty.from_value)(v.clone())) {
        Err(p) => c.fail(format!("panic:{}", ty.name), format!("{}: {p}", show(&v))),
        Ok(Err(_)) => c.event(&format!("rejected: {what}")),
        Ok(Ok(t)) => c.fail(format!("accepted:{what}"), format!("{} is accepted as {}", show(&v), t.dbg())),
    }
    let text = serde_yaml::to_string(&v).unwrap_or_default();
    if yaml_safe(&v, &text) {
        if let Ok(t) = (ty.from_str)(&text) {
            c.fail(format!("accepted-text:{what}"), format!("{text} is accepted as {}", t.dbg()));
        }
    }
}
fn break_rule(g: &mut G, s: &'static S, f: &mut Vec<(String, N)>) -> String {
    let has = |f: &Vec<(String, N)>, k: &str| f.iter().any(|f| f.0 == k);
    let add = |g: &mut G, f: &mut Vec<(String, N)>, k: &str, n: N| {
        let at = g.r.below(f.len() + 1);
        f.insert(at, (k.to_owned(), n));
    };
    match s.name {
        "external" => {
            // another option or an extension
            let o = *g.r.pick(&[&d::NETWORK, &d::VOLUME, &d::CONFIG, &d::SECRET]);
            let (k, n) = if g.r.chance(1, 3) {
                (d::txt(g, d::ext_key), d::ext_value(g).0)
            } else {
                let x = &o.fields[g.r.below(o.fields.len())];
                (x.key.to_owned(), (x.gen)(g).0)
            };
            if k == "name" {
                return String::new();
            }
            add(g, f, &k, n);
            return "external with other options".into();
        }
        "network" | "volume" | "config" | "secret" if g.r.bool() => {
            if f.is_empty() || (f.len() == 1 && has(f, "name")) || (has(f, "external") && f.len() <= 1 + usize::from(has(f, "name"))) {
                return String::new();
            }
            f.retain(|f| f.0 != "external");
            if f.iter().all(|f| f.0 == "name") {
                return String::new();
            }
            add(g, f, "external", N::Leaf(V::Bool(true)));
            return format!("external {} with other options", s.name);
        }
        "healthcheck" | "healthcheck_disabled" if s.name == "healthcheck" || g.r.chance(1, 5) => {
            // a test list that is none of `NONE`, `CMD` with arguments and `CMD-SHELL` with one
            let text = |g: &mut G| N::Leaf(V::String(if g.r.chance(1, 3) { String::new() } else { d::txt(g, d::free) }));
            let (what, first, n): (&str, Option<String>, usize) = match g.r.below(5) {
                0 | 1 => ("NONE with arguments", Some("NONE".into()), 1 + g.r.below(3)),
                2 => ("CMD-SHELL without exactly one argument", Some("CMD-SHELL".into()), *g.r.pick(&[0, 2, 3])),
                3 => ("an empty list", None, 0),
                _ => {
                    let kind = match g.r.below(3) {
                        0 => g.r.pick_str(&["", "none", "cmd", "cmd-shell", "None", "CMD_SHELL", "CMDSHELL", "SHELL", "CMD ", " NONE", "curl", "CMD-SHELLS", "NON"]),
                        _ => d::txt(g, d::free),
                    };
                    if ["NONE", "CMD", "CMD-SHELL"].contains(&kind.as_str()) {
                        return String::new();
                    }
                    ("an unknown kind", Some(kind), g.r.below(3))
                }
            };
            let mut list: Vec<N> = first.into_iter().map(|f| N::Leaf(V::String(f))).collect();
            for _ in 0..n {
                list.push(text(g));
            }
            f.retain(|f| f.0 != "test");
            if s.name == "healthcheck_disabled" && g.r.bool() {
                // it was disabled by its test, or stays disabled
                f.retain(|f| f.0 != "disable");
            }
            add(g, f, "test", N::Seq(list));
            return format!("{} test: {what}", s.name);
        }
        "healthcheck_disabled" => {
            if g.r.chance(1, 4) {
                let k = d::txt(g, d::ext_key);
                let n = d::ext_value(g).0;
                add(g, f, &k, n);
                return "disabled healthcheck with extensions".into();
            }
            let x = &d::HEALTH.fields[g.r.below(d::HEALTH.fields.len())];
            if x.key == "test" && has(f, "test") {
                return String::new();
            }
            f.retain(|f| f.0 != x.key);
            let n = (x.gen)(g).0;
            add(g, f, x.key, n);
            if g.r.bool() {
                // and another one
                let y = &d::HEALTH.fields[g.r.below(d::HEALTH.fields.len())];
                if !has(f, y.key) {
                    let n = (y.gen)(g).0;
                    add(g, f, y.key, n);
                }
            }
            return format!("disabled healthcheck with {}", x.key);
        }
        n if n.starts_with("mount_") && g.r.bool() => match g.r.below(3) {
            0 => {
                f.retain(|f| f.0 != "type");
                return format!("{n} without type");
            }
            1 => {
                for x in f.iter_mut() {
                    if x.0 == "type" {
                        x.1 = N::Leaf(V::String(g.r.pick_str(&["", "Volume", "BIND", "npipes", "nfs", "volumes", "image", "tmp", "pipe", "x-volume"])));
                    }
                }
                return format!("{n} with unknown type");
            }
            _ => {
                let (k, node) = match g.r.below(4) {
                    0 => ("volume", d::volume_options(g).0),
                    1 => ("bind", d::bind_options(g).0),
                    2 => ("tmpfs", d::tmpfs_options(g).0),
                    _ => ("source", N::Leaf(V::String("a".into()))),
                };
                let own = matches!((n, k), ("mount_volume", "volume") | ("mount_bind", "bind") | ("mount_tmpfs", "tmpfs"));
                if own || (k == "source" && n != "mount_tmpfs") {
                    return String::new();
                }
                add(g, f, k, node);
                return format!("{n} with {k}");
            }
        },
        _ => {}
    }
    // two of a group, none of a group, or a required field missing
    let mut groups: Vec<u8> = s.fields.iter().map(|f| f.group).filter(|g| *g != 0).collect();
    groups.dedup();
    let req: Vec<&d::F> = s.fields.iter().filter(|f| f.req).collect();
    if !groups.is_empty() && (req.is_empty() || g.r.bool()) {
        let grp = *g.r.pick(&groups);
        if s.one_of.contains(&grp) && g.r.bool() {
            f.retain(|x| !s.fields.iter().any(|o| o.key == x.0 && o.group == grp));
            return format!("{} without any of its sources", s.name);
        }
        let mut members: Vec<&d::F> = s.fields.iter().filter(|f| f.group == grp).collect();
        g.r.shuffle(&mut members);
        let mut names: Vec<&str> = Vec::new();
        for m in members.iter().take(2) {
            names.push(m.key);
            if !has(f, m.key) {
                let n = (m.gen)(g).0;
                add(g, f, m.key, n);
            }
        }
        names.sort_unstable();
        return format!("{} with {}", s.name, names.join(" and "));
    }
    if let Some(x) = (!req.is_empty()).then(|| req[g.r.below(req.len())]) {
        if s.name.starts_with("mount_") && x.key == "type" {
            return String::new();
        }
        f.retain(|f| f.0 != x.key);
        return format!("{} without {}", s.name, x.key);
    }
    String::new()
}
/// `null` for the other members of a group is nothing.
pub fn null_alternatives(c: &mut Case) {
    let mut g = g(c);
    let ty = types::find(g.r.pick(&["service", "build", "compose"]));
    let (mut n, x) = gen(&mut g, ty);
    let mut k = g.r.below(d::count_structs(&n));
    let mut did = false;
    let pos = g.r.u64() as usize;
    d::with_struct(&mut n, &mut k, &mut |s, f| {
        for o in s.fields.iter().filter(|o| o.group != 0 && o.null == Null::Omits) {
            if !s.one_of.contains(&o.group) && !f.iter().any(|f| f.0 == o.key) {
                f.insert(pos % (f.len() + 1), (o.key.to_owned(), N::Leaf(V::Null)));
                did = true;
            }
        }
    });
    if !did {
        return c.event("skipped: no group");
    }
    let v = to_value(&n);
    note(c, ty, &n, &v);
    check_written(c, ty, &v, &x, "null-alternative");
}

// ---- C23 -------------------------------------------------------------------------------------
pub fn permutations(c: &mut Case) {
    let mut g = g(c);
    let ty = types::pick(&mut g.r);
    let (mut n, _) = gen(&mut g, ty);
    let broken = g.r.chance(1, 4);
    if broken {
        let total = d::count_structs(&n);
        let mut k = g.r.below(total);
        let mut gg = std::mem::replace(&mut g, G::new(Rng::new(0)));
        d::with_struct(&mut n, &mut k, &mut |s, f| {
            break_rule(&mut gg, s, f);
        });
        g = gg;
    }
    let v = to_value(&n);
    let a = quiet_catch(|| (ty.from_value)(v.clone()));
    let Ok(a) = a else { return c.event("skipped: panic (decided by C03)") };
    note(c, ty, &n, &v);
    c.sample(|| format!("{} {}", ty.name, show(&v)));
    let text = a.as_ref().ok().map(|t| t.yaml());
    for _ in 0..4 {
        let mut m = n.clone();
        d::permute(&mut m, &mut g.r);
        let w = to_value(&m);
        let b = match quiet_catch(|| (ty.from_value)(w.clone())) {
            Ok(b) => b,
            Err(p) => return c.fail(format!("panic:{}", ty.name), format!("{}: {p}", show(&w))),
        };
        c.event("permutations");
        match (&a, &b) {
            (Err(_), Err(_)) => c.event("permutations of rejected documents"),
            (Ok(a), Ok(b)) => {
                if !a.eq_dyn(&**b) {
                    c.fail(format!("value:{}", ty.name), format!("{} is {}; {} is {}", show(&v), a.dbg(), show(&w), b.dbg()));
                } else if Some(b.yaml()) != text {
                    c.fail(format!("output:{}", ty.name), format!("{} writes {:?}; {} writes {:?}", show(&v), text, show(&w), b.yaml()));
                }
            }
            (Ok(_), Err(e)) => c.fail(format!("rejected:{}", ty.name), format!("{} is accepted, {} is rejected: {e}", show(&v), show(&w))),
            (Err(e), Ok(_)) => c.fail(format!("accepted:{}", ty.name), format!("{} is rejected ({e}), {} is accepted", show(&v), show(&w))),
        }
        // as text, in that order
        let block = serde_yaml::to_string(&w).unwrap_or_default();
        if yaml_safe(&w, &block) {
            if let Ok(a) = &a {
                match (ty.from_str)(&block) {
                    Ok(b) if a.eq_dyn(&*b) => {}
                    r => c.fail(format!("text:{}", ty.name), format!("{} is {}; {block} is {:?}", show(&v), a.dbg(), r.map(|b| b.dbg()))),
                }
            }
        }
    }
    // user-named mappings may be permuted too, up to the order of their entries
    fn permute_all(v: &mut V, r: &mut Rng) {
        match v {
            V::Mapping(m) => {
                let mut e: Vec<(V, V)> = std::mem::take(m).into_iter().collect();
                r.shuffle(&mut e);
                e.iter_mut().for_each(|e| permute_all(&mut e.1, r));
                *m = e.into_iter().collect();
            }
            V::Sequence(s) => {
                // repeated items stay equal
                let old = s.clone();
                for i in 0..s.len() {
                    match old[..i].iter().position(|o| *o == old[i]) {
                        Some(j) => s[i] = s[j].clone(),
                        None => permute_all(&mut s[i], r),
                    }
                }
            }
            _ => {}
        }
    }
    let mut w = v.clone();
    permute_all(&mut w, &mut g.r);
    let b = quiet_catch(|| (ty.from_value)(w.clone()));
    match (&a, b) {
        (Ok(a), Ok(Ok(b))) => {
            // extension values are compared with their order, so compare up to order
            let (a, b) = (a.value().unwrap_or_default(), b.value().unwrap_or_default());
            c.event("permutations of all mappings");
            if !same_unordered(&a, &b) {
                c.fail(format!("all:{}", ty.name), format!("{} writes {}; {} writes {}", show(&v), show(&a), show(&w), show(&b)));
            }
        }
        (Err(_), Ok(Err(_))) => {}
        (_, b) => c.fail(format!("all-decision:{}", ty.name), format!("{} and {}: {:?}", show(&v), show(&w), b.map(|b| b.map(|b| b.dbg())))),
    }
}
fn same_unordered(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Mapping(a), V::Mapping(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same_unordered(v, w))),
        (V::Sequence(a), V::Sequence(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, w)| same_unordered(v, w)),
        _ => same(a, b),
    }
}

// ---- C15 -------------------------------------------------------------------------------------
fn outcome(ty: &Ty, v: &V) -> String {
    match quiet_catch(|| (ty.from_value)(v.clone())) {
        Err(p) => format!("panic {p}"),
        Ok(Err(e)) => format!("error {e}"),
        Ok(Ok(t)) => format!("{}\n{:?}\n{}", t.yaml().unwrap_or_else(|e| e), t.json(), t.dbg()),
    }
}
fn text_outcome(ty: &Ty, s: &str) -> String {
    match quiet_catch(|| (ty.from_str)(s)) {
        Err(p) => format!("panic {p}"),
        Ok(Err(e)) => format!("error {e}"),
        Ok(Ok(t)) => format!("{}\n{:?}\n{}", t.yaml().unwrap_or_else(|e| e), t.json(), t.dbg()),
    }
}
pub fn any_doc(g: &mut G, ty: &Ty) -> V {
    if g.r.bool() {
        to_value(&gen(g, ty).0)
    } else {
        edited(g, ty)
    }
}
pub fn repeated(c: &mut Case) {
    let mut g = g(c);
    g.density = 60;
    let ty = types::pick(&mut g.r);
    let v = any_doc(&mut g, ty);
    if huge_cpuset(&v) {
        return;
    }
    let text = serde_yaml::to_string(&v).unwrap_or_default();
    let (a, ta) = (outcome(ty, &v), text_outcome(ty, &text));
    c.seen(&(ty.name, hash_of(&v)));
    c.event(if a.starts_with("error") { "documents rejected" } else { "documents accepted" });
    c.sample(|| format!("{} {}", ty.name, show(&v)));
    // other work in between, on this and on other threads
    let other = any_doc(&mut g, ty);
    for k in 0..3 {
        if !huge_cpuset(&other) {
            outcome(ty, &other);
        }
        let (b, tb) = if k == 2 && c.index % 8 == 0 {
            c.event("repetitions on a fresh thread");
            std::thread::scope(|s| s.spawn(|| (outcome(ty, &v), text_outcome(ty, &text))).join().unwrap_or_default())
        } else {
            (outcome(ty, &v), text_outcome(ty, &text))
        };
        c.event("repetitions");
        if a != b {
            return c.fail(format!("value:{}", ty.name), format!("{}: {a} then {b}", show(&v)));
        }
        if ta != tb {
            return c.fail(format!("text:{}", ty.name), format!("{text}: {ta} then {tb}"));
        }
    }
}
/// The thousandth reading of a small document gives what the first gave.
pub fn many_times(c: &mut Case) {
    let mut g = g(c);
    g.density = 12;
    let ty = types::pick(&mut g.r);
    let v = any_doc(&mut g, ty);
    let text = serde_yaml::to_string(&v).unwrap_or_default();
    if huge_cpuset(&v) || text.len() > 300 {
        return c.event("skipped: large");
    }
    let (a, ta) = (outcome(ty, &v), text_outcome(ty, &text));
    c.seen(&(ty.name, hash_of(&v)));
    c.event(if a.starts_with("error") { "documents rejected" } else { "documents accepted" });
    c.sample(|| format!("{} {}", ty.name, show(&v)));
    for k in 0..700 {
        let b = outcome(ty, &v);
        if a != b {
            return c.fail(format!("value:{}", ty.name), format!("{}: {a}, then {b} after {k} repetitions", show(&v)));
        }
        if k % 2 == 0 {
            let tb = text_outcome(ty, &text);
            if ta != tb {
                return c.fail(format!("text:{}", ty.name), format!("{text}: {ta}, then {tb} after {k} repetitions"));
            }
        }
        c.event("repetitions");
    }
}
/// What every reader makes of a document, as an observation.
pub fn outcomes(c: &mut Case) {
    let mut g = g(c);
    let ty = types::pick(&mut g.r);
    let v = any_doc(&mut g, ty);
    if huge_cpuset(&v) {
        return;
    }
    c.seen(&(ty.name, hash_of(&v)));
    let text = serde_yaml::to_string(&v).unwrap_or_default();
    c.event(&format!("{:016x}", digest_one(ty, &v, &text)));
}
/// A number for all that every reader makes of a document and its text.
fn digest_one(ty: &Ty, v: &V, text: &str) -> u64 {
    let mut h: u64 = 0;
    let mut add = |s: String| {
        for b in s.bytes() {
            h = crate::rng::mix(h ^ u64::from(b));
        }
    };
    add(outcome(ty, v));
    add(text_outcome(ty, text));
    let tell = |r: Result<Result<B, String>, String>| match r {
        Err(p) => format!("panic {p}"),
        Ok(Err(e)) => format!("error {e}"),
        Ok(Ok(t)) => format!("{}\n{}", t.yaml().unwrap_or_else(|e| e), t.dbg()),
    };
    add(tell(quiet_catch(|| (ty.from_slice)(text.as_bytes()))));
    add(tell(quiet_catch(|| (ty.from_reader)(text.as_bytes(), 7))));
    if let Ok(json) = serde_json::to_string(v) {
        add(tell(quiet_catch(|| (ty.from_json)(&json))));
        add(tell(quiet_catch(|| (ty.from_json_slice)(json.as_bytes()))));
        add(tell(quiet_catch(|| (ty.from_json_reader)(json.as_bytes(), 7))));
    }
    if ty.name == "compose" {
        for merge in [false, true] {
            let mut o = Compose::options();
            o.apply_merge(merge);
            let all: [Result<Result<Compose, String>, String>; 4] = [
                quiet_catch(|| o.from_yaml_str(text).map_err(|e| e.to_string())),
                quiet_catch(|| o.from_yaml_slice(text.as_bytes()).map_err(|e| e.to_string())),
                quiet_catch(|| o.from_yaml_reader(text.as_bytes()).map_err(|e| e.to_string())),
                quiet_catch(|| o.from_yaml_value(v.clone()).map_err(|e| e.to_string())),
            ];
            for r in all {
                if let Ok(Ok(x)) = &r {
                    add(format!("{:?} {:?}", x.validate_all().map_err(|e| e.to_string()), x.validate_networks().map_err(|e| e.to_string())));
                }
                add(format!("{r:?}"));
            }
        }
    }
    h
}
type Order = std::collections::HashMap<(&'static str, String, String), String>;
static ORDER: std::sync::Mutex<Option<Order>> = std::sync::Mutex::new(None);
/// Fields are always written in the same relative order.
pub fn field_order(c: &mut Case) {
    let mut g = g(c);
    let ty = types::pick(&mut g.r);
    g.density = 60;
    let (n, _) = gen(&mut g, ty);
    let v = to_value(&n);
    let Ok(t) = (ty.from_value)(v.clone()) else { return c.event("skipped: rejected") };
    let Ok(w) = t.value() else { return };
    note(c, ty, &n, &v);
    fn walk(n: &N, v: &V, f: &mut dyn FnMut(&'static S, &[String])) {
        match (n, v) {
            (N::Struct(s, fs), V::Mapping(m)) => {
                let mut keys: Vec<String> = m.keys().filter_map(|k| k.as_str()).map(str::to_owned).collect();
                // extensions come in the order of the document
                keys.retain(|k| !k.starts_with("x-"));
                if s.name != "external" && s.name != "healthcheck_disabled" {
                    f(s, &keys);
                }
                for (k, n) in fs {
                    if let Some(v) = m.get(k.as_str()) {
                        walk(n, v, f);
                    }
                }
            }
            (N::Map(fs), V::Mapping(m)) => {
                for (k, n) in fs {
                    if let Some(v) = m.get(k.as_str()) {
                        walk(n, v, f);
                    }
                }
            }
            (N::Seq(a), V::Sequence(b)) if a.len() == b.len() => a.iter().zip(b).for_each(|(n, v)| walk(n, v, f)),
            _ => {}
        }
    }
    let mut bad = Vec::new();
    let mut pairs = 0u64;
    {
        let mut guard = ORDER.lock().unwrap();
        let map = guard.get_or_insert_with(Default::default);
        walk(&n, &w, &mut |s, keys| {
            for (i, a) in keys.iter().enumerate() {
                for b in &keys[i + 1..] {
                    pairs += 1;
                    if let Some(o) = map.get(&(s.name, b.clone(), a.clone())) {
                        bad.push((s.name, a.clone(), b.clone(), o.clone()));
                    }
                    map.entry((s.name, a.clone(), b.clone())).or_insert_with(|| show(&v).chars().take(600).collect());
                }
            }
        });
    }
    c.event_n("ordered pairs of fields", pairs);
    for (s, a, b, o) in bad.into_iter().take(1) {
        c.fail(format!("order:{s}"), format!("`{a}` is written before `{b}` for {}, the other way round for {o}", show(&v)));
    }
}
/// The same documents in other processes.
pub fn processes(c: &mut Case) {
    let seed = c.rng.u64();
    let want = digest(seed, 400, false);
    c.event_n("documents digested", 400);
    let scratch = std::env::var_os("CS_DIR").map_or_else(std::env::temp_dir, std::path::PathBuf::from).join(format!("surroundings.{}", c.index));
    for k in 0..4 {
        let mut p = std::process::Command::new(std::env::current_exe().expect("exe"));
        p.args(["--helper", "digest", &seed.to_string(), "400"]);
        let what = match k {
            0 => "in another process",
            1 => {
                p.env("CS_NOISE", "x".repeat(1000));
                "in another process with a larger environment"
            }
            2 => {
                p.env_clear().envs(std::env::var_os("CS_HOT").map(|v| ("CS_HOT", v))).current_dir("/");
                "without an environment"
            }
            _ => {
                if std::fs::create_dir_all(&scratch).is_err() {
                    break;
                }
                p.current_dir(&scratch).arg("surrounded");
                for v in ["HOME", "PWD", "TMPDIR", "XDG_RUNTIME_DIR", "DOCKER_CONFIG"] {
                    p.env(v, &scratch);
                }
                for (n, v) in [("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu"), ("USER", "a"), ("SOURCE_DATE_EPOCH", "1"), ("COMPOSE_PROJECT_NAME", "b"),
                    ("COMPOSE_FILE", "c.yaml"), ("COMPOSE_PROFILES", "d"), ("DOCKER_HOST", "tcp://e:1"), ("DOCKER_DEFAULT_PLATFORM", "linux/arm64")] {
                    p.env(n, v);
                }
                "where the files and variables that the documents name exist"
            }
        };
        let out = p.output();
        if k == 3 {
            let _ = std::fs::remove_dir_all(&scratch);
        }
        match out {
            Ok(o) if o.status.success() => {
                c.event("processes compared");
                c.event(what);
                c.seen(&(seed, k));
                let got: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(str::to_owned).collect();
                if let Some(i) = (0..want.len()).find(|i| got.get(*i) != Some(&want[*i])) {
                    c.fail("process", format!("document {i} of seed {seed}: digest {} here, {:?} {what}", want[i], got.get(i)));
                }
            }
            o => c.fail("process-ended", format!("{o:?}")),
        }
    }
}
/// Files (below the working directory) and variables by the names that a document gives.
fn surround(v: &V) {
    match v {
        V::Mapping(m) => m.iter().for_each(|(k, v)| {
            surround(k);
            surround(v);
        }),
        V::Sequence(s) => s.iter().for_each(surround),
        V::String(s) if !s.is_empty() && s.len() < 100 && !s.contains('\0') => {
            for part in std::iter::once(s.as_str()).chain(s.split([':', '=', ','])) {
                if !part.is_empty() && !part.contains('=') {
                    // this process has one thread
                    std::env::set_var(part, "other");
                }
                let path = std::path::Path::new(part);
                // nothing outside of the scratch directory
                let inside = path.components().all(|c| matches!(c, std::path::Component::CurDir | std::path::Component::Normal(_)));
                if inside && !part.is_empty() {
                    if let Some(d) = path.parent() {
                        let _ = std::fs::create_dir_all(d);
                    }
                    if part.len() % 2 == 0 {
                        let _ = std::fs::create_dir(path);
                    } else if !path.exists() {
                        let _ = std::fs::write(path, "services: {}\n");
                    }
                }
            }
        }
        _ => {}
    }
}
pub fn digest(seed: u64, n: u64, surrounded: bool) -> Vec<String> {
    (0..n)
        .map(|i| {
            let mut g = G::new(Rng::new(crate::rng::mix(seed) ^ i));
            let ty = types::pick(&mut g.r);
            let v = any_doc(&mut g, ty);
            if huge_cpuset(&v) {
                return "skipped".to_owned();
            }
            if surrounded {
                surround(&v);
            }
            let text = serde_yaml::to_string(&v).unwrap_or_default();
            let h = digest_one(ty, &v, &text);
            let validity = serde_yaml::from_value::<Compose>(v).map(|c| format!("{:?}", c.validate_all().map_err(|e| e.to_string()))).unwrap_or_default();
            let t = super::strings::digest(&mut g.r, &mut |s| {
                if surrounded {
                    surround(&V::String(s.to_owned()));
                }
            });
            format!("{h:016x} {t:016x} {} {validity}", ty.name).replace('\n', " ")
        })
        .collect()
}

// ---- C18 -------------------------------------------------------------------------------------
/// Flow style with anchors and aliases for repeated subtrees.
pub fn flow(v: &V, r: &mut Rng, anchors: &mut Vec<V>, out: &mut String) {
    let worth = !matches!(v, V::Mapping(m) if m.is_empty()) && !matches!(v, V::Sequence(s) if s.is_empty());
    if let Some(k) = anchors.iter().position(|a| same(a, v)) {
        out.push_str(&format!("*a{k} "));
        return;
    }
    let anchor = worth && r.chance(1, 3);
    if anchor {
        out.push_str(&format!("&a{} ", anchors.len()));
        anchors.push(v.clone());
    }
    let slot = anchors.len();
    match v {
        V::Mapping(m) => {
            out.push('{');
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                out.push_str(&spelled(k, r));
                out.push_str(": ");
                flow(v, r, anchors, out);
            }
            out.push('}');
        }
        V::Sequence(s) => {
            out.push('[');
            for (i, v) in s.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                flow(v, r, anchors, out);
            }
            out.push(']');
        }
        v => out.push_str(&spelled(v, r)),
    }
    let _ = slot;
}
/// A scalar in one of the ways YAML has of writing it: plain, quoted, or with any characters escaped.
fn spelled(v: &V, r: &mut Rng) -> String {
    let json = serde_json::to_string(v).unwrap_or_default();
    let V::String(s) = v else { return json };
    if !r.chance(1, 3) {
        return json;
    }
    match r.below(4) {
        0 if s == "<<" || (!s.is_empty() && s.chars().all(|c| c.is_ascii_lowercase() || c == '_') && !["null", "true", "false"].contains(&s.as_str())) => s.clone(),
        1 if !s.is_empty() && s.chars().all(|c| (' '..='~').contains(&c)) => format!("'{}'", s.replace('\'', "''")),
        _ => {
            let mut out = String::from("\"");
            for c in s.chars() {
                let n = c as u32;
                match r.below(4) {
                    0 if n < 0x100 => out.push_str(&format!("\\x{n:02X}")),
                    1 if n < 0x1_0000 => out.push_str(&format!("\\u{n:04x}")),
                    2 => out.push_str(&format!("\\U{n:08X}")),
                    _ if c != '"' && c != '\\' && !c.is_control() && n < 0x7f => out.push(c),
                    _ if n < 0x1_0000 => out.push_str(&format!("\\u{n:04x}")),
                    _ => out.push_str(&format!("\\U{n:08x}")),
                }
            }
            out.push('"');
            out
        }
    }
}
fn ends(c: &mut Case, ty: &Ty, src: &V, want: &Result<B, String>, label: &str, got: Result<Result<B, String>, String>) {
    c.event(label);
    match (want, got) {
        (_, Err(p)) => c.fail(format!("panic:{label}"), format!("{}: {p}", show(src))),
        (Ok(a), Ok(Ok(b))) => {
            if !a.eq_dyn(&*b) {
                c.fail(format!("{label}:{}", ty.name), format!("{} is {} as a value, {}", show(src), a.dbg(), b.dbg()));
            }
        }
        (Err(_), Ok(Err(_))) => {}
        (Ok(_), Ok(Err(e))) => c.fail(format!("{label}-rejected:{}", ty.name), format!("{}: {e}", show(src))),
        (Err(e), Ok(Ok(b))) => c.fail(format!("{label}-accepted:{}", ty.name), format!("{} as a value: {e}; here {}", show(src), b.dbg())),
    }
}
pub fn entry_points(c: &mut Case) {
    let mut g = g(c);
    let ty = types::pick(&mut g.r);
    let (mut n, _) = gen(&mut g, ty);
    if g.r.chance(1, 5) {
        let mut k = g.r.below(d::count_structs(&n));
        let mut gg = std::mem::replace(&mut g, G::new(Rng::new(0)));
        d::with_struct(&mut n, &mut k, &mut |s, f| {
            break_rule(&mut gg, s, f);
        });
        g = gg;
    }
    let mut v = to_value(&n);
    if g.r.chance(1, 3) {
        let mut k = g.r.below(leaves(&v).max(1));
        disturb(&mut v, &mut k, &mut g.r);
        if huge_cpuset(&v) {
            return c.event("skipped: listed finding");
        }
        c.event("documents with a disturbed text");
    }
    let Ok(want) = quiet_catch(|| (ty.from_value)(v.clone())) else { return c.event("skipped: panic (decided by C03)") };
    note(c, ty, &n, &v);
    c.event(if want.is_ok() { "documents accepted" } else { "documents rejected" });
    let mut texts: Vec<(&str, String)> = Vec::new();
    texts.push(("block", serde_yaml::to_string(&v).unwrap_or_default()));
    let json = serde_json::to_string(&v).unwrap_or_default();
    texts.push(("flow", json.clone()));
    let mut a = String::new();
    flow(&v, &mut g.r, &mut Vec::new(), &mut a);
    c.sample(|| format!("{} {}", ty.name, a.clone()));
    texts.push(("anchors", a));
    let chunk = g.r.range(1, 40) as usize;
    for (style, text) in &texts {
        if !yaml_safe(&v, text) {
            c.event("skipped: text does not carry the tree");
            continue;
        }
        ends(c, ty, &v, &want, &format!("str-{style}"), quiet_catch(|| (ty.from_str)(text)));
        ends(c, ty, &v, &want, &format!("slice-{style}"), quiet_catch(|| (ty.from_slice)(text.as_bytes())));
        ends(c, ty, &v, &want, &format!("reader-{style}"), quiet_catch(|| (ty.from_reader)(text.as_bytes(), chunk)));
        if ty.name == "compose" {
            for merge in [false, true] {
                if merge && has_merge(&v) {
                    continue;
                }
                let o = |r: serde_yaml::Result<Compose>| r.map(|t| Box::new(t) as B).map_err(|e| e.to_string());
                let mut opt = Compose::options();
                opt.apply_merge(merge);
                let m = if merge { "merge" } else { "plain" };
                ends(c, ty, &v, &want, &format!("options-{m}-str-{style}"), quiet_catch(|| o(opt.from_yaml_str(text))));
                ends(c, ty, &v, &want, &format!("options-{m}-slice-{style}"), quiet_catch(|| o(opt.from_yaml_slice(text.as_bytes()))));
                ends(c, ty, &v, &want, &format!("options-{m}-reader-{style}"), quiet_catch(|| o(opt.from_yaml_reader(types::Trickle(text.as_bytes(), chunk)))));
                ends(c, ty, &v, &want, &format!("options-{m}-value"), quiet_catch(|| o(opt.from_yaml_value(v.clone()))));
            }
        }
    }
    if crate::driven::presentable(&v) {
        for _ in 0..2 {
            ends(c, ty, &v, &want, "other-format", quiet_catch(|| (ty.from_driven)(&v, &mut g.r)));
        }
    }
    if json_safe(&v, &json) {
        ends(c, ty, &v, &want, "json-str", quiet_catch(|| (ty.from_json)(&json)));
        ends(c, ty, &v, &want, "json-slice", quiet_catch(|| (ty.from_json_slice)(json.as_bytes())));
        ends(c, ty, &v, &want, "json-reader", quiet_catch(|| (ty.from_json_reader)(json.as_bytes(), chunk)));
        let pretty = serde_json::to_string_pretty(&v).unwrap_or_default();
        ends(c, ty, &v, &want, "json-pretty", quiet_catch(|| (ty.from_json)(&pretty)));
        if let Ok(jv) = serde_json::from_str::<serde_json::Value>(&json) {
            ends(c, ty, &v, &want, "json-value", quiet_catch(|| (ty.from_json_value)(jv)));
        }
    }
}
/// The same document in other streams, and streams that are no single document.
pub fn streams(c: &mut Case) {
    let mut g = g(c);
    let ty = if g.r.chance(2, 3) { types::find("compose") } else { types::pick(&mut g.r) };
    g.density = *g.r.pick(&[5, 10, 30]);
    let v = if g.r.chance(3, 4) { to_value(&gen(&mut g, ty).0) } else { edited(&mut g, ty) };
    let block = serde_yaml::to_string(&v).unwrap_or_default();
    if huge_cpuset(&v) || !yaml_safe(&v, &block) || (ty.name == "compose" && has_merge(&v)) {
        return c.event("skipped: text does not carry the tree");
    }
    let text = if g.r.bool() {
        block
    } else {
        let mut a = String::new();
        flow(&v, &mut g.r, &mut Vec::new(), &mut a);
        a + "\n"
    };
    // texts that are read as they are, and those that become a value first
    let (Ok(want), Ok(merged)) = (quiet_catch(|| (ty.from_str)(&text)), quiet_catch(|| (ty.from_value)(v.clone()))) else { return c.event("skipped: panic (decided by C03)") };
    c.seen(&(ty.name, hash_of(&v)));
    let (start, end) = (*g.r.pick(&["---\n", "--- # start\n", "%YAML 1.1\n---\n", "# c\n---\n", "%YAML 1.2\n# c\n---\n", "%TAG !e! tag:e,2000:\n---\n"]), *g.r.pick(&["...\n", "# end", "\n\n", "# é\n...\n", "... # end"]));
    let (other, same) = match g.r.below(16) {
        0 => (format!("\u{feff}{text}"), true),
        1 => (format!("{start}{text}"), true),
        2 => (format!("{text}{end}"), true),
        3 => (format!("{start}{text}{end}"), true),
        4 => (format!("\u{feff}{start}{text}{end}"), true),
        5 => (format!("\n\n# é 😀\n{text}"), true),
        6 => (text.replace('\n', "\r\n"), true),
        7 => (text.trim_end_matches('\n').to_owned(), true),
        8 => (text.replace(":\n", ":   # a comment\n"), true),
        9 => (format!("{text}---\n{text}"), false),
        10 => (format!("{start}{text}...\n---\n"), false),
        11 => (format!("{text}--- {{}}\n"), false),
        12 => (format!("{text}...\n---\n&a [*b\n"), false),
        13 => (format!("{text}# \u{1}\n"), false),
        14 => (format!("{text}]\n"), false),
        _ => (format!("%YAML 3.0\n---\n{text}"), false),
    };
    let whole = serde_yaml::from_str::<V>(&other);
    if match &whole {
        Ok(w) => !same || !d::same(w, &v),
        Err(_) => same,
    } {
        return c.event("skipped: the library reads another document");
    }
    c.sample(|| format!("{} {other:?}", ty.name));
    let (want, merged) = if same {
        c.event(if want.is_ok() { "streams accepted" } else { "streams of rejected documents" });
        (want, merged)
    } else {
        c.event("streams of no single document");
        let e = "not a single document".to_owned();
        (Err(e.clone()), Err(e))
    };
    let chunk = g.r.range(1, 40) as usize;
    let mut bytes = vec![("", other.clone().into_bytes())];
    if !same {
        // no text at all
        bytes.push(("-latin", [text.as_bytes(), b"# \xe9\n"].concat()));
        bytes.push(("-cut", [text.as_bytes(), b"# \xf0\x9f\x98"].concat()));
    }
    let what = if same { "stream" } else { "no-document" };
    ends(c, ty, &v, &want, &format!("{what}-str"), quiet_catch(|| (ty.from_str)(&other)));
    for (b, bytes) in &bytes {
        ends(c, ty, &v, &want, &format!("{what}-slice{b}"), quiet_catch(|| (ty.from_slice)(bytes)));
        ends(c, ty, &v, &want, &format!("{what}-reader{b}"), quiet_catch(|| (ty.from_reader)(bytes, chunk)));
    }
    if ty.name == "compose" {
        for merge in [false, true] {
            let o = |r: serde_yaml::Result<Compose>| r.map(|t| Box::new(t) as B).map_err(|e| e.to_string());
            let mut opt = Compose::options();
            opt.apply_merge(merge);
            let m = if merge { "merge" } else { "plain" };
            let want = if merge { &merged } else { &want };
            ends(c, ty, &v, want, &format!("{what}-options-{m}-str"), quiet_catch(|| o(opt.from_yaml_str(&other))));
            for (b, bytes) in &bytes {
                ends(c, ty, &v, want, &format!("{what}-options-{m}-slice{b}"), quiet_catch(|| o(opt.from_yaml_slice(bytes))));
                ends(c, ty, &v, want, &format!("{what}-options-{m}-reader{b}"), quiet_catch(|| o(opt.from_yaml_reader(types::Trickle(bytes, chunk)))));
            }
        }
    }
}
fn leaves(v: &V) -> usize {
    match v {
        V::Mapping(m) => m.values().map(leaves).sum(),
        V::Sequence(s) => s.iter().map(leaves).sum(),
        V::String(_) => 1,
        _ => 0,
    }
}
/// Edits the text of the k-th string of a tree in a way only some readers may notice: white space
/// and control characters around it, another case, line endings, long texts.
fn disturb(v: &mut V, k: &mut usize, r: &mut Rng) -> bool {
    match v {
        V::Mapping(m) => m.values_mut().any(|v| disturb(v, k, r)),
        V::Sequence(s) => s.iter_mut().any(|v| disturb(v, k, r)),
        V::String(s) => {
            if *k > 0 {
                *k -= 1;
                return false;
            }
            let pad = *r.pick(&["\n", " ", "\t", "\n\n", "\r\n", "\u{a0}", "\u{feff}", "\0", "\"", "'", "#", ":", "-", "é"]);
            match r.below(9) {
                0 | 1 => s.push_str(pad),
                2 => s.insert_str(0, pad),
                3 => {
                    s.insert_str(0, pad);
                    s.push_str(pad);
                }
                4 => *s = s.to_uppercase(),
                5 => {
                    let i = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect::<Vec<_>>();
                    let i = *r.pick(&i);
                    s.insert_str(i, pad);
                }
                6 => s.clear(),
                7 => {
                    s.pop();
                }
                _ => *s = s.repeat(r.range(2, 40) as usize),
            }
            true
        }
        _ => false,
    }
}
/// Arbitrary trees and texts: the readers of one form agree with each other.
pub fn entry_points_edited(c: &mut Case) {
    let mut g = g(c);
    let ty = types::pick(&mut g.r);
    let v = edited(&mut g, ty);
    if huge_cpuset(&v) {
        return;
    }
    let text = if g.r.bool() { serde_yaml::to_string(&v).unwrap_or_default() } else { serde_json::to_string(&v).unwrap_or_default() };
    if huge_text(&text) {
        return;
    }
    let Ok(want) = quiet_catch(|| (ty.from_str)(&text)) else { return c.event("skipped: panic (decided by C03)") };
    c.seen(&(ty.name, hash_of(&v)));
    let chunk = g.r.range(1, 40) as usize;
    ends(c, ty, &v, &want, "edited-slice", quiet_catch(|| (ty.from_slice)(text.as_bytes())));
    ends(c, ty, &v, &want, "edited-reader", quiet_catch(|| (ty.from_reader)(text.as_bytes(), chunk)));
    if ty.name == "compose" {
        let o = |r: serde_yaml::Result<Compose>| r.map(|t| Box::new(t) as B).map_err(|e| e.to_string());
        let opt = Compose::options();
        ends(c, ty, &v, &want, "edited-options-str", quiet_catch(|| o(opt.from_yaml_str(&text))));
        ends(c, ty, &v, &want, "edited-options-slice", quiet_catch(|| o(opt.from_yaml_slice(text.as_bytes()))));
        ends(c, ty, &v, &want, "edited-options-reader", quiet_catch(|| o(opt.from_yaml_reader(types::Trickle(text.as_bytes(), chunk)))));
        if let Ok(val) = serde_yaml::from_str::<V>(&text) {
            if !has_merge(&val) {
                let want = quiet_catch(|| (ty.from_value)(val.clone())).unwrap_or(Err("panic".into()));
                let mut opt = Compose::options();
                opt.apply_merge(true);
                ends(c, ty, &v, &want, "edited-options-value", quiet_catch(|| o(Compose::options().from_yaml_value(val.clone()))));
                ends(c, ty, &v, &want, "edited-merge-value", quiet_catch(|| o(opt.from_yaml_value(val.clone()))));
                ends(c, ty, &v, &want, "edited-merge-str", quiet_catch(|| o(opt.from_yaml_str(&text))));
                ends(c, ty, &v, &want, "edited-merge-slice", quiet_catch(|| o(opt.from_yaml_slice(text.as_bytes()))));
                ends(c, ty, &v, &want, "edited-merge-reader", quiet_catch(|| o(opt.from_yaml_reader(types::Trickle(text.as_bytes(), chunk)))));
            }
        }
    }
    if let Ok(json) = serde_json::to_string(&v) {
        if let Ok(jv) = serde_json::from_str::<serde_json::Value>(&json) {
            let want = quiet_catch(|| (ty.from_json)(&json)).unwrap_or(Err("panic".into()));
            ends(c, ty, &v, &want, "edited-json-slice", quiet_catch(|| (ty.from_json_slice)(json.as_bytes())));
            ends(c, ty, &v, &want, "edited-json-reader", quiet_catch(|| (ty.from_json_reader)(json.as_bytes(), chunk)));
            ends(c, ty, &v, &want, "edited-json-value", quiet_catch(|| (ty.from_json_value)(jv)));
        }
    }
}
pub fn has_merge(v: &V) -> bool {
    match v {
        V::Mapping(m) => m.contains_key("<<") || m.values().any(has_merge),
        V::Sequence(s) => s.iter().any(has_merge),
        V::Tagged(t) => has_merge(&t.value),
        _ => false,
    }
}
/// Text that may hold an enormous CPU range.
pub fn huge_text(s: &str) -> bool {
    if !s.contains("cpuset") {
        return false;
    }
    let b = s.as_bytes();
    let mut run = 0;
    for c in b {
        if c.is_ascii_digit() {
            run += 1;
            if run >= 6 {
                return true;
            }
        } else {
            run = 0;
        }
    }
    false
}
pub use self::hostile::*;
mod hostile {
    use super::*;
    use crate::alloc::measured;
    use crate::checks::links::exercise;
    use compose_spec::Service;

    fn use_value(c: &mut Case, ty: &Ty, t: &B, src: &str) {
        let r = quiet_catch(|| {
            let d = t.dup();
            let _ = d.eq_dyn(&**t);
            let _ = (d.dbg(), d.value(), d.yaml(), d.json());
            if let Some(e) = ty.empty {
                let _ = e(d.any());
            }
            if let Some(s) = d.any().downcast_ref::<Service>() {
                exercise(s);
            }
            if let Some(x) = d.any().downcast_ref::<Compose>() {
                let _ = (x.validate_all(), x.validate_networks(), x.validate_volumes(), x.validate_configs(), x.validate_secrets());
                x.services.values().for_each(exercise);
            }
        });
        c.event("values exercised");
        if let Err(p) = r {
            c.fail(format!("panic:use:{}", ty.name), format!("{src}: {p}"));
        }
    }
    /// Memory may grow with the input, not beyond.
    fn bounded(c: &mut Case, ty: &Ty, src: &str, len: usize, peak: u64, calls: u64) {
        let limit = 4_000_000 + 4_000 * len as u64;
        if peak > limit || calls > 200_000 + 200 * len as u64 {
            c.fail(format!("memory:{}", ty.name), format!("{len} bytes of input took {peak} bytes in {calls} allocations: {src}"));
        }
    }
    pub fn hostile_trees(c: &mut Case) {
        let mut g = g(c);
        let ty = types::pick(&mut g.r);
        let mut v = edited(&mut g, ty);
        let mut p = Vec::new();
        pool(&v, &mut p);
        for _ in 0..g.r.range(0, 12) {
            edit(&mut v, &mut g.r, &p);
        }
        if g.r.chance(1, 20) {
            let t = serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("t"), value: v.clone() };
            if let V::Mapping(m) = &mut v {
                if let Some(k) = m.keys().next().cloned() {
                    let inner = m[&k].clone();
                    m.insert(k, V::Tagged(Box::new(serde_yaml::value::TaggedValue { value: inner, ..t })));
                }
            }
        }
        if huge_cpuset(&v) {
            return c.event("skipped: listed finding");
        }
        let src = show(&v);
        c.seen(&(ty.name, hash_of(&v)));
        let len = src.len();
        let (r, peak, calls) = measured(|| quiet_catch(|| (ty.from_value)(v.clone())));
        bounded(c, ty, &src, len, peak, calls);
        match r {
            Err(p) => c.fail(format!("panic:value:{}", ty.name), format!("{src}: {p}")),
            Ok(Err(_)) => c.event("trees rejected"),
            Ok(Ok(t)) => {
                c.event("trees accepted");
                use_value(c, ty, &t, &src);
            }
        }
        let text = serde_yaml::to_string(&v).unwrap_or_default();
        if !huge_text(&text) {
            match quiet_catch(|| (ty.from_str)(&text)) {
                Err(p) => c.fail(format!("panic:text:{}", ty.name), format!("{text}: {p}")),
                Ok(Ok(t)) => use_value(c, ty, &t, &text),
                Ok(Err(e)) => c.event_n("error text bytes", e.len() as u64),
            }
        }
        if let Ok(json) = serde_json::to_string(&v) {
            if let Err(p) = quiet_catch(|| (ty.from_json)(&json)) {
                c.fail(format!("panic:json:{}", ty.name), format!("{json}: {p}"));
            }
        }
    }
    pub fn hostile_bytes(c: &mut Case) {
        let mut g = g(c);
        let ty = types::pick(&mut g.r);
        let (n, _) = gen(&mut g, ty);
        let v = to_value(&n);
        let mut b = match g.r.below(3) {
            0 => serde_yaml::to_string(&v).unwrap_or_default(),
            1 => serde_json::to_string(&v).unwrap_or_default(),
            _ => {
                let mut a = String::new();
                flow(&v, &mut g.r, &mut Vec::new(), &mut a);
                a
            }
        }
        .into_bytes();
        let r = &mut g.r;
        match r.below(6) {
            0 => b.truncate(r.below(b.len() + 1)),
            1 => {
                // deep nesting
                let k = r.range(10, 3000) as usize;
                let open = *r.pick(&["[", "{a: ", "- ", "{\"services\": ", "? "]);
                b = open.repeat(k).into_bytes();
            }
            _ => {
                for _ in 0..r.range(1, 8) {
                    if b.is_empty() {
                        break;
                    }
                    let k = r.below(b.len());
                    match r.below(6) {
                        0 => {
                            b.remove(k);
                        }
                        1 => b[k] = r.u64() as u8,
                        2 => b.insert(k, *r.pick(b":-#&*!|>'\"%@`{}[],?\n\t ~<0\xff\xc3\x00")),
                        3 => {
                            let l = k + r.below(b.len() - k + 1).min(40);
                            let piece = b[k..l].to_vec();
                            let at = r.below(b.len() + 1);
                            b.splice(at..at, piece);
                        }
                        4 => {
                            let l = k + r.below(b.len() - k + 1).min(10);
                            b.drain(k..l);
                        }
                        _ => {
                            let n = r.int_u64().to_string();
                            b.splice(k..k, n.into_bytes());
                        }
                    }
                }
            }
        }
        let lossy = String::from_utf8_lossy(&b).into_owned();
        if huge_text(&lossy) {
            return c.event("skipped: listed finding");
        }
        c.seen(&(ty.name, &b));
        let (res, peak, calls) = measured(|| quiet_catch(|| (ty.from_slice)(&b)));
        bounded(c, ty, &lossy, b.len(), peak, calls);
        match res {
            Err(p) => c.fail(format!("panic:bytes:{}", ty.name), format!("{lossy:?}: {p}")),
            Ok(Err(_)) => c.event("bytes rejected"),
            Ok(Ok(t)) => {
                c.event("bytes accepted");
                use_value(c, ty, &t, &lossy);
            }
        }
        if let Err(p) = quiet_catch(|| (ty.from_json_slice)(&b).is_ok()) {
            c.fail(format!("panic:json-bytes:{}", ty.name), format!("{lossy:?}: {p}"));
        }
        if ty.name == "compose" {
            let mut o = Compose::options();
            o.apply_merge(true);
            if let Err(p) = quiet_catch(|| o.from_yaml_slice(&b).is_ok()) {
                c.fail("panic:merge-bytes".to_string(), format!("{lossy:?}: {p}"));
            }
        }
    }
}

// ---- C19 -------------------------------------------------------------------------------------
/// Structured values are equal exactly when nothing observable differs.
pub fn structured_equality(c: &mut Case) {
    let mut g = g(c);
    g.nulls = false;
    let ty = types::pick(&mut g.r);
    let (n, x) = gen(&mut g, ty);
    let v = to_value(&n);
    let Ok(a) = (ty.from_value)(v.clone()) else { return c.event("skipped: rejected") };
    let Ok(b) = (ty.from_value)(v.clone()) else { return };
    note(c, ty, &n, &v);
    if !a.eq_dyn(&*b) || !a.eq_dyn(&*a) {
        c.fail(format!("not-equal-to-itself:{}", ty.name), show(&v));
    }
    let copy = a.dup();
    if !copy.eq_dyn(&*a) || copy.dbg() != a.dbg() || copy.yaml() != a.yaml() {
        c.fail(format!("copy:{}", ty.name), format!("{}: the copy of {} is {}", show(&v), a.dbg(), copy.dbg()));
    }
    // change one field of one structure
    let mut m = n.clone();
    let mut k = g.r.below(d::count_structs(&m));
    let mut changed = String::new();
    let mut gg = std::mem::replace(&mut g, G::new(Rng::new(0)));
    d::with_struct(&mut m, &mut k, &mut |s, f| {
        if s.name == "external" || s.name == "healthcheck_disabled" || f.is_empty() {
            return;
        }
        let i = gg.r.below(f.len());
        if let Some(fs) = s.fields.iter().find(|fs| fs.key == f[i].0) {
            f[i].1 = (fs.gen)(&mut gg).0;
            changed = format!("{}.{}", s.name, fs.key);
        } else if f[i].0.starts_with("x-") {
            f[i].1 = d::ext_value(&mut gg).0;
            changed = format!("{}.x-", s.name);
        }
    });
    if changed.is_empty() {
        return;
    }
    let w = to_value(&m);
    let Ok(o) = (ty.from_value)(w.clone()) else { return c.event("skipped: rejected") };
    let (Ok(wa), Ok(wo)) = (a.value(), o.value()) else { return };
    let eq = a.eq_dyn(&*o);
    if eq != o.eq_dyn(&*a) {
        c.fail(format!("asymmetric:{changed}"), format!("{} and {}", show(&v), show(&w)));
    }
    c.event(if eq { "equal pairs" } else { "different pairs" });
    c.seen(&(hash_of(&v), hash_of(&w)));
    let norm = |v: &V| {
        let mut v = v.clone();
        normalize(&mut v);
        v
    };
    if eq && !same_sets(&norm(&wa), &norm(&wo)) {
        c.fail(format!("equal:{changed}"), format!("{} and {} are equal, but written {} and {}", show(&v), show(&w), show(&wa), show(&wo)));
    }
    if !eq && same(&wa, &wo) {
        // collections that are not written when empty are the only difference that may not show
        c.event("written alike");
        if !show(&v).contains("{}") && !show(&w).contains("{}") && !show(&v).contains("[]") && !show(&w).contains("[]") {
            c.fail(format!("different:{changed}"), format!("{} and {} differ, but both are written {}: {} / {}", show(&v), show(&w), show(&wa), a.dbg(), o.dbg()));
        }
    }
    let _ = x;
}
/// Path spelling is not part of a path's value.
fn normalize(v: &mut V) {
    match v {
        V::Mapping(m) => m.values_mut().for_each(normalize),
        V::Sequence(s) => s.iter_mut().for_each(normalize),
        V::String(s) => *s = s.chars().filter(|c| !matches!(c, '/' | '.')).collect(),
        V::Number(n) => {
            if n.as_f64() == Some(0.0) {
                *n = 0.into();
            }
        }
        _ => {}
    }
}
/// Equal up to the order of map entries and of set elements.
fn same_sets(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Mapping(a), V::Mapping(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same_sets(v, w))),
        (V::Sequence(a), V::Sequence(b)) => a.len() == b.len() && (a.iter().zip(b).all(|(v, w)| same_sets(v, w)) || a.iter().all(|v| b.iter().any(|w| same_sets(v, w)))),
        _ => a == b,
    }
}

// ---- equality and hashing of structures (C19) -------------------------------------------------
fn hash_one<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Another spelling or a small edit somewhere in a value.
fn respell(v: &mut V, r: &mut Rng) {
    match v {
        V::Mapping(m) => {
            for x in m.values_mut() {
                if r.chance(1, 3) {
                    respell(x, r);
                }
            }
            let mut all: Vec<(V, V)> = std::mem::take(m).into_iter().collect();
            match r.below(4) {
                0 => {}
                1 => all.reverse(),
                _ => r.shuffle(&mut all),
            }
            if r.chance(1, 12) && !all.is_empty() {
                let i = r.below(all.len());
                all.remove(i);
            }
            m.extend(all);
        }
        V::Sequence(l) => {
            for x in l.iter_mut() {
                if r.chance(1, 3) {
                    respell(x, r);
                }
            }
            if r.chance(1, 6) {
                l.reverse();
            }
        }
        V::String(s) => match r.below(8) {
            0 if s.contains('/') => *s = s.replacen('/', "//", 1),
            1 if s.contains('/') => *s = s.replacen('/', "/./", 1),
            2 => s.push('/'),
            3 => s.push('a'),
            4 if s.contains("tcp") => *s = s.replace("tcp", "TCP"),
            _ => {}
        },
        V::Number(n) => {
            if let (Some(i), true) = (n.as_i64(), r.bool()) {
                *v = if r.bool() { V::from(i as f64) } else { V::from(i.wrapping_add(1)) };
            }
        }
        _ => {}
    }
}
fn hash_pair<T: serde::de::DeserializeOwned + Eq + std::hash::Hash + std::fmt::Debug>(c: &mut Case, name: &str, v: &V, w: &V) {
    let (Ok(a), Ok(b)) = (serde_yaml::from_value::<T>(v.clone()), serde_yaml::from_value::<T>(w.clone())) else {
        return c.event("skipped: rejected");
    };
    c.seen(&(name, hash_of(v), hash_of(w)));
    c.sample(|| format!("{name}: {} and {}", show(v), show(w)));
    let eq = a == b;
    c.event(if eq { "equal pairs" } else { "different pairs" });
    if eq && !same(v, w) {
        c.event("equal pairs spelled differently");
    }
    c.check((b == a) == eq, &format!("asymmetric:{name}"), || format!("{} and {}", show(v), show(w)));
    c.check(!eq || hash_one(&a) == hash_one(&b), &format!("equal-hash-differently:{name}"), || format!("{} and {} are equal but hash differently", show(v), show(w)));
    // as elements of a set and keys of a map, next to others
    let set: indexmap::IndexSet<&T> = [&a].into_iter().collect();
    c.check(set.contains(&b) == eq, &format!("set:{name}"), || format!("{} in a set of {}: equal {eq}", show(w), show(v)));
    let map: std::collections::HashMap<&T, u8> = [(&a, 1)].into();
    c.check(map.contains_key(&b) == eq, &format!("map:{name}"), || format!("{} in a map with key {}: equal {eq}", show(w), show(v)));
}
pub fn hash_agreement(c: &mut Case) {
    use compose_spec::service::{ports, volumes};
    use compose_spec::ShortOrLong;
    let mut g = g(c);
    g.nulls = false;
    g.ext_pct = *g.r.pick(&[0, 60, 100]);
    let which = c.index % 6;
    let ty = types::find(["port", "volume_options", "bind_options", "tmpfs_options", "mount", "mount"][which as usize]);
    let (n, _) = gen(&mut g, ty);
    let v = to_value(&n);
    for _ in 0..6 {
        let mut w = v.clone();
        respell(&mut w, &mut g.r);
        match which {
            0 => {
                hash_pair::<ports::Port>(c, "Port", &v, &w);
                hash_pair::<ShortOrLong<ports::ShortPort, ports::Port>>(c, "ShortOrLong<ShortPort, Port>", &v, &w);
            }
            1 => hash_pair::<volumes::mount::VolumeOptions>(c, "VolumeOptions", &v, &w),
            2 => hash_pair::<volumes::mount::BindOptions>(c, "BindOptions", &v, &w),
            3 => hash_pair::<volumes::mount::TmpfsOptions>(c, "TmpfsOptions", &v, &w),
            4 => hash_pair::<volumes::Mount>(c, "Mount", &v, &w),
            _ => hash_pair::<ShortOrLong<volumes::ShortVolume, volumes::Mount>>(c, "ShortOrLong<ShortVolume, Mount>", &v, &w),
        }
    }
}

/// An option given twice in one mapping of a text.
pub fn repeated_options(c: &mut Case) {
    let mut g = g(c);
    g.nulls = false;
    let ty = if g.r.bool() { &types::TYPES[2 + g.r.below(types::TYPES.len() - 2)] } else { types::pick(&mut g.r) };
    let (mut n, _) = gen(&mut g, ty);
    let v0 = to_value(&n);
    if (ty.from_value)(v0.clone()).is_err() {
        return c.fail(format!("rejected:{}", ty.name), format!("{} is rejected", show(&v0)));
    }
    let mut k = g.r.below(d::count_structs(&n));
    let mut gg = std::mem::replace(&mut g, G::new(Rng::new(0)));
    let mut what = None;
    d::with_struct(&mut n, &mut k, &mut |s, f| {
        // unknown keys of structures without extensions mean nothing, extensions are not options
        let mine: Vec<usize> = (0..f.len())
            .filter(|i| {
                let n = &f[*i].0;
                !n.starts_with("x-")
                    && !matches!(&f[*i].1, N::Leaf(V::Null))
                    && (s.fields.iter().any(|f| f.key == n) || ["external", "disable", "type", "source", "name", "test"].contains(&n.as_str()))
            })
            .collect();
        if mine.is_empty() {
            return;
        }
        let i = *gg.r.pick(&mine);
        let key = f[i].0.clone();
        let value = match s.fields.iter().find(|x| x.key == key) {
            Some(x) if gg.r.bool() => (x.gen)(&mut gg).0,
            _ => f[i].1.clone(),
        };
        if matches!(value, N::Leaf(V::Null)) {
            return;
        }
        let at = if gg.r.chance(1, 3) { i + gg.r.below(2) } else { gg.r.below(f.len() + 1) };
        f.insert(at, (key.clone() + "\u{1}", value));
        what = Some((s.name, key));
    });
    let Some((owner, key)) = what else { return c.event("skipped: nothing to repeat") };
    let v = to_value(&n);
    let json = serde_json::to_string(&v).unwrap_or_default().replace("\\u0001\":", "\":");
    if json.contains("\\u0001") || !carried(&v0) {
        return c.event("skipped: not presentable");
    }
    // without the repetition the text is accepted
    let once = serde_json::to_string(&v0).unwrap_or_default();
    if (ty.from_str)(&once).is_err() || (ty.from_json)(&once).is_err() {
        return c.event("skipped: rejected as text");
    }
    c.seen(&(ty.name, &json));
    c.sample(|| format!("{}: {key} of {owner} twice: {json}", ty.name));
    let e = |r: serde_yaml::Result<compose_spec::Compose>| -> Result<String, String> { r.map(|c| format!("{c:?}")).map_err(|e| e.to_string()) };
    let b = |r: Result<B, String>| r.map(|b| b.dbg());
    let chunk = gg.r.range(1, 40) as usize;
    let mut ways: Vec<(&str, Result<Result<String, String>, String>)> = vec![
        ("yaml text", quiet_catch(|| b((ty.from_str)(&json)))),
        ("yaml bytes", quiet_catch(|| b((ty.from_slice)(json.as_bytes())))),
        ("yaml reader", quiet_catch(|| b((ty.from_reader)(json.as_bytes(), chunk)))),
        ("json text", quiet_catch(|| b((ty.from_json)(&json)))),
        ("json bytes", quiet_catch(|| b((ty.from_json_slice)(json.as_bytes())))),
        ("json reader", quiet_catch(|| b((ty.from_json_reader)(json.as_bytes(), chunk)))),
    ];
    if ty.name == "compose" {
        for merge in [false, true] {
            let mut o = compose_spec::Compose::options();
            o.apply_merge(merge);
            ways.push(("options text", quiet_catch(|| e(o.from_yaml_str(&json)))));
            ways.push(("options bytes", quiet_catch(|| e(o.from_yaml_slice(json.as_bytes())))));
            ways.push(("options reader", quiet_catch(|| e(o.from_yaml_reader(types::Trickle(json.as_bytes(), chunk))))));
        }
    }
    for (how, got) in ways {
        c.event(&format!("read as {how}"));
        match got {
            Err(p) => c.fail(format!("panic:{how}"), format!("{json}: {p}")),
            Ok(Ok(t)) => c.fail(format!("accepted:{owner}.{key}"), format!("{how}: {key} of {owner} is given twice in {json}, read as {t}")),
            Ok(Err(m)) => {
                c.event("repeated options rejected");
                // the message is about it
                let _ = m;
            }
        }
    }
}
/// The JSON text of the tree is that tree as YAML.
fn carried(v: &V) -> bool {
    let t = serde_json::to_string(v).unwrap_or_default();
    serde_yaml::from_str::<V>(&t).is_ok_and(|w| same(&w, v))
}
