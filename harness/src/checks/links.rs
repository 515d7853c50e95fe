//! Short and long syntax, references between parts of a document, merge keys.
use crate::checks::documents::{g, huge_cpuset_pub as huge_cpuset};
use crate::docs::{self as d, same, to_value, x_to_value, G, N, X};
use crate::mon::{quiet_catch, Case};
use crate::rng::Rng;
use compose_spec::service::{
    env_file::{self, EnvFile},
    network_config::{self as nc, NetworkConfig},
    ports, volumes, Build, ConfigOrSecret, Dependency, DependsOn, Limit, Ulimit,
};
use compose_spec::{AsShort, AsShortIter, Compose, Identifier, Include, ItemOrList, Service, ShortOrLong};
use indexmap::{IndexMap, IndexSet};
use serde_yaml::{Mapping, Value as V};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

fn show(v: &V) -> String {
    serde_json::to_string(v).unwrap_or_else(|_| format!("{v:?}"))
}

/// Calls the public operations of a service and the values in it.
pub fn exercise(s: &Service) {
    let s = s.clone();
    if let Some(b) = &s.build {
        let _ = b.as_short();
        let b = b.clone().into_long();
        let _ = b.is_empty();
        for x in b.cache_from.iter().chain(&b.cache_to) {
            let _ = (x.to_string(), x.clone().into_options());
        }
        for m in [&b.args, &b.labels] {
            let _ = (m.clone().into_map(), m.clone().into_list());
        }
    }
    for p in s.ports.iter() {
        match p {
            ShortOrLong::Short(p) => {
                let _ = (p.to_string(), p.ranges.into_iter().take(100).count());
                let _ = p.clone().into_long_iter().count();
            }
            ShortOrLong::Long(p) => {
                let _ = p.clone().into_short();
            }
        }
    }
    let _ = ports::into_short_iter(s.ports.clone()).count();
    let _ = ports::into_long_iter(s.ports.clone()).count();
    for v in s.volumes.iter() {
        match v {
            ShortOrLong::Short(v) => {
                let _ = (v.to_string(), v.clone().into_long().into_short());
            }
            ShortOrLong::Long(v) => {
                let _ = (v.kind().len(), v.clone().into_short().map(|v| v.into_long()));
            }
        }
    }
    let _ = volumes::into_short_iter(s.volumes.clone()).count();
    let _ = volumes::into_long_iter(s.volumes.clone()).count();
    let _ = s.depends_on.as_short_iter().map(|i| i.count());
    if let Some(NetworkConfig::Networks(n)) = &s.network_config {
        let _ = n.as_short_iter().map(|i| i.count());
    }
    if let Some(e) = &s.env_file {
        let _ = e.as_single();
        e.clone().into_list().into_iter().for_each(|e| {
            let _ = e.as_short();
            let _ = e.into_long();
        });
    }
    for x in s.configs.iter().chain(&s.secrets) {
        let _ = x.as_short();
        let _ = x.clone().into_long();
    }
    for u in s.ulimits.values() {
        let _ = u.as_short();
        let _ = u.clone().into_long();
    }
    for m in [&s.environment, &s.labels, &s.annotations, &s.sysctls] {
        let _ = m.clone().into_map();
        let _ = m.clone().into_list();
        let _ = m.clone().into_map_split_on(&['=', ':']);
    }
    if let Some(mut i) = s.image.clone() {
        let _ = i.set_registry(None);
        let _ = i.set_registry(compose_spec::service::image::Name::new("quay.io").ok());
        i.set_tag(None);
        i.set_digest(None);
        let _ = (i.name().to_string(), i.to_string());
    }
    for x in &s.devices {
        let _ = x.to_string();
    }
    if let Some(t) = s.dns.clone() {
        let _ = t.as_item();
        let _ = t.into_list();
    }
}

// ---- C09 -------------------------------------------------------------------------------------
fn keys(x: &X) -> Vec<&str> {
    match x {
        X::Struct(f) => f.iter().map(|f| f.0.as_str()).collect(),
        _ => vec![],
    }
}
fn field<'a>(x: &'a X, k: &str) -> Option<&'a X> {
    match x {
        X::Struct(f) => f.iter().find(|f| f.0 == k).map(|f| &f.1),
        _ => None,
    }
}
fn parse<T: serde::de::DeserializeOwned>(v: &V) -> Result<T, String> {
    serde_yaml::from_value(v.clone()).map_err(|e| e.to_string())
}
/// The laws of one long type: when it has a short form, and what the short form means.
fn laws<L>(c: &mut Case, name: &str, v: &V, long: &L, short: Option<V>)
where
    L: AsShort + Clone + PartialEq + std::fmt::Debug + From<L::Short> + From<ShortOrLong<L::Short, L>>,
    L::Short: Sized + Clone + PartialEq + std::fmt::Debug + serde::Serialize,
{
    c.event(&format!("{name}: {}", if short.is_some() { "short" } else { "long only" }));
    let got = long.as_short().map(|s| serde_yaml::to_value(s).unwrap_or(V::Null));
    let agree = match (&got, &short) {
        (Some(a), Some(b)) => same(a, b),
        (None, None) => true,
        _ => false,
    };
    if !agree {
        c.fail(format!("as_short:{name}"), format!("{} has the short form {got:?}, expected {short:?}", show(v)));
        return;
    }
    if <&L as AsShort>::as_short(&long) != long.as_short() {
        c.fail(format!("as_short-ref:{name}"), show(v));
    }
    let sol: ShortOrLong<L::Short, L> = ShortOrLong::Long(long.clone());
    if sol.as_short().is_some() != short.is_some() || !sol.is_long() || sol.is_short() || sol.as_long() != Some(long) || L::from(sol.clone()) != *long {
        c.fail(format!("long-wrapped:{name}"), format!("{}: {sol:?}", show(v)));
    }
    if let Some(s) = long.as_short() {
        let back = L::from(s.clone());
        if back != *long {
            // a list with the single path denotes the same
            c.fail(format!("short-means:{name}"), format!("{} shortens to {s:?}, which means {back:?}", show(v)));
        }
        let sol: ShortOrLong<L::Short, L> = ShortOrLong::Short(s.clone());
        if sol.as_short() != Some(s) || !sol.is_short() || sol.is_long() || sol.as_long().is_some() || L::from(sol.clone()) != *long {
            c.fail(format!("short-wrapped:{name}"), format!("{}: {sol:?}", show(v)));
        }
    }
}
/// A structure in which nothing, one thing or many things are set.
fn sparse(g: &mut G, s: &'static d::S) -> (N, X) {
    let pct = *g.r.pick(&[0, 0, 8, 15, 50]);
    g.ext_pct = *g.r.pick(&[0, 0, 30]);
    g.spell = true;
    d::structure_with(g, s, pct)
}
pub fn short_long(c: &mut Case) {
    let mut g = g(c);
    let k = c.index % 8;
    macro_rules! go {
        ($name:literal, $spec:path, $t:ty, $short:expr) => {{
            let (n, x) = sparse(&mut g, &$spec);
            let v = to_value(&n);
            c.seen(&($name, show(&v)));
            c.sample(|| format!("{} {}", $name, show(&v)));
            match parse::<$t>(&v) {
                Err(_) => c.event("skipped: rejected"),
                Ok(t) => {
                    let short: Option<V> = $short(&x);
                    laws::<$t>(c, $name, &v, &t, short);
                }
            }
        }};
    }
    let only = |x: &X, k: &str| if keys(x) == [k] { field(x, k).map(x_to_value) } else { None };
    match k {
        0 => go!("build", d::BUILD, Build, |x: &X| only(x, "context")),
        1 => go!("config or secret", d::CONFIG_OR_SECRET, ConfigOrSecret, |x: &X| only(x, "source")),
        2 => go!("env file", d::ENV_FILE, env_file::Config, |x: &X| only(x, "path")),
        3 => {
            let (n, x) = sparse(&mut g, &d::INCLUDE);
            let v = to_value(&n);
            c.seen(&("include", show(&v)));
            let Ok(t) = parse::<Include>(&v) else { return c.event("skipped: rejected") };
            let short = if keys(&x) == ["path"] {
                match field(&x, "path") {
                    Some(X::Seq(s)) if s.len() == 1 => Some(x_to_value(&s[0])),
                    Some(X::Leaf(l)) => Some(l.clone()),
                    _ => None,
                }
            } else {
                None
            };
            let list = matches!(t.path, ItemOrList::List(_));
            if list && short.is_some() {
                // the same meaning, in another spelling
                c.event("include: list of one");
                let got = t.as_short().map(|s| serde_yaml::to_value(s).unwrap_or(V::Null));
                if got.is_some() && got != short {
                    c.fail("as_short:include", format!("{}: {got:?}", show(&v)));
                }
            } else {
                laws::<Include>(c, "include", &v, &t, short);
            }
        }
        4 => {
            let (mut n, mut x) = sparse(&mut g, &d::ULIMIT);
            if g.r.bool() {
                // equal limits
                if let (N::Struct(_, f), X::Struct(xf)) = (&mut n, &mut x) {
                    let soft = f.iter().find(|f| f.0 == "soft").unwrap().1.clone();
                    f.iter_mut().filter(|f| f.0 == "hard").for_each(|f| f.1 = soft.clone());
                    let soft = xf.iter().find(|f| f.0 == "soft").unwrap().1.clone();
                    xf.iter_mut().filter(|f| f.0 == "hard").for_each(|f| f.1 = soft.clone());
                }
            }
            let v = to_value(&n);
            c.seen(&("ulimit", show(&v)));
            let Ok(t) = parse::<Ulimit>(&v) else { return c.event("skipped: rejected") };
            let (s, h) = (field(&x, "soft").unwrap(), field(&x, "hard").unwrap());
            let short = (s == h && keys(&x).len() == 2).then(|| x_to_value(s));
            laws::<Ulimit>(c, "ulimit", &v, &t, short);
            if let Limit::Value(n) = t.soft {
                let u = Ulimit::from(n);
                if u.soft != t.soft || u.hard != t.soft || !u.extensions.is_empty() || Ulimit::from(t.soft) != u {
                    c.fail("from:ulimit", format!("{n}: {u:?}"));
                }
            }
        }
        5 => depends(c, &mut g),
        6 => networks(c, &mut g),
        _ => env_files(c, &mut g),
    }
}
fn ids(g: &mut G, n: u64) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for _ in 0..n {
        let s = d::txt(g, d::identifier);
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}
fn depends(c: &mut Case, g: &mut G) {
    let n = g.r.range(0, 4);
    let names = ids(g, n);
    let pct = *g.r.pick(&[0, 10, 40]);
    let mut map = Mapping::new();
    let mut plain = true;
    for n in &names {
        let mut m = Mapping::new();
        let mut cond = "service_started";
        if g.r.chance(pct, 100) {
            cond = *g.r.pick(&["service_healthy", "service_completed_successfully"]);
            plain = false;
        }
        m.insert("condition".into(), cond.into());
        for (k, def) in [("restart", false), ("required", true)] {
            if g.r.chance(pct, 100) {
                m.insert(k.into(), (!def).into());
                plain = false;
            } else if g.r.chance(1, 4) {
                m.insert(k.into(), def.into());
            }
        }
        map.insert(n.as_str().into(), V::Mapping(m));
    }
    let v = V::Mapping(map);
    let Ok(long) = parse::<DependsOn>(&v) else { return c.fail("depends_on-rejected", show(&v)) };
    c.seen(&("depends_on", show(&v)));
    c.event(if plain { "depends_on: short" } else { "depends_on: long only" });
    let got: Option<Vec<String>> = long.as_short_iter().map(|i| i.map(ToString::to_string).collect());
    if got.as_ref() != plain.then_some(&names) {
        c.fail("as_short_iter:depends_on", format!("{}: {got:?}", show(&v)));
    }
    let inner: IndexMap<Identifier, Dependency> = match &long {
        ShortOrLong::Long(l) => l.clone(),
        ShortOrLong::Short(s) => return c.fail("kind:depends_on", format!("{}: {s:?}", show(&v))),
    };
    if inner.as_short_iter().is_some() != plain || <&IndexMap<_, _> as AsShortIter>::as_short_iter(&&inner).map(|i| i.map(ToString::to_string).collect::<Vec<_>>()) != got {
        c.fail("as_short_iter:depends_on-map", show(&v));
    }
    // the short list means the default options of every service
    let list = V::Sequence(names.iter().map(|n| n.as_str().into()).collect());
    let Ok(short) = parse::<DependsOn>(&list) else { return c.fail("depends_on-rejected", show(&list)) };
    let items: Option<Vec<String>> = short.as_short_iter().map(|i| i.map(ToString::to_string).collect());
    if items.as_ref() != Some(&names) || !short.is_short() {
        c.fail("short:depends_on", format!("{}: {items:?}", show(&list)));
    }
    let def = Dependency::default();
    let made = short.into_long();
    if !made.keys().map(Identifier::as_str).eq(names.iter().map(String::as_str)) || made.values().any(|d| *d != def) {
        c.fail("into_long:depends_on", format!("{}: {made:?}", show(&list)));
    }
    let kept = long.into_long();
    if kept != inner || !kept.keys().map(Identifier::as_str).eq(names.iter().map(String::as_str)) {
        c.fail("into_long:depends_on-map", format!("{}: {kept:?}", show(&v)));
    }
    for (k, dep) in &inner {
        if (*dep == def) != (serde_yaml::to_value(dep).is_ok_and(|v| v.as_mapping().is_some_and(|m| m.len() == 1) && v["condition"] == "service_started")) {
            c.fail("default:dependency", format!("{k} in {}: {dep:?}", show(&v)));
        }
    }
}
fn networks(c: &mut Case, g: &mut G) {
    let n = g.r.range(0, 4);
    let names = ids(g, n);
    let pct = *g.r.pick(&[0, 15, 40]);
    let mut map = Mapping::new();
    let mut plain = true;
    g.ext_pct = 0;
    g.spell = true;
    for n in &names {
        let v = if g.r.chance(pct, 100) {
            let k = g.r.below(d::SERVICE_NETWORK.fields.len() + 1);
            if k == d::SERVICE_NETWORK.fields.len() {
                plain = false;
                V::Mapping(std::iter::once((V::String(d::txt(g, d::ext_key)), V::Null)).collect())
            } else {
                let f = &d::SERVICE_NETWORK.fields[k];
                let (a, b) = (f.gen)(g);
                plain &= b.is_none();
                V::Mapping(std::iter::once((f.key.into(), to_value(&a))).collect())
            }
        } else if g.r.bool() {
            V::Null
        } else {
            V::Mapping(Mapping::new())
        };
        map.insert(n.as_str().into(), v);
    }
    let v = V::Mapping(map);
    let Ok(long) = parse::<nc::Networks>(&v) else { return c.fail("networks-rejected", show(&v)) };
    c.seen(&("networks", show(&v)));
    c.event(if plain { "networks: short" } else { "networks: long only" });
    let got: Option<Vec<String>> = long.as_short_iter().map(|i| i.map(ToString::to_string).collect());
    if got.as_ref() != plain.then_some(&names) {
        c.fail("as_short_iter:networks", format!("{}: {got:?}", show(&v)));
    }
    let set: IndexSet<Identifier> = names.iter().map(|n| Identifier::new(n.as_str()).unwrap()).collect();
    let short: nc::Networks = set.into();
    let items: Option<Vec<String>> = short.as_short_iter().map(|i| i.map(ToString::to_string).collect());
    if items.as_ref() != Some(&names) {
        c.fail("short:networks", format!("{names:?}: {items:?}"));
    }
    let made = short.into_long();
    if !made.keys().map(Identifier::as_str).eq(names.iter().map(String::as_str)) || made.values().any(|n| n.as_ref().is_some_and(|n| !n.is_empty())) {
        c.fail("into_long:networks", format!("{names:?}: {made:?}"));
    }
    let kept = long.clone().into_long();
    if !kept.keys().map(Identifier::as_str).eq(names.iter().map(String::as_str)) || long != ShortOrLong::Long(kept.clone()) {
        c.fail("into_long:networks-map", format!("{}: {kept:?}", show(&v)));
    }
}
fn env_files(c: &mut Case, g: &mut G) {
    let n = g.r.range(0, 3);
    let mut paths = Vec::new();
    let mut list = Vec::new();
    for _ in 0..n {
        let p = d::txt(g, d::rel_path);
        let (v, req) = match g.r.below(4) {
            0 => (V::String(p.clone()), true),
            1 => (serde_yaml::from_str(&format!("{{path: {}}}", serde_json::to_string(&p).unwrap())).unwrap(), true),
            2 => (serde_yaml::from_str(&format!("{{path: {}, required: true}}", serde_json::to_string(&p).unwrap())).unwrap(), true),
            _ => (serde_yaml::from_str(&format!("{{path: {}, required: false}}", serde_json::to_string(&p).unwrap())).unwrap(), false),
        };
        list.push(v);
        paths.push((p, req));
    }
    let single = paths.len() == 1 && g.r.bool() && list[0].is_string();
    let v = if single { list[0].clone() } else { V::Sequence(list) };
    let Ok(e) = parse::<EnvFile>(&v) else { return c.event("skipped: rejected") };
    c.seen(&("env_file", show(&v)));
    c.event("env_file lists");
    let want = (paths.len() == 1 && paths[0].1).then(|| PathBuf::from(&paths[0].0));
    if e.as_single() != want.as_ref() {
        c.fail("as_single:env_file", format!("{}: {:?}, expected {want:?}", show(&v), e.as_single()));
    }
    let got: Vec<(PathBuf, bool)> = e
        .into_list()
        .into_iter()
        .map(|e| {
            let l = e.into_long();
            (l.path, l.required)
        })
        .collect();
    let want: Vec<(PathBuf, bool)> = paths.into_iter().map(|(p, r)| (p.into(), r)).collect();
    if got != want {
        c.fail("into_list:env_file", format!("{}: {got:?}, expected {want:?}", show(&v)));
    }
}

// ---- C10 -------------------------------------------------------------------------------------
#[derive(Default, Clone, Debug)]
struct Uses {
    networks: BTreeSet<String>,
    volumes: BTreeSet<String>,
    configs: BTreeSet<String>,
    secrets: BTreeSet<String>,
}
pub fn references(c: &mut Case) {
    let mut g = g(c);
    let seed = g.r.u64();
    let r = &mut g.r;
    let names = ["a", "b", "n-1", "data", "x_y", "0", "default", "A", "host", "none"];
    let pool: Vec<&str> = (0..r.range(1, 5)).map(|_| *r.pick(&names)).collect();
    let mut services = Mapping::new();
    let mut uses: BTreeMap<String, Uses> = BTreeMap::new();
    let count = if r.chance(1, 150) { r.range(5, 300) } else { r.range(0, 4) };
    for k in 0..count {
        let mut u = Uses::default();
        let mut s = Mapping::new();
        let some = |r: &mut Rng| -> Vec<String> { (0..r.range(0, 3)).map(|_| (*r.pick(&pool)).to_owned()).collect() };
        match r.below(5) {
            0 => {
                let n = some(r);
                u.networks = n.iter().cloned().collect();
                s.insert("networks".into(), V::Sequence(n.into_iter().map(V::String).collect()));
            }
            1 | 2 => {
                let n = some(r);
                u.networks = n.iter().cloned().collect();
                let mut m = Mapping::new();
                for n in n {
                    let v = match r.below(3) {
                        0 => V::Null,
                        1 => V::Mapping(Mapping::new()),
                        _ => serde_yaml::from_str("{aliases: [a, zz], priority: 3}").unwrap(),
                    };
                    m.insert(V::String(n), v);
                }
                s.insert("networks".into(), V::Mapping(m));
            }
            3 => {
                let m = r.pick_str(&["host", "none", "service:a", "container:zz", "bridge", "zz"]);
                s.insert("network_mode".into(), V::String(m));
            }
            _ => {}
        }
        for (key, secret) in [("configs", false), ("secrets", true)] {
            if r.bool() {
                let n = some(r);
                if secret {
                    u.secrets = n.iter().cloned().collect();
                } else {
                    u.configs = n.iter().cloned().collect();
                }
                let list = n
                    .into_iter()
                    .map(|n| match r.below(3) {
                        0 => serde_yaml::from_str(&format!("{{source: \"{n}\", target: /zz, mode: 4}}")).unwrap(),
                        1 => serde_yaml::from_str(&format!("{{source: \"{n}\"}}")).unwrap(),
                        _ => V::String(n),
                    })
                    .collect();
                s.insert(key.into(), V::Sequence(list));
            }
        }
        if r.chance(3, 4) {
            let mut list = Vec::new();
            for (i, n) in some(r).into_iter().enumerate() {
                let v = match r.below(9) {
                    0 => V::String(format!("{n}:/m{i}")),
                    1 => V::String(format!("{n}:/m{i}:ro")),
                    2 => serde_yaml::from_str(&format!("{{type: volume, source: \"{n}\", target: /m{i}}}")).unwrap(),
                    3 => serde_yaml::from_str(&format!("{{type: volume, source: \"{n}\", target: /m{i}, volume: {{nocopy: true}}}}")).unwrap(),
                    4 => V::String(format!("./{n}:/m{i}")),
                    5 => serde_yaml::from_str(&format!("{{type: bind, source: /{n}, target: /m{i}}}")).unwrap(),
                    6 => V::String(format!("/m{i}")),
                    7 => serde_yaml::from_str(&format!("{{type: volume, target: /m{i}}}")).unwrap(),
                    _ => serde_yaml::from_str(&format!("{{type: cluster, source: \"{n}\", target: /m{i}}}")).unwrap(),
                };
                let named = match &v {
                    V::String(s) => s.starts_with(|c: char| c.is_ascii_alphanumeric()),
                    v => v["type"] == "volume" && v.get("source").is_some(),
                };
                if named {
                    u.volumes.insert(n);
                }
                list.push(v);
            }
            s.insert("volumes".into(), V::Sequence(list));
        }
        if r.chance(1, 4) {
            // references that are not those of the service itself
            s.insert("build".into(), serde_yaml::from_str("{context: ., secrets: [zz], network: zz}").unwrap());
        }
        let mut name = if r.chance(1, 3) { r.pick_str(&pool) } else { format!("s{}{k}", r.pick_str(&["", "-", "_x"])) };
        if uses.contains_key(&name) {
            name = format!("s{k}");
        }
        if r.chance(1, 3) {
            // options that have nothing to do with references
            let ty = crate::types::TYPES.iter().find(|t| t.name == "service").unwrap();
            let mut other = G::new(Rng::new(seed ^ k));
            let (n, _) = crate::checks::documents::gen(&mut other, ty);
            if let V::Mapping(m) = to_value(&n) {
                for (k, v) in m {
                    let key = k.as_str().unwrap_or_default();
                    if !["networks", "network_mode", "configs", "secrets", "volumes"].contains(&key) && !s.contains_key(&k) {
                        s.insert(k, v);
                    }
                }
            }
        }
        uses.insert(name.clone(), u);
        services.insert(V::String(name), V::Mapping(s));
    }
    let mut doc = Mapping::new();
    doc.insert("services".into(), V::Mapping(services));
    let mut defined: BTreeMap<&str, BTreeSet<String>> = BTreeMap::new();
    let full = r.chance(1, 3);
    for kind in ["networks", "volumes", "configs", "secrets"] {
        let mut m = Mapping::new();
        for n in &names {
            let used = pool.contains(n);
            if (used && (full || r.chance(2, 3))) || (!used && r.chance(1, 8)) {
                let v = match (kind, r.below(3)) {
                    ("networks" | "volumes", 0) => V::Null,
                    ("networks" | "volumes", 1) => V::Mapping(Mapping::new()),
                    ("configs" | "secrets", 0 | 1) => serde_yaml::from_str("{file: ./x}").unwrap(),
                    _ => serde_yaml::from_str("{external: true}").unwrap(),
                };
                m.insert((*n).into(), v);
                defined.entry(kind).or_default().insert((*n).to_owned());
            }
        }
        if !m.is_empty() || r.bool() {
            doc.insert(kind.into(), V::Mapping(m));
        }
    }
    let v = V::Mapping(doc);
    let Ok(compose) = parse::<Compose>(&v) else { return c.fail("rejected", show(&v)) };
    c.seen(&show(&v));
    c.sample(|| show(&v));
    let none = BTreeSet::new();
    let def = |k: &str| defined.get(k).unwrap_or(&none);
    // (kind, resource, service) that are undefined
    let mut undef: BTreeMap<&str, BTreeSet<(String, String)>> = BTreeMap::new();
    for (s, u) in &uses {
        for (kind, set) in [("networks", &u.networks), ("configs", &u.configs), ("secrets", &u.secrets)] {
            for n in set {
                if !def(kind).contains(n) {
                    undef.entry(kind).or_default().insert((n.clone(), s.clone()));
                }
            }
        }
        for n in &u.volumes {
            if !def("volumes").contains(n) && uses.iter().any(|(t, w)| t != s && w.volumes.contains(n)) {
                undef.entry("volumes").or_default().insert((n.clone(), s.clone()));
            }
        }
    }
    type Check = fn(&Compose) -> Result<(), compose_spec::ValidationError>;
    let checks: [(&str, Check); 4] = [
        ("networks", Compose::validate_networks),
        ("volumes", Compose::validate_volumes),
        ("configs", Compose::validate_configs),
        ("secrets", Compose::validate_secrets),
    ];
    for (kind, f) in checks {
        let got = match quiet_catch(|| f(&compose)) {
            Ok(r) => r.map_err(|e| e.to_string()),
            Err(p) => return c.fail(format!("panic:{kind}"), format!("{}: {p}", show(&v))),
        };
        c.event(&format!("{kind}: {}", if undef.contains_key(kind) { "undefined" } else { "defined" }));
        verdict(c, kind, &got, undef.get(kind), &v);
    }
    let all = compose.validate_all().map_err(|e| e.to_string());
    match (&all, undef.is_empty()) {
        (Ok(()), true) => c.event("valid documents"),
        (Ok(()), false) => c.fail("all-ok", format!("{} has undefined {undef:?}", show(&v))),
        (Err(e), true) => c.fail("all-err", format!("{}: {e}, everything is defined", show(&v))),
        (Err(e), false) => {
            let kind = e.split(' ').next().unwrap_or_default().to_owned() + "s";
            verdict(c, &kind, &all, undef.get(kind.as_str()), &v);
        }
    }
}
fn verdict(c: &mut Case, kind: &str, got: &Result<(), String>, undef: Option<&BTreeSet<(String, String)>>, v: &V) {
    match (got, undef) {
        (Ok(()), None) => {}
        (Ok(()), Some(u)) => c.fail(format!("missed:{kind}"), format!("{} uses undefined {u:?}", show(v))),
        (Err(e), None) => c.fail(format!("alarm:{kind}"), format!("{}: {e}", show(v))),
        (Err(e), Some(u)) => {
            // the names are given in backticks
            let names: Vec<&str> = e.split('`').skip(1).step_by(2).collect();
            let kind_ok = e.to_lowercase().contains(kind.trim_end_matches('s'));
            let ok = match kind {
                "volumes" => names.first().is_some_and(|n| u.iter().any(|x| x.0 == *n)),
                _ => names.len() >= 2 && u.contains(&(names[0].to_owned(), names[1].to_owned())),
            };
            let field_ok = names.last() == Some(&kind) && e.contains("multiple services") == (kind == "volumes");
            if !ok || !kind_ok || !field_ok {
                c.fail(format!("names:{kind}"), format!("{}: {e}; undefined are {u:?}", show(v)));
            }
        }
    }
}

// ---- C13 -------------------------------------------------------------------------------------
/// Splits mappings of a tree into merge keys. The result of merging is the tree itself.
fn split(v: &V, r: &mut Rng, used: &mut u64, depth: u32, pool: &[V]) -> V {
    match v {
        V::Sequence(s) => V::Sequence(s.iter().map(|v| split(v, r, used, depth, pool)).collect()),
        V::Mapping(m) if !m.contains_key("<<") => {
            let mut own: Vec<(V, V)> = m.iter().map(|(k, v)| (k.clone(), split(v, r, used, depth, pool))).collect();
            if depth > 2 || !r.chance(1, 3) {
                return V::Mapping(own.into_iter().collect());
            }
            *used += 1;
            // sources, earlier wins; a key that an earlier place has may be repeated with another value
            let count = r.range(0, 3) as usize;
            let mut sources: Vec<Vec<(V, V)>> = vec![Vec::new(); count];
            let mut kept = Vec::new();
            own.reverse();
            while let Some((k, v)) = own.pop() {
                let place = r.below(count + 1);
                let decoy = |r: &mut Rng| if pool.is_empty() { V::Null } else { r.pick(pool).clone() };
                for later in place + 1..=count {
                    if r.chance(1, 3) {
                        let d = decoy(r);
                        sources[later - 1].push((k.clone(), d));
                    }
                }
                if place == 0 {
                    kept.push((k, v));
                } else {
                    sources[place - 1].push((k, v));
                }
            }
            let mut maps: Vec<V> = sources
                .into_iter()
                .map(|mut s| {
                    r.shuffle(&mut s);
                    // a source may itself be the result of a merge
                    let m = V::Mapping(s.into_iter().collect());
                    if r.bool() { split(&m, r, used, depth + 1, pool) } else { m }
                })
                .collect();
            let merge = if maps.len() == 1 && r.bool() { maps.pop().unwrap() } else { V::Sequence(maps) };
            let at = r.below(kept.len() + 1);
            kept.insert(at, (V::String("<<".into()), merge));
            V::Mapping(kept.into_iter().collect())
        }
        v => v.clone(),
    }
}
/// Merge semantics by hand: the order of keys is that of the mapping without `<<`, then the sources.
pub fn resolve(v: &V) -> Result<V, ()> {
    Ok(match v {
        V::Sequence(s) => V::Sequence(s.iter().map(resolve).collect::<Result<_, _>>()?),
        V::Mapping(m) => {
            let mut out = Mapping::new();
            for (k, v) in m {
                if k != "<<" {
                    out.insert(k.clone(), resolve(v)?);
                }
            }
            if let Some(x) = m.get("<<") {
                let sources: Vec<&V> = match x {
                    V::Sequence(s) => s.iter().collect(),
                    x => vec![x],
                };
                for s in sources {
                    let V::Mapping(s) = resolve(s)? else { return Err(()) };
                    for (k, v) in s {
                        if !out.contains_key(&k) {
                            out.insert(k, v);
                        }
                    }
                }
            }
            V::Mapping(out)
        }
        V::Tagged(_) => return Err(()),
        v => v.clone(),
    })
}
fn collect(v: &V, out: &mut Vec<V>) {
    if out.len() > 40 {
        return;
    }
    match v {
        V::Mapping(m) => m.values().for_each(|v| {
            out.push(v.clone());
            collect(v, out);
        }),
        V::Sequence(s) => s.iter().for_each(|v| collect(v, out)),
        _ => {}
    }
}
type Loaded = Result<Result<Compose, String>, String>;
fn every_input(v: &V, text: Option<&str>, merge: bool, chunk: usize) -> Vec<(&'static str, Loaded)> {
    // the last setting is the one that counts
    let mut o = Compose::options();
    if chunk % 2 == 0 {
        o.apply_merge(!merge);
    }
    if chunk % 3 == 0 {
        o.apply_merge(merge).apply_merge(!merge);
    }
    if merge || chunk % 2 == 0 || chunk % 3 == 0 {
        o.apply_merge(merge);
    }
    let e = |r: serde_yaml::Result<Compose>| r.map_err(|e| e.to_string());
    let mut out = vec![("value", quiet_catch(|| e(o.from_yaml_value(v.clone()))))];
    if let Some(t) = text {
        out.push(("str", quiet_catch(|| e(o.from_yaml_str(t)))));
        out.push(("slice", quiet_catch(|| e(o.from_yaml_slice(t.as_bytes())))));
        out.push(("reader", quiet_catch(|| e(o.from_yaml_reader(crate::types::Trickle(t.as_bytes(), chunk))))));
    }
    out
}
pub fn merges(c: &mut Case) {
    let mut g = g(c);
    g.density = *g.r.pick(&[5, 15]);
    let (n, _) = d::compose(&mut g);
    let mut base = to_value(&n);
    let mut pool = Vec::new();
    collect(&base, &mut pool);
    // what is merged may stand far into a text
    if let (true, V::Mapping(m)) = (g.r.chance(1, 12), &mut base) {
        let len = *g.r.pick(&[120, 300, 1100, 5000, 9000, 17_000, 40_000, 66_000]);
        let (k, pad) = (V::String("x-pad".into()), V::String("pad ".repeat(len / 4)));
        m.remove(&k);
        *m = std::iter::once((k, pad)).chain(std::mem::take(m)).collect();
        c.event("documents with far merge keys");
    }
    let mut used = 0;
    let mut v = split(&base, &mut g.r, &mut used, 0, &pool);
    // sometimes an invalid merge value
    let mut invalid = "";
    if g.r.chance(1, 8) {
        if let V::Mapping(m) = &mut v {
            let (x, what) = match g.r.below(5) {
                0 => (V::Null, "null"),
                1 => (V::from(1), "number"),
                2 => (V::String("a".into()), "string"),
                3 => (V::Sequence(vec![V::Sequence(vec![])]), "nested sequence"),
                _ => (V::Sequence(vec![V::Mapping(Mapping::new()), V::Bool(true)]), "sequence with a scalar"),
            };
            m.insert("<<".into(), x);
            invalid = what;
            used += 1;
        }
    }
    if used == 0 {
        return c.event("skipped: no merge key");
    }
    c.event_n("merge keys", used);
    c.seen(&show(&v));
    let mut text = String::new();
    if g.r.chance(1, 12) {
        let line = *g.r.pick(&["\n", "# merge\n", "#\n\n"]);
        let times = *g.r.pick(&[1, 40, 1500, 5000, 20_000]);
        text.push_str(&line.repeat(times));
    }
    crate::checks::documents::flow(&v, &mut g.r, &mut Vec::new(), &mut text);
    let carried = serde_yaml::from_str::<V>(&text).is_ok_and(|w| same(&v, &w));
    c.sample(|| text.chars().take(2000).collect());
    let chunk = if text.len() > 4000 { 512 } else { 1 } * g.r.range(1, 40) as usize;
    let want = resolve(&v).map(|w| {
        let r = parse::<Compose>(&w);
        (w, r)
    });
    for (how, got) in every_input(&v, carried.then_some(text.as_str()), true, chunk) {
        c.event(&format!("merged from {how}"));
        match (&want, got) {
            (_, Err(p)) => c.fail(format!("panic:{how}"), format!("{text}: {p}")),
            (Err(()), Ok(Ok(t))) => c.fail(format!("invalid-accepted:{how}"), format!("{invalid} as merge value in {text}: {t:?}")),
            (Err(()), Ok(Err(_))) => c.event("invalid merge values rejected"),
            (Ok((w, Ok(a))), Ok(Ok(b))) => {
                c.event("merged documents accepted");
                if *a != b {
                    c.fail(format!("value:{how}"), format!("{} merges to {}: {a:?}, read {b:?}", show(&v), show(w)));
                } else if serde_yaml::to_string(a).ok() != serde_yaml::to_string(&b).ok() {
                    c.fail(format!("order:{how}"), format!("{} merges to {}, written {:?}", show(&v), show(w), serde_yaml::to_string(&b)));
                }
            }
            (Ok((_, Err(_))), Ok(Err(_))) => c.event("merged documents rejected"),
            (Ok((w, Ok(_))), Ok(Err(e))) => c.fail(format!("rejected:{how}"), format!("{} merges to {}, but {e}", show(&v), show(w))),
            (Ok((w, Err(e))), Ok(Ok(_))) => c.fail(format!("accepted:{how}"), format!("{} merges to {}, which is rejected: {e}", show(&v), show(w))),
        }
    }
    // without merging `<<` is a key like any other: unknown in a structure, kept in an extension
    let plain = parse::<Compose>(&v);
    for (how, got) in every_input(&v, carried.then_some(text.as_str()), false, chunk) {
        match (&plain, got) {
            (Ok(a), Ok(Ok(b))) if *a == b => c.event("documents with unmerged keys accepted"),
            (Err(_), Ok(Err(_))) => c.event("documents with unmerged keys rejected"),
            (a, b) => c.fail(format!("unmerged:{how}"), format!("{}: {a:?} and {b:?}", show(&v))),
        }
    }
    if let V::Mapping(m) = &v {
        if m.contains_key("<<") && plain.is_ok() {
            c.fail("unmerged-meaning", format!("{text} is accepted although merging is off"));
        }
    }
    let mut d1 = Compose::options();
    let d2 = Compose::options();
    if *d1.apply_merge(false) != d2 || *d1.apply_merge(true) == d2 {
        c.fail("default", "merging is not off by default");
    }
}
/// Merge keys inside user-named maps do not get a meaning unless asked for.
pub fn unmerged(c: &mut Case) {
    let mut g = g(c);
    // `<<` in an extension value stays as it is when merging is off
    let inner = d::ext_value(&mut g).1.map(|x| x_to_value(&x)).unwrap_or(V::Null);
    let mut e = Mapping::new();
    e.insert("<<".into(), inner);
    e.insert("k".into(), V::from(1));
    let mut m = Mapping::new();
    m.insert("services".into(), V::Mapping(Mapping::new()));
    m.insert("x-e".into(), V::Mapping(e));
    let v = V::Mapping(m);
    c.seen(&show(&v));
    let text = serde_json::to_string(&v).unwrap_or_default();
    let carried = serde_yaml::from_str::<V>(&text).is_ok_and(|w| same(&v, &w));
    for (how, got) in every_input(&v, carried.then_some(text.as_str()), false, c.index as usize + 1) {
        c.event("extensions with <<");
        match got {
            Ok(Ok(t)) => {
                if !serde_yaml::to_value(&t).is_ok_and(|w| w.get("x-e").is_some_and(|x| same(x, &v["x-e"]))) {
                    c.fail(format!("extension:{how}"), format!("{text}: {t:?}"));
                }
            }
            r => c.fail(format!("extension-rejected:{how}"), format!("{text}: {r:?}")),
        }
    }
    let _ = huge_cpuset(&v);
}

// ---- helpers in their own process ------------------------------------------------------------
pub fn helper(args: &[String]) {
    match args.first().map(String::as_str) {
        Some("digest") => {
            crate::mon::install_panic_monitor();
            let (seed, n) = (args[1].parse().expect("seed"), args[2].parse().expect("n"));
            for l in crate::checks::documents::digest(seed, n, args.get(3).is_some()) {
                println!("{l}");
            }
        }
        Some("cpuset") => {
            let r = args[1].parse::<compose_spec::service::CpuSet>();
            println!("{}", r.is_ok());
        }
        _ => std::process::exit(3),
    }
}
/// A short text must not make the library use memory out of all proportion: in a process of its own.
pub fn cpuset_range(c: &mut Case) {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let (text, sig) = match c.index {
        0 => ("0-18446744073709551615".to_owned(), "resource:CpuSet:huge range"),
        1 => ("0-1023".to_owned(), "resource:CpuSet:range"),
        _ => ("0,2-1000,1024".to_owned(), "resource:CpuSet:range"),
    };
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("exe"));
    cmd.args(["--helper", "cpuset", &text]).stderr(std::process::Stdio::null());
    // SAFETY: setrlimit is async-signal-safe.
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 1 << 30, rlim_max: 1 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let t = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &t);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    c.seen(&text);
    c.event("texts parsed in a limited process");
    match cmd.output() {
        Ok(o) if o.status.success() => {}
        Ok(o) => c.fail(
            sig,
            format!("parsing the CPU set {text:?} ends a process limited to 1 GiB and 20 s ({:?}, signal {:?})", o.status.code(), o.status.signal()),
        ),
        Err(e) => c.fail("helper", e.to_string()),
    }
}
